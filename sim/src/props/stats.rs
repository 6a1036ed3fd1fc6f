//! The statistics program (C23): real collect-stats processes over a scratch directory, every file call answered by the
//! preloaded shim; processes are killed at seeded calls and started again.
use super::proc::*;
use crate::case::*;
use crate::rng::Rng;
use crate::simio::*;
use serde_json::Value;
use std::collections::HashSet;
use std::path::Path;

fn field(r: &mut Rng) -> String {
    let d = r.us(7);
    let x = match r.below(8) {
        0 => "0".into(),
        1 => "-0.0".into(),
        2 => format!("{}", r.range(-50, 50)),
        3 => format!("{}.", r.below(100)),
        4 => format!("{:.*}", d, r.range(-50, 50) as f64 / 4.0),
        _ => format!("{:.*}", d, r.range(-1_000_000, 1_000_000) as f64 / 997.0),
    };
    if r.chance(1, 10) {
        let e = if r.chance(1, 4) { 'E' } else { 'e' };
        format!("{x}{e}{}", r.range(-6, 6))
    } else {
        x
    }
}

fn text(r: &mut Rng, bad: bool) -> String {
    let lines = match r.below(8) {
        0 => 0,
        1..=3 => 1 + r.us(4),
        4..=6 => 1 + r.us(40),
        _ => 1 + r.us(300),
    };
    let width = *r.pick(&[1usize, 2, 3, 8, 40]);
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let mut out: Vec<String> = vec![];
    for _ in 0..lines {
        let mut l: Vec<String> = vec![];
        for _ in 0..1 + r.us(width) {
            if r.chance(1, 15) {
                l.push(if r.chance(1, 2) { " ".into() } else { String::new() });
            }
            let f = field(r);
            l.push(if r.chance(1, 8) { format!(" {f} ") } else { f });
        }
        out.push(l.join(","));
    }
    if bad && lines > 0 {
        let i = r.us(lines);
        out[i] += *r.pick(&[",x", ",1;2", ",1 2", ",--1", ",1.2.3", ",1_000"]);
    }
    let mut s = out.join(eol);
    if r.chance(2, 3) && lines > 0 {
        s.push_str(eol);
    }
    s
}

pub fn gen_c23(r: &mut Rng, index: u64) -> Case {
    let mut c = Case::new("C23");
    if index % 1000 == 500 {
        // millions of values, so that sums leave 32 bits
        let x = *r.pick(&["0", "1e120", "-0.0", "4e-310"]);
        c.texts.push(format!("{x},{x},{x},{x},{x},{x},{x},{x}\n"));
        c.put("repeat", 270_000 + r.us(5000) as i64);
        return c;
    }
    for _ in 0..1 + r.us(3) {
        let bad = r.chance(1, 6);
        c.texts.push(text(r, bad));
    }
    for k in ["r_mode", "w_mode"] {
        let m = r.below(3) as i64;
        c.put(k, m);
        c.put(if k == "r_mode" { "r_len" } else { "w_len" }, *r.pick(&[1i64, 2, 3, 7, 8, 13, 64, 500, 4096]));
    }
    c.put("stale", r.chance(1, 2) as i64);
    c.put("names", r.below(3) as i64);
    if r.chance(4, 5) {
        for _ in 0..1 + r.us(2) {
            let k = *r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 2, 6]);
            let crash = r.chance(1, 4);
            c.faults.push(FaultAt {
                stream: k + if crash { 8 } else { 0 },
                op: 0,
                at: if r.chance(1, 2) { r.below(6) as u32 } else { r.below(1 << 20) as u32 },
                fault: match k {
                    1 => *r.pick(&[Fault::Eio, Fault::Nospc, Fault::Zero, Fault::Nospc, Fault::Again]),
                    0 => *r.pick(&[Fault::Eio, Fault::Timeout, Fault::Again]),
                    _ => *r.pick(&[Fault::Eio, Fault::Nospc]),
                },
                sticky: r.chance(1, 3),
            });
        }
    }
    c
}

fn stem(c: &Case, i: usize) -> String {
    match c.get("names") {
        1 => format!("set.{i}"),
        2 => format!("in {i}"),
        _ => format!("in{i}"),
    }
}

fn table(c: &Case, i: usize) -> String {
    c.texts[i].repeat(if i == 0 { c.get("repeat").clamp(1, 300_000) as usize } else { 1 })
}

/// Numbers and written decimals of a table; None when a field is no number.
fn parse(t: &str) -> Option<(Vec<f64>, Vec<f64>)> {
    let (mut v, mut d) = (vec![], vec![]);
    for f in t.split(['\n', ',']).map(str::trim).filter(|f| !f.is_empty()) {
        v.push(f.parse::<f64>().ok()?);
        let (b, e) = f.split_once(['e', 'E']).map_or((f, 0), |(b, e)| (b, e.parse::<i64>().unwrap_or(0)));
        d.push((b.split_once('.').map_or(0, |(_, d)| d.len() as i64) - e).max(0) as f64);
    }
    Some((v, d))
}

fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}
fn dev(v: &[f64]) -> f64 {
    let m = mean(v);
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64).sqrt()
}

fn judge(v: &Value, t: &str) -> Result<(), String> {
    let (x, d) = parse(t).ok_or("there are statistics of a table that is not numeric")?;
    let get = |k: &str| v.get(k).and_then(Value::as_f64);
    if get("num_values") != Some(x.len() as f64) {
        return Err(format!("num_values is {:?} instead of {}", get("num_values"), x.len()));
    }
    if x.is_empty() {
        return Ok(());
    }
    let e: Vec<f64> = x.iter().map(|x| (x.to_bits() >> 52 & 0x7ff) as f64 - 1023.0).collect();
    let max = |v: &[f64]| v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let min = |v: &[f64]| v.iter().copied().fold(f64::INFINITY, f64::min);
    let xs: Vec<u64> = x.windows(2).map(|w| w[0].to_bits() ^ w[1].to_bits()).collect();
    let zeros = |f: fn(u64) -> u32| if xs.is_empty() { 64.0 } else { mean(&xs.iter().map(|x| f(*x) as f64).collect::<Vec<_>>()) };
    let distinct = x.iter().map(|x| x.to_bits()).collect::<HashSet<_>>().len();
    let size = max(&x.iter().map(|x| x.abs()).collect::<Vec<_>>());
    for (k, want, scale) in [
        ("decimal_precision_max", max(&d), 0.0),
        ("decimal_precision_min", min(&d), 0.0),
        ("decimal_precision_avg", mean(&d), 20.0),
        ("decimal_precision_std", dev(&d), 20.0),
        ("value_max", max(&x), 1e-4 * size),
        ("value_min", min(&x), 1e-4 * size),
        ("value_avg", mean(&x), size),
        ("value_std", dev(&x), size),
        ("exponent_max", max(&e), 0.0),
        ("exponent_min", min(&e), 0.0),
        ("exponent_avg", mean(&e), 1e3),
        ("exponent_std", dev(&e), 1e3),
        ("xor_leading_zeros_avg", zeros(u64::leading_zeros), 64.0),
        ("xor_trailing_zeros_avg", zeros(u64::trailing_zeros), 64.0),
        ("non_unique_value_ratio", (x.len() - distinct) as f64 / x.len() as f64, 1.0),
    ] {
        // sums may be taken in any order
        match get(k) {
            Some(g) if (g - want).abs() <= 1e-9 * scale => (),
            // how squares and sums that leave the numbers come out is not said
            _ if !want.is_finite() => (),
            g => return Err(format!("{k} is {g:?} instead of {want}")),
        }
    }
    Ok(())
}

fn judge_all(c: &Case, ran: &Ran, root: &Path, faulty: bool) -> Result<u64, (&'static str, String)> {
    let after = std::fs::read(root.join("stats.json")).ok();
    let bytes = after.as_deref().ok_or(("silent-failure", "success, yet there is no stats.json".to_string()))?;
    let v: Value = serde_json::from_slice(bytes).map_err(|e| ("wrong-result", format!("success, yet stats.json ({} bytes) is not JSON: {e}", bytes.len())))?;
    let o = v.as_object().ok_or(("wrong-result", "stats.json is no object".to_string()))?;
    let listed = ran.err.contains("Failed to read path");
    let mut lost = 0;
    for i in 0..c.texts.len() {
        let (s, t) = (stem(c, i), &table(c, i));
        let told = ran.err.contains(&format!("Failed to collect stats from stats_in/{s}.csv"));
        match o.get(&s) {
            Some(x) => {
                judge(x, t).map_err(|e| ("wrong-result", format!("{s}: {e}")))?;
                if told {
                    return Err(("false-report", format!("{s} has statistics, yet was reported as failed")));
                }
            }
            None if !told && !(faulty && listed) => return Err(("silent-failure", format!("{s} is missing and was not reported"))),
            None => {
                let numeric = parse(t).is_some();
                lost += numeric as u64;
                if !faulty && numeric {
                    return Err(("false-report", format!("{s} was reported as failed: {}", ran.err.chars().take(200).collect::<String>())));
                }
            }
        }
    }
    if o.len() > c.texts.len() {
        return Err(("wrong-result", format!("{} entries for {} tables", o.len(), c.texts.len())));
    }
    Ok(lost)
}

pub fn run_c23(c: &Case, st: &mut Stats) -> Res {
    if c.texts.is_empty() {
        return Ok(());
    }
    let d = Dir::new("stats")?;
    let mut t = Tree::new();
    for i in 0..c.texts.len() {
        t.insert(format!("stats_in/{}.csv", stem(c, i)), table(c, i).into_bytes());
    }
    if c.get("stale") != 0 {
        // an earlier, longer result
        t.insert("stats.json".into(), format!("{{\"old\": \"{}\"}}", "x".repeat(60_000)).into_bytes());
    }
    plant(&d.0, &t)?;
    let mut benign: Vec<String> = vec![];
    for (k, m, l) in [('r', "r_mode", "r_len"), ('w', "w_mode", "w_len")] {
        match c.get(m) {
            1 => benign.push(format!("{k}*=s{}", c.get(l).max(1))),
            2 => benign.push(format!("{k}*=f{}", c.get(l).max(1))),
            _ => (),
        }
    }
    let exec = |root: &Path, plan: &str| run(&bindir().join("collect-stats"), &["stats_in/*.csv".into()], root, Path::new("stats"), plan);
    let plain = benign.join(";");
    let mut plan: Vec<String> = vec![];
    if !c.faults.is_empty() {
        let dry = Dir::new("stats-dry")?;
        plant(&dry.0, &t)?;
        let ran = exec(&dry.0, &plain)?;
        plan = c.faults.iter().filter_map(|f| aim(f, &ran)).collect();
    }
    let faulty = !plan.is_empty();
    let sticky = c.faults.iter().any(|f| f.sticky);
    let what = format!("faults {plan:?}");
    plan.extend(benign);
    for round in 0..2 {
        let ran = exec(&d.0, &if round == 0 { plan.join(";") } else { plain.clone() })?;
        ran.account(st);
        st.fired[3] += ran.failed;
        st.add("crashes", ran.killed as u64);
        st.add("repeats", round);
        let what = if round == 0 { what.clone() } else { format!("{what}, then repeated without faults") };
        for (p, b) in &t {
            if p != "stats.json" && std::fs::read(d.0.join(p)).ok().as_ref() != Some(b) {
                return viol("damage", format!("{what}: {p} was changed"));
            }
        }
        if !ran.ok {
            if round > 0 || !faulty {
                return viol("false-report", format!("{what}: failed: {}", ran.err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
            }
            continue;
        }
        let lost = judge_all(c, &ran, &d.0, faulty && round == 0).map_err(|(class, m)| Violation { class: class.into(), msg: format!("{what}: {m}") })?;
        st.add("files_lost_and_reported", lost);
        if !sticky && lost > ran.failed + ran.zero && !ran.err.contains("Failed to read path") {
            return viol("spread", format!("{what}: {} failures lost {lost} files", ran.failed));
        }
        if lost == 0 {
            break;
        }
    }
    Ok(())
}
