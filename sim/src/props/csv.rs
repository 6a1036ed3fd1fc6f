//! The CSV converter (C19): the real csv2bin process, every open/mkdir/read/write of which is answered by a preloaded shim.
use crate::case::*;
use crate::rng::Rng;
use crate::simio::*;
use super::proc::*;
use std::path::PathBuf;


fn number(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "0".into(),
        1 => "-0".into(),
        2 => format!("{}", r.range(-1000, 1000)),
        3 => format!("{}", f64::from_bits(r.u64() & !(0x7ff << 52) | (0x3ff << 52))),
        4 => format!("{:e}", f64::from_bits(r.u64() & !(0x7ffu64 << 52) | (r.below(0x7ff) << 52))),
        5 => (*r.pick(&["nan", "NaN", "inf", "-inf", "Infinity", "1e400", "-1e400", "1e-400", "5e-324", "1.7976931348623157e308"])).into(),
        6 => format!("+{}", r.below(100)),
        7 => format!("{}.", r.below(100)),
        8 => format!(".{}", r.below(100)),
        9 => format!(" {} ", r.range(-99, 99) as f64 / 4.0),
        10 => format!("\t{}", r.range(-99, 99) as f64 / 8.0),
        _ => format!("{}", r.range(-1_000_000, 1_000_000) as f64 / 100.0),
    }
}

fn text(r: &mut Rng, bad: bool) -> String {
    let lines = match r.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => 1 + r.us(4),
        4..=6 => 1 + r.us(40),
        _ => 1 + r.us(500),
    };
    let width = *r.pick(&[1usize, 1, 2, 3, 8, 60]);
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let blank = r.chance(1, 3);
    let mut out: Vec<String> = vec![];
    for _ in 0..lines {
        let n = if blank && r.chance(1, 5) { 0 } else { 1 + r.us(width) };
        let mut l: Vec<String> = vec![];
        for _ in 0..n {
            if r.chance(1, 12) {
                l.push(String::new());
            }
            l.push(number(r));
        }
        if r.chance(1, 10) {
            l.push(String::new());
        }
        out.push(l.join(","));
    }
    if bad && lines > 0 {
        let i = r.us(lines);
        let junk = *r.pick(&["x", "1;2", "\"3\"", "1 2", "0x10", "--1", "1e", "\u{ff}", "1\u{80}", "1.2.3", "1_000"]);
        if r.chance(1, 2) {
            out[i] = format!("{},{junk}", out[i]);
        } else {
            out[i] = format!("{junk},{}", out[i]);
        }
    }
    let mut s = out.join(eol);
    if r.chance(2, 3) && lines > 0 {
        s.push_str(eol);
    }
    s
}

pub fn gen_c19(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C19");
    for _ in 0..1 + r.us(3) {
        let bad = r.chance(1, 6);
        c.texts.push(text(r, bad));
    }
    // benign behaviour of reads and writes: 0 whole, 1 short, 2 interrupted and short
    for k in ["r_mode", "w_mode"] {
        let m = r.below(3) as i64;
        c.put(k, m);
        c.put(if k == "r_mode" { "r_len" } else { "w_len" }, *r.pick(&[1i64, 2, 3, 7, 8, 13, 64, 500, 4096]));
    }
    c.put("stale", r.chance(1, 2) as i64);
    c.put("dir", r.chance(1, 2) as i64);
    c.put("names", if r.chance(1, 2) { 0 } else { 1 + r.below(4) as i64 });
    c.put("relative", r.chance(1, 3) as i64);
    if r.chance(3, 4) {
        for _ in 0..1 + r.us(2) {
            let stream = *r.pick(&[0u8, 0, 1, 1, 1, 1, 2, 3]);
            c.faults.push(FaultAt {
                stream,
                op: 0,
                at: if r.chance(1, 2) { r.below(6) as u32 } else { r.below(1 << 20) as u32 },
                fault: if stream == 1 {
                    *r.pick(&[Fault::Eio, Fault::Nospc, Fault::Zero, Fault::Nospc, Fault::Again])
                } else if stream == 0 {
                    *r.pick(&[Fault::Eio, Fault::Timeout, Fault::Again])
                } else {
                    *r.pick(&[Fault::Eio, Fault::Nospc])
                },
                sticky: r.chance(1, 3),
            });
        }
    }
    c
}

fn raw(t: &str) -> Vec<u8> {
    t.chars().map(|c| c as u32 as u8).collect()
}

/// The records a CSV text stands for; None when it does not consist of numbers.
fn expect(t: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut rest = t;
    while !rest.is_empty() {
        let (line, next) = match rest.iter().position(|b| *b == b'\n') {
            Some(i) => (rest[..i].strip_suffix(b"\r").unwrap_or(&rest[..i]), &rest[i + 1..]),
            None => (rest, &rest[rest.len()..]),
        };
        rest = next;
        for f in line.split(|b| *b == b',') {
            if f.is_empty() {
                continue;
            }
            let x: f64 = std::str::from_utf8(f).ok()?.trim().parse().ok()?;
            out.extend_from_slice(&x.to_le_bytes());
        }
    }
    Some(out)
}

struct Out {
    ran: Ran,
    bins: Vec<Option<Vec<u8>>>,
}

const STALE: usize = 100_003;
fn stale(i: usize) -> Vec<u8> {
    (0..STALE).map(|j| (j * 7 + i) as u8).collect()
}

/// The stem and the extension of input file i.
fn name(c: &Case, i: usize) -> (String, &'static str) {
    match c.get("names") {
        1 => (format!("set.{i}"), ".csv"),
        2 => (format!("in {i}.v1"), ".txt"),
        3 => (format!("in{i}"), ""),
        4 => (format!(".h{i}.bin"), ".CSV"),
        _ => (format!("in{i}"), ".csv"),
    }
}

fn file(c: &Case, i: usize) -> String {
    let (s, e) = name(c, i);
    s + e
}

fn convert(c: &Case, plan: &str) -> Res<Out> {
    let d = Dir::new("csv")?;
    let root = d.0.clone();
    let data = root.join("data");
    std::fs::create_dir_all(&data).map_err(io)?;
    if c.get("dir") != 0 || c.get("stale") != 0 {
        std::fs::create_dir_all(data.join("binary")).map_err(io)?;
    }
    for (i, t) in c.texts.iter().enumerate() {
        std::fs::write(data.join(file(c, i)), raw(t)).map_err(io)?;
        if c.get("stale") != 0 {
            std::fs::write(data.join(format!("binary/{}.bin", name(c, i).0)), stale(i)).map_err(io)?;
        }
    }
    let place = if c.get("relative") != 0 { PathBuf::from("data") } else { data.clone() };
    let pattern = ["*.csv", "set.*.csv", "in*.txt", "in?", ".h*.CSV"][c.get("names").clamp(0, 4) as usize];
    let ran = run(&bindir().join("csv2bin"), &[format!("{}/{pattern}", place.display())], &root, &place, plan)?;
    Ok(Out {
        ran,
        bins: (0..c.texts.len()).map(|i| std::fs::read(data.join(format!("binary/{}.bin", name(c, i).0))).ok()).collect(),
    })
}

fn show(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "no file".into(),
        Some(v) => format!("{} bytes", v.len()),
    }
}

pub fn run_c19(c: &Case, st: &mut Stats) -> Res {
    if c.texts.is_empty() {
        return Ok(());
    }
    let want: Vec<Option<Vec<u8>>> = c.texts.iter().map(|t| expect(&raw(t))).collect();
    let mut benign: Vec<String> = vec![];
    for (k, m, l) in [('r', "r_mode", "r_len"), ('w', "w_mode", "w_len")] {
        match c.get(m) {
            1 => benign.push(format!("{k}*=s{}", c.get(l).max(1))),
            2 => benign.push(format!("{k}*=f{}", c.get(l).max(1))),
            _ => (),
        }
    }
    let base = convert(c, &benign.join(";"))?;
    base.ran.account(st);
    for (i, w) in want.iter().enumerate() {
        let said = base.ran.err.contains(&file(c, i));
        let had = &base.bins[i];
        match w {
            Some(w) => {
                if had.as_ref() != Some(w) {
                    return viol("wrong-output", format!("file {i} of {} numbers became {}{}", w.len() / 8, show(had), if said { ", reported" } else { "" }));
                }
                if said {
                    return viol("false-report", format!("file {i} is numeric and was converted, yet reported as failed"));
                }
            }
            None => {
                if !said && base.ran.ok {
                    return viol("silent-failure", format!("file {i} has a field that is no number, and nothing was reported"));
                }
                if had.is_some() {
                    return viol("left-over", format!("file {i} has a field that is no number, yet {} were left as its output", show(had)));
                }
            }
        }
    }
    if c.faults.is_empty() {
        return Ok(());
    }
    let mut plan = vec![];
    let (mut sticky, mut any) = (false, false);
    for f in &c.faults {
        let k = (f.stream as usize).min(3);
        if base.ran.calls[k] == 0 {
            continue;
        }
        let n = f.at as u64 % base.ran.calls[k];
        let errno = match f.fault {
            Fault::Nospc => libc::ENOSPC,
            Fault::Again => libc::EAGAIN,
            Fault::Timeout => libc::ETIMEDOUT,
            Fault::Zero if k == 1 => 0,
            _ => match k {
                2 if f.at % 3 == 0 => libc::EACCES,
                2 if f.at % 3 == 1 => libc::EMFILE,
                3 if f.at % 2 == 0 => libc::EACCES,
                _ => libc::EIO,
            },
        };
        any = true;
        if errno == 0 {
            plan.push(format!("{}{n}=z", KIND[k]));
        } else {
            sticky |= f.sticky;
            plan.push(format!("{}{n}={}{errno}", KIND[k], if f.sticky { 'E' } else { 'e' }));
        }
    }
    if !any {
        return Ok(());
    }
    plan.extend(benign);
    let o = convert(c, &plan.join(";"))?;
    o.ran.account(st);
    st.fired[3] += o.ran.failed;
    let failures = o.ran.failed + o.ran.zero;
    let mut lost = 0;
    for (i, w) in want.iter().enumerate() {
        let said = o.ran.err.contains(&file(c, i)) || !o.ran.ok;
        let had = &o.bins[i];
        if w.is_some() && had == w {
            if said && failures == 0 {
                return viol("false-report", format!("file {i} was converted, yet reported as failed"));
            }
            continue;
        }
        lost += w.is_some() as u64;
        if !said {
            return viol("silent-failure", format!("faults {plan:?}: file {i} should be {}, is {}, and nothing was reported", show(w), show(had)));
        }
        let old = c.get("stale") != 0 && had.as_deref() == Some(&stale(i)[..]);
        if had.is_some() && !old {
            return viol("left-over", format!("faults {plan:?}: file {i} was reported as failed, yet {} were left as its output", show(had)));
        }
    }
    st.add("files_lost_and_reported", lost);
    if !sticky && lost > failures {
        return viol("spread", format!("faults {plan:?}: {failures} failures lost {lost} files"));
    }
    Ok(())
}
