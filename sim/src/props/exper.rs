//! The experimenter program (C21): real processes over a scratch directory, every file call answered by the preloaded shim;
//! processes are killed at seeded calls and started again on what they left.
use super::proc::*;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::decoder::query::{Predicate, Range, RangeValue, RoaringBitmap};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A value that survives being written to a JSON configuration and read back.
fn json_safe(bits: u64, scheme: Scheme) -> u64 {
    let ok = |x: f64| x.is_finite() && serde_json::to_string(&x).ok().and_then(|s| serde_json::from_str::<f64>(&s).ok()).is_some_and(|y| y.to_bits() == x.to_bits());
    let x = f64::from_bits(bits);
    if ok(x) {
        return bits;
    }
    let y = if x.is_finite() && !scheme.quantised() { (x * 100.0).round() / 100.0 } else { 0.0 };
    if ok(y) { y.to_bits() } else { 0 }
}
fn safe_pred(p: Pred, s: Scheme) -> Pred {
    let b = |x: Bound| match x {
        Bound::Inc(v) => Bound::Inc(json_safe(v, s)),
        Bound::Exc(v) => Bound::Exc(json_safe(v, s)),
        Bound::No => Bound::No,
    };
    match p {
        Pred::Eq(v) => Pred::Eq(json_safe(v, s)),
        Pred::Ne(v) => Pred::Ne(json_safe(v, s)),
        Pred::Range(x, y) => Pred::Range(b(x), b(y)),
    }
}

/// A CSV table of decimal numbers.
fn table(r: &mut Rng) -> String {
    let most = r.below(7) as usize;
    let rare = r.chance(1, 2);
    let mut s = String::new();
    for _ in 0..1 + r.us(20) {
        for j in 0..1 + r.us(12) {
            let d = if rare && r.chance(1, 60) { most + 1 + r.us(4) } else { r.us(most + 1) };
            let x = format!("{:.*}", d, r.range(-1_000_000, 1_000_000) as f64 / 997.0);
            s += if j > 0 { "," } else { "" };
            s += &x;
            if r.chance(1, 8) {
                s += &format!("{}{}", if r.chance(1, 4) { 'E' } else { 'e' }, r.range(-4, 4));
            }
        }
        s.push('\n');
    }
    s
}
/// The number of decimals the configurations made from a table must keep.
fn decimals(t: &str, exact: bool) -> Option<u32> {
    decimals_of(t, ',', exact)
}
pub fn decimals_of(t: &str, sep: char, exact: bool) -> Option<u32> {
    let mut v: Vec<i64> = vec![];
    for f in t.split(['\n', sep]).map(str::trim).filter(|f| !f.is_empty()) {
        let (b, e) = f.split_once(['e', 'E']).map_or((f, 0), |(b, e)| (b, e.parse::<i64>().unwrap_or(0)));
        v.push((b.split_once('.').map_or(0, |(_, d)| d.len() as i64) - e).max(0));
    }
    v.sort();
    // with `exact`, the finest record decides; otherwise the finest hundredth of the records may be cut
    let n = v.len();
    (0..n).rev().find(|i| exact || (v.iter().filter(|x| **x >= v[*i]).count() as f64 / n as f64) >= 0.01).map(|i| v[i] as u32)
}

pub fn gen_c21(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C21");
    let tame = r.chance(5, 6);
    let max_n = if r.chance(1, 6) { 3000 } else { 120 };
    let allow_empty = r.chance(1, 6);
    let g = Gen { max_n, tame, allow_empty, tail: false };
    let first = gen_file(r, g);
    for i in 0..1 + r.us(3) {
        let mut f = first.clone();
        if i > 0 {
            let n = gen_len(r, g.max_n).max(1);
            let digits = (first.scale as f64).log10().round() as u32;
            f.data = gen_values(r, f.scheme, if f.scheme.quantised() { digits } else { 0 }, n, tame);
            // the configuration of a later compression
            f.chunk = gen_chunk(r, n);
            f.param = gen_param(r, f.scheme);
        }
        c.files.push(f);
    }
    let n_ops = 1 + r.us(4);
    c.ops.push(Op::Compress { file: 0, from: 0, len: 0 });
    for _ in 0..n_ops {
        let f = r.pick(&c.files).clone();
        let op = match r.below(8) {
            0 => Op::Compress { file: r.us(c.files.len()), from: 0, len: 0 },
            1 if r.chance(1, 3) => {
                if c.texts.is_empty() {
                    let t = table(r);
                    c.texts.push(t);
                }
                Op::Rewind(r.us(2))
            }
            1 => Op::Prepare,
            _ => match gen_query(r, &f) {
                Op::Filter { pred, bm, chunk } => Op::Filter { pred: safe_pred(pred, f.scheme), bm, chunk },
                Op::FiltMat { pred, bm, chunk } => Op::FiltMat { pred: safe_pred(pred, f.scheme), bm, chunk },
                Op::Min { bm, chunk } => Op::Mat { bm, chunk },
                o => o,
            },
        };
        c.ops.push(op);
    }
    c.put("mem", r.below(1 << 8) as i64 & r.below(1 << 8) as i64);
    c.put("names", r.below(4) as i64);
    c.put("relative", r.chance(1, 2) as i64);
    if r.chance(1, 10) {
        c.put("earlier", *r.pick(&[1i64, 3, 8, 9, 10, 11, 16, 32, 99, 100, 101, 128, 255, 256, 300]));
    } else if r.chance(1, 300) {
        c.put("earlier", 999 + r.below(30) as i64);
    }
    for k in ["r_mode", "w_mode"] {
        let m = r.below(3) as i64;
        c.put(k, m);
        c.put(if k == "r_mode" { "r_len" } else { "w_len" }, *r.pick(&[1i64, 3, 7, 8, 13, 64, 500, 4096]));
    }
    if r.chance(5, 6) {
        for _ in 0..1 + r.us(3) {
            let k = *r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 3, 4, 5, 5]);
            let crash = r.chance(1, 3);
            c.faults.push(FaultAt {
                stream: k + if crash { 8 } else { 0 },
                op: r.us(c.ops.len()),
                at: match r.below(3) {
                    0 => r.below(6) as u32,
                    1 => u32::MAX - r.below(6) as u32,
                    _ => r.below(1 << 20) as u32,
                },
                fault: match k {
                    1 => *r.pick(&[Fault::Eio, Fault::Nospc, Fault::Zero, Fault::Nospc]),
                    0 => *r.pick(&[Fault::Eio, Fault::Timeout, Fault::Again]),
                    _ => *r.pick(&[Fault::Eio, Fault::Nospc]),
                },
                sticky: r.chance(1, 4),
            });
        }
    }
    c
}

fn stem(c: &Case, i: usize) -> String {
    match c.get("names") {
        1 => format!("set.{i}"),
        2 => format!("in {i}"),
        3 => format!("x{i}.ebi"),
        _ => format!("in{i}"),
    }
}

/// What is known about the compressed form of one input.
enum Ebi {
    Missing,
    Broken,
    Good(Model),
}

struct World<'a> {
    c: &'a Case,
    root: PathBuf,
    bin: PathBuf,
    benign: Vec<String>,
}

fn command(op: &Op) -> (&'static str, &'static str) {
    match op {
        Op::Compress { .. } => ("compress", "compress"),
        Op::Prepare => ("create-filter-config", ""),
        Op::Rewind(_) => ("create-default-compressor-config", ""),
        Op::Filter { .. } => ("filter", "filter"),
        Op::FiltMat { .. } => ("filter-materialize", "filter_materialize"),
        Op::Sum { .. } => ("sum", "sum"),
        Op::Max { .. } => ("max", "max"),
        _ => ("materialize", "materialize"),
    }
}

fn config(c: &Case, op: &Op) -> Value {
    let mask = |bm: &Mask| mask_bm(bm).map(|b| b.iter().collect::<Vec<u32>>());
    match op {
        Op::Compress { file, .. } => {
            let f = &c.files[*file % c.files.len()];
            json!({ "chunk_option": f.chunk.opt(), "compressor_config": f.config() })
        }
        Op::Filter { pred, bm, chunk } | Op::FiltMat { pred, bm, chunk } => {
            json!({ "predicate": pred.to(), "chunk_id": chunk, "bitmask": mask(bm) })
        }
        Op::Sum { bm, chunk } | Op::Max { bm, chunk } | Op::Mat { bm, chunk } => {
            json!({ "chunk_id": chunk, "bitmask": mask(bm) })
        }
        _ => Value::Null,
    }
}

impl World<'_> {
    fn in_memory(&self, i: usize) -> bool {
        self.c.get("mem") >> (i % 8) & 1 != 0
    }
    /// The data directory as the program gets to know it; the same text in every run.
    fn place(&self) -> &'static Path {
        Path::new(if self.c.get("relative") != 0 { "data" } else { "/proc/self/cwd/data" })
    }
    /// The input of command i on file k, as the program names it.
    fn input(&self, op: &Op, k: usize) -> String {
        let ext = if matches!(op, Op::Compress { .. } | Op::Prepare) { "bin" } else { "ebi" };
        format!("{}/binary/{}.{ext}", self.place().display(), stem(self.c, k))
    }
    fn exec(&self, root: &Path, i: usize, plan: &str) -> Res<Ran> {
        let op = &self.c.ops[i];
        let ext = if matches!(op, Op::Compress { .. } | Op::Prepare) { "bin" } else { "ebi" };
        if let Op::Rewind(exact) = op {
            let p = self.place().display();
            let mut a: Vec<String> = ["--input", &format!("{p}/table.csv"), command(op).0, "--output-dir", &format!("{p}/cc")].map(String::from).to_vec();
            if *exact != 0 {
                a.push("--exact-precision".into());
            }
            return run(&self.bin, &a, root, self.place(), plan);
        }
        let mut args = vec!["--input".to_string(), format!("{}/binary/*.{ext}", self.place().display()), command(op).0.into()];
        if !matches!(op, Op::Prepare) {
            std::fs::write(root.join("data/config.json"), serde_json::to_vec(&config(self.c, op)).unwrap_or_default()).map_err(io)?;
            args.push("--config".into());
            args.push(format!("{}/config.json", self.place().display()));
            args.push("--in-memory".into());
            args.push(self.in_memory(i).to_string());
        }
        run(&self.bin, &args, root, self.place(), plan)
    }
}

/// Did the process say that this input failed?
fn said(ran: &Ran, input: &str) -> bool {
    !ran.ok || ran.err.contains(input)
}

pub fn num(v: &Value, path: &[&str]) -> Option<f64> {
    let mut v = v;
    for p in path {
        v = v.get(p)?;
    }
    v.as_f64()
}

/// The five predicates made from the records of a file, by file name; None when the records allow none.
fn percentiles(f: &FileSpec) -> Option<Vec<(&'static str, Predicate)>> {
    let mut v = f.values();
    if v.is_empty() || v.iter().any(|x| x.is_nan()) {
        return None;
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len();
    let (a, b, c) = (v[n * 10 / 100], v[n / 2], v[n * 90 / 100]);
    if ![a, b, c].iter().all(|x| x.is_finite()) {
        return None;
    }
    let gt = |x: f64| Predicate::Range(Range::new(RangeValue::Exclusive(x), RangeValue::None));
    Some(vec![
        ("greater_10th_percentile", gt(a)),
        ("greater_50th_percentile", gt(b)),
        ("greater_90th_percentile", gt(c)),
        ("eq", Predicate::Eq(b)),
        ("ne", Predicate::Ne(b)),
    ])
}
/// Equal up to the last digits of the numbers.
pub fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_f64(), y.as_f64()) {
            (Some(x), Some(y)) => x == y || (x - y).abs() <= 1e-15 * x.abs().max(y.abs()),
            _ => false,
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| alike(v, w))),
        _ => a == b,
    }
}

/// Check what one command made of one file it did not report. `before`/`after`: the data directory.
fn judge_file(w: &World, i: usize, k: usize, input: &str, m: Option<&Model>, before: &Tree, after: &Tree) -> Result<(), String> {
    let op = &w.c.ops[i];
    let s = stem(w.c, k);
    let mem = w.in_memory(i);
    let show = |b: Option<&Vec<u8>>| b.map_or("no file".to_string(), |v| format!("{} bytes", v.len()));
    if matches!(op, Op::Prepare) {
        let Some(want) = percentiles(&w.c.files[k]) else { return Err("predicates were made of records that allow none".into()) };
        for (name, p) in want {
            let f = after.get(&format!("data/filter_config/{s}/{name}.json"));
            let v: Value = f.and_then(|b| serde_json::from_slice(b).ok()).ok_or(format!("predicate {name} is {}, not JSON", show(f)))?;
            let want = json!({ "predicate": p, "chunk_id": null, "bitmask": null });
            if !alike(&v, &want) {
                return Err(format!("predicate {name} is {v} instead of {want}"));
            }
        }
        return Ok(());
    }
    // the result file, under the lowest number that was free
    let dir = format!("data/result/{s}/{}", command(op).1);
    let mut nr = 0;
    while before.contains_key(&format!("{dir}/{nr:03}.json")) {
        nr += 1;
    }
    let name = format!("{dir}/{nr:03}.json");
    let bytes = after.get(&name).ok_or(format!("there is no result {name}"))?;
    let v: Value = serde_json::from_slice(bytes).map_err(|e| format!("result {name} ({} bytes) is not JSON: {e}", bytes.len()))?;
    let Some(m) = m else { return Err("a result was given for a file that is not complete".into()) };
    let out = format!("data/binary/{s}.{}", if matches!(op, Op::FiltMat { .. }) { "filter_materialized" } else { "materialized" });
    if !mem && matches!(op, Op::FiltMat { .. } | Op::Mat { .. }) {
        let b = after.get(&out).ok_or(format!("there is no {out}"))?;
        judge(m, op, &Ans::Bytes(b.clone()), None).map_err(|e| format!("{out}: {e}"))?;
    }
    judge_result(&v, op, m, mem, input, &config(w.c, op)).map_err(|e| format!("{name}: {e}"))
}

/// Is this the right record of one command on one file?
fn judge_result(v: &Value, op: &Op, m: &Model, mem: bool, input: &str, given: &Value) -> Result<(), String> {
    let text = v.get("result_string").and_then(Value::as_str).ok_or("no result_string")?;
    if v.get("in_memory") != Some(&json!(mem)) {
        return Err(format!("in_memory is {:?}", v.get("in_memory")));
    }
    if v.get("input_filename").and_then(Value::as_str) != Some(input) {
        return Err(format!("input_filename is {:?}", v.get("input_filename")));
    }
    let want_config = json!({ "chunk_option": m.spec.chunk.opt(), "compressor_config": m.spec.config() });
    match v.get("compression_config") {
        Some(c) if alike(c, &want_config) => (),
        c => return Err(format!("compression_config is {c:?} instead of {want_config}")),
    }
    match op {
        Op::Compress { .. } => {
            if text != format!("number_of_records: {}", m.n()) {
                return Err(format!("result {text:?} for {} records", m.n()));
            }
            let size = m.bytes.len() as f64;
            let chunks = (m.phys.last().copied().unwrap_or(0) - m.phys[0].min(HEADER_SIZE as u64)) as f64;
            let raw = m.n() as f64 * 8.0;
            for (f, want) in [("uncompressed_size", raw), ("compressed_size", size), ("compressed_size_chunk_only", chunks), ("compression_ratio", size / raw), ("compression_ratio_chunk_only", chunks / raw)] {
                let got = num(v, &["command_specific", f]);
                let ok = if want.is_finite() { got.is_some_and(|g| (g - want).abs() <= 1e-9 * want.abs()) } else { true };
                if !ok {
                    return Err(format!("{f} is {got:?} instead of {want}"));
                }
            }
            return Ok(());
        }
        Op::Filter { pred, bm, chunk } => {
            let want: RoaringBitmap = m.selected(bm, *chunk).into_iter().filter(|i| pred.model(m.data[*i])).map(|i| i as u32).collect();
            if text != format!("{want:?}") {
                return Err(format!("filter gives {text} instead of {want:?}"));
            }
        }
        Op::Sum { .. } | Op::Max { .. } => {
            let x: f64 = text.parse().map_err(|_| format!("result {text:?} is no number"))?;
            judge(m, op, &Ans::Num(x), None)?;
        }
        _ => {
            let n = match op {
                Op::FiltMat { pred, bm, chunk } => m.selected(bm, *chunk).into_iter().filter(|i| pred.model(m.data[*i])).count(),
                Op::Mat { bm, chunk } => m.selected(bm, *chunk).len(),
                _ => 0,
            };
            if mem && text != format!("bytes: {}", n * 8) {
                return Err(format!("result {text:?} instead of {} bytes", n * 8));
            }
            // on disk the result is the metadata of the output file, as std prints it
            if let (false, Some(at)) = (mem, text.find(" len: ")) {
                let len: String = text[at + 6..].chars().take_while(char::is_ascii_digit).collect();
                if len != (n * 8).to_string() {
                    return Err(format!("an output of {len} bytes instead of {}", n * 8));
                }
            }
        }
    }
    if !alike(v.get("command_specific").unwrap_or(&Value::Null), given) {
        return Err("the configuration is not the one given".into());
    }
    Ok(())
}

fn judge_table(want: Option<u32>, after: &Tree) -> Result<(), String> {
    let digits = want.ok_or("configurations were made of a table without numbers")?;
    for scheme in SCHEMES {
        let name = format!("data/cc/{}.json", config_name(scheme));
        let b = after.get(&name).ok_or(format!("there is no {name}"))?;
        let v: Value = serde_json::from_slice(b).map_err(|e| format!("{name} ({} bytes) is not JSON: {e}", b.len()))?;
        let f = FileSpec { scheme, scale: pow10(digits), param: None, chunk: Chunk::Full, data: vec![], tail: 0 };
        let conf = json!(f.config());
        if v.get("compressor_config").is_none_or(|c| !alike(c, &conf)) {
            return Err(format!("{name} is {v} instead of {conf}"));
        }
    }
    Ok(())
}

/// One process has run command i on `root`: is everything as promised?
fn judge_run(w: &World, root: &Path, i: usize, ran: &Ran, before: &Tree, ebis: &mut Vec<Ebi>, faulty: bool, sticky: bool, what: &str) -> Res<u64> {
    let op = &w.c.ops[i];
    let after = tree(root)?;
    let compress = matches!(op, Op::Compress { .. });
    // inputs and earlier results stay as they were
    for (p, b) in before {
        let mine = p == "data/config.json" || !p.starts_with("data/");
        let output = p.starts_with("data/binary/")
            && ((compress && p.ends_with(".ebi")) || (matches!(op, Op::FiltMat { .. }) && p.ends_with(".filter_materialized")) || (matches!(op, Op::Mat { .. }) && p.ends_with(".materialized")))
            || (matches!(op, Op::Prepare) && p.starts_with("data/filter_config/"))
            || (matches!(op, Op::Rewind(_)) && p.starts_with("data/cc/"));
        if !mine && !output && after.get(p) != Some(b) {
            return viol("damage", format!("{what}: {p} ({} bytes) was changed to {}", b.len(), after.get(p).map_or("nothing".into(), |v| format!("{} bytes", v.len()))));
        }
    }
    let mut lost = 0;
    if let Op::Rewind(exact) = op {
        let told = said(ran, "table.csv");
        if ran.killed {
            return Ok(0);
        }
        let want = w.c.texts.first().and_then(|t| decimals(t, *exact != 0));
        if told {
            return if faulty || want.is_none() { Ok(1) } else { viol("false-report", format!("{what}: the table was reported as failed: {}", ran.err.chars().take(300).collect::<String>())) };
        }
        return judge_table(want, &after).map(|()| 0).or_viol("wrong-result", what);
    }
    for k in 0..w.c.files.len() {
        let input = w.input(op, k);
        let told = said(ran, &input);
        if compress {
            let Op::Compress { file, .. } = op else { unreachable!() };
            let conf = &w.c.files[*file % w.c.files.len()];
            let path = format!("data/binary/{}", Path::new(&format!("{}.bin", stem(w.c, k))).with_extension("ebi").display());
            if after.get(&path) != before.get(&path) || !told {
                let mut spec = w.c.files[k].clone();
                spec.chunk = conf.chunk;
                spec.param = conf.param;
                ebis[k] = match after.get(&path) {
                    None => Ebi::Missing,
                    Some(b) => {
                        let b = Arc::new(b.clone());
                        match plain_decoder(&b) {
                            Err(_) => Ebi::Broken,
                            Ok(_) => match Model::from_bytes(&spec, b) {
                                Ok(m) => Ebi::Good(m),
                                Err(e) => return viol("torn-file", format!("{what}: {path} opens, yet {}", e.msg)),
                            },
                        }
                    }
                };
            }
        }
        if ran.killed {
            continue;
        }
        let m = match &ebis[k] {
            Ebi::Good(m) => Some(m),
            Ebi::Missing if !compress && !matches!(op, Op::Prepare) => continue,
            _ => None,
        };
        if told {
            lost += 1;
            let excuse = faulty
                || (m.is_none() && !compress && !matches!(op, Op::Prepare))
                || (matches!(op, Op::Prepare) && w.c.files.iter().any(|f| percentiles(f).is_none()))
                || chunk_of(op).is_some_and(|(_, ch)| ch.is_some_and(|ch| m.is_none_or(|m| ch >= m.n_chunks())));
            if !excuse {
                return viol("false-report", format!("{what}: {input} was reported as failed: {}", ran.err.chars().take(300).collect::<String>()));
            }
        } else if let Err(e) = judge_file(w, i, k, &input, m, before, &after) {
            return viol("wrong-result", format!("{what} {input}, not reported: {e}"));
        }
    }
    let failures = ran.failed + ran.zero;
    if faulty && !ran.killed && !sticky && !matches!(op, Op::Rewind(_)) && ran.ok && lost > failures + broken(ebis, op) + odd(w, op) {
        return viol("spread", format!("{what}: {failures} failures lost {lost} files"));
    }
    Ok(lost)
}
fn broken(ebis: &[Ebi], op: &Op) -> u64 {
    if matches!(op, Op::Compress { .. } | Op::Prepare) {
        return 0;
    }
    ebis.iter().filter(|e| !matches!(e, Ebi::Good(m) if chunk_of(op).is_none_or(|(_, c)| c.is_none_or(|c| c < m.n_chunks())))).count() as u64
}
fn odd(w: &World, op: &Op) -> u64 {
    if matches!(op, Op::Prepare) { w.c.files.iter().filter(|f| percentiles(f).is_none()).count() as u64 } else { 0 }
}

pub fn run_c21(c: &Case, st: &mut Stats) -> Res {
    if c.files.is_empty() || c.ops.is_empty() {
        return Ok(());
    }
    let d = Dir::new("exp")?;
    let bin = bindir().parent().map(|p| p.join("exp/release/experimenter")).unwrap_or_default();
    let mut benign: Vec<String> = vec![];
    for (k, m, l) in [('r', "r_mode", "r_len"), ('w', "w_mode", "w_len")] {
        match c.get(m) {
            1 => benign.push(format!("{k}*=s{}", c.get(l).max(1))),
            2 => benign.push(format!("{k}*=f{}", c.get(l).max(1))),
            _ => (),
        }
    }
    let w = World { c, root: d.0.clone(), bin, benign };
    std::fs::create_dir_all(w.root.join("data/binary")).map_err(io)?;
    for (k, f) in c.files.iter().enumerate() {
        std::fs::write(w.root.join(format!("data/binary/{}.bin", stem(c, k))), f.input_bytes()).map_err(io)?;
    }
    if let Some(t) = c.texts.first() {
        std::fs::write(w.root.join("data/table.csv"), t).map_err(io)?;
    }
    if c.get("earlier") > 0 {
        // results of earlier campaigns
        let mut t = Tree::new();
        for dir in c.ops.iter().map(|o| command(o).1).filter(|d| !d.is_empty()) {
            for nr in 0..c.get("earlier").min(2000) {
                t.insert(format!("data/result/{}/{dir}/{nr:03}.json", stem(c, 0)), format!("earlier {nr}").into_bytes());
            }
        }
        plant(&w.root, &t)?;
    }
    let mut ebis: Vec<Ebi> = c.files.iter().map(|_| Ebi::Missing).collect();
    let plain = w.benign.join(";");
    for i in 0..c.ops.len() {
        if matches!(c.ops[i], Op::Rewind(_)) && c.texts.is_empty() {
            continue;
        }
        let name = command(&c.ops[i]).0;
        let before = tree(&w.root)?;
        let mut plan: Vec<String> = vec![];
        let mut sticky = false;
        if c.faults.iter().any(|f| f.op == i) {
            // how many calls of each kind will there be?
            let dry = Dir::new("exp-dry")?;
            plant(&dry.0, &before)?;
            let ran = w.exec(&dry.0, i, &plain)?;
            for f in c.faults.iter().filter(|f| f.op == i) {
                sticky |= f.sticky;
                plan.extend(aim(f, &ran));
            }
        }
        let faulty = !plan.is_empty();
        let what = format!("command {i} ({name}{}), faults {plan:?}:", if w.in_memory(i) { " in memory" } else { "" });
        plan.extend(w.benign.iter().cloned());
        let ran = w.exec(&w.root, i, &plan.join(";"))?;
        ran.account(st);
        st.fired[3] += ran.failed;
        st.add("commands", 1);
        st.add("crashes", ran.killed as u64);
        let lost = judge_run(&w, &w.root, i, &ran, &before, &mut ebis, faulty, sticky, &what)?;
        st.add("files_lost_and_reported", lost);
        if faulty && (lost > 0 || ran.killed) {
            // once the faults are over, the same command does its work on what is there
            let before = tree(&w.root)?;
            let ran = w.exec(&w.root, i, &plain)?;
            ran.account(st);
            st.add("repeats", 1);
            judge_run(&w, &w.root, i, &ran, &before, &mut ebis, false, false, &format!("{what} then repeated without faults:"))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- whole campaigns (C22)

fn config_name(s: Scheme) -> &'static str {
    match s {
        Scheme::Uncompressed => "uncompressed",
        Scheme::Rle => "rle",
        Scheme::Gorilla => "gorilla",
        Scheme::Buff => "buff",
        Scheme::Chimp => "chimp",
        Scheme::Chimp128 => "chimp128",
        Scheme::ElfOnChimp => "elf_on_chimp",
        Scheme::Elf => "elf",
        Scheme::Sprintz => "delta_sprintz",
        Scheme::Zstd => "zstd",
        Scheme::Gzip => "gzip",
        Scheme::Snappy => "snappy",
    }
}

/// files: `nd` data sets, then `nc` compressor configurations, then as many for the second step. ops: the filters.
pub fn gen_c22(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C22");
    let digits = gen_digits(r, Scheme::Buff, 7);
    let max_n = if r.chance(1, 8) { 1500 } else { 80 };
    let (nd, nc) = (1 + r.us(2), 1 + r.us(3));
    for _ in 0..nd {
        let n = gen_len(r, max_n).max(1);
        let scheme = if r.chance(1, 2) { Scheme::Buff } else { Scheme::Sprintz };
        let data = gen_values(r, scheme, digits, n, true);
        c.files.push(FileSpec { scheme: Scheme::Uncompressed, scale: pow10(digits), param: None, chunk: Chunk::Full, data, tail: 0 });
    }
    let mut left = SCHEMES.to_vec();
    let chosen: Vec<Scheme> = (0..nc).map(|_| left.remove(r.us(left.len()))).collect();
    for _ in 0..2 {
        for s in &chosen {
            c.files.push(FileSpec { scheme: *s, scale: pow10(digits), param: gen_param(r, *s), chunk: gen_chunk(r, max_n), data: vec![], tail: 0 });
        }
    }
    for _ in 0..r.us(3) {
        let mut f = c.files[r.us(nd)].clone();
        f.scheme = Scheme::Buff;
        let pred = safe_pred(gen_pred(r, &f), f.scheme);
        let bm = gen_mask(r, f.data.len(), &[]);
        c.ops.push(Op::Filter { pred, bm, chunk: None });
    }
    let mut nc = nc;
    if r.chance(1, 24) {
        // the program makes the configurations itself, from tables of the same numbers
        nc = SCHEMES.len();
        c.files.truncate(nd);
        c.ops.clear();
        for s in SCHEMES.iter().chain(&SCHEMES) {
            c.files.push(FileSpec { scheme: *s, scale: pow10(digits), param: None, chunk: Chunk::Rec(1 << 24), data: vec![], tail: 0 });
        }
        c.put("create", 1 + r.below(2) as i64);
    }
    c.put("nd", nd as i64);
    c.put("nc", nc as i64);
    c.put("n", 1 + r.below(2) as i64);
    c.put("mem", r.chance(1, 3) as i64);
    c.put("names", r.below(3) as i64);
    c.put("relative", r.chance(1, 2) as i64);
    if r.chance(1, 10) {
        c.put("earlier", *r.pick(&[1i64, 3, 8, 9, 10, 11, 16, 32, 99, 100, 101, 128, 255, 256, 300]));
    } else if r.chance(1, 300) {
        c.put("earlier", 999 + r.below(30) as i64);
    }
    c.put("patch", r.chance(1, 2) as i64);
    c.put("pc", r.below(1 << nc) as i64);
    c.put("pd", r.below(1 << nd) as i64);
    for k in ["r_mode", "w_mode"] {
        let m = r.below(3) as i64;
        c.put(k, m);
        c.put(if k == "r_mode" { "r_len" } else { "w_len" }, *r.pick(&[3i64, 7, 8, 13, 64, 500, 4096]));
    }
    if r.chance(5, 6) {
        for _ in 0..1 + r.us(2) {
            let k = *r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 3, 4, 5, 5, 6, 6]);
            let crash = r.chance(1, 3);
            c.faults.push(FaultAt {
                stream: k + if crash { 8 } else { 0 },
                op: r.us(2),
                at: match r.below(4) {
                    // while the configurations are being made
                    2 | 3 if c.get("create") != 0 => r.below(if k == 1 { 400 } else { 60 }) as u32,
                    0 => u32::MAX - r.below(8) as u32,
                    _ => r.below(1 << 20) as u32,
                },
                fault: match k {
                    1 => *r.pick(&[Fault::Eio, Fault::Nospc, Fault::Zero, Fault::Nospc]),
                    0 => *r.pick(&[Fault::Eio, Fault::Timeout, Fault::Again]),
                    _ => *r.pick(&[Fault::Eio, Fault::Nospc]),
                },
                sticky: r.chance(1, 4),
            });
        }
    }
    c
}

struct Campaign<'a> {
    c: &'a Case,
    bin: PathBuf,
    nd: usize,
    nc: usize,
    n: usize,
    mem: bool,
}

impl Campaign<'_> {
    fn place(&self) -> &'static str {
        if self.c.get("relative") != 0 { "data" } else { "/proc/self/cwd/data" }
    }
    /// 1: configurations are made by the command itself; 2: with exact precision.
    fn create(&self) -> i64 {
        self.c.get("create")
    }
    /// The filters of a data set.
    fn filters(&self, d: usize) -> Vec<(String, Op)> {
        if self.create() == 0 {
            return self.c.ops.iter().enumerate().map(|(i, op)| (format!("f{i}"), op.clone())).collect();
        }
        // as they come out of their configuration files
        let read = |x: f64| serde_json::to_string(&x).ok().and_then(|s| serde_json::from_str::<f64>(&s).ok()).unwrap_or(x).to_bits();
        let all = percentiles(&self.c.files[d]).unwrap_or_default();
        all.into_iter()
            .map(|(name, p)| {
                let pred = match p {
                    Predicate::Eq(x) => Pred::Eq(read(x)),
                    Predicate::Ne(x) => Pred::Ne(read(x)),
                    Predicate::Range(r) => Pred::Range(
                        match r.start() {
                            RangeValue::Exclusive(x) => Bound::Exc(read(x)),
                            _ => Bound::No,
                        },
                        Bound::No,
                    ),
                };
                (name.to_string(), Op::Filter { pred, bm: None, chunk: None })
            })
            .collect()
    }
    fn set(&self, d: usize) -> String {
        match self.c.get("names") {
            1 => "set".to_string() + &"0".repeat(d),
            2 => format!("s.{d}"),
            _ => format!("set{d}"),
        }
    }
    fn patched_compressors(&self) -> Vec<usize> {
        (0..self.nc).filter(|k| self.c.get("pc") >> k & 1 != 0).collect()
    }
    fn patched_sets(&self) -> Vec<usize> {
        (0..self.nd).filter(|d| self.c.get("pd") >> d & 1 != 0).collect()
    }
    /// The configuration of compressor k in a step.
    fn conf(&self, step: usize, k: usize) -> &FileSpec {
        &self.c.files[self.nd + step * self.nc + k]
    }
    fn spec(&self, step: usize, d: usize, k: usize) -> FileSpec {
        let mut s = self.conf(step, k).clone();
        s.data = self.c.files[d].data.clone();
        s
    }
    fn dirs(&self, root: &Path) -> Res {
        for p in ["save", "fc", "cc"].map(String::from).into_iter().chain((0..self.nd).map(|d| format!("fc/{}", self.set(d)))) {
            if self.create() == 0 || !p.contains('/') {
                std::fs::create_dir_all(root.join("data").join(p)).map_err(io)?;
            }
        }
        Ok(())
    }
    fn setup(&self, root: &Path, step: usize) -> Res {
        let mut t = Tree::new();
        for d in 0..self.nd {
            if step == 0 {
                t.insert(format!("data/binary/{}.bin", self.set(d)), self.c.files[d].input_bytes());
                if self.create() != 0 {
                    let digits = (self.c.files[d].scale as f64).log10().round() as usize;
                    let rows: Vec<String> = self.c.files[d].values().chunks(7).map(|row| row.iter().map(|x| format!("{x:.digits$}")).collect::<Vec<_>>().join(",")).collect();
                    t.insert(format!("data/{}.csv", self.set(d)), (rows.join("\n") + "\n").into_bytes());
                    continue;
                }
                for (i, op) in self.c.ops.iter().enumerate() {
                    t.insert(format!("data/fc/{}/f{i}.json", self.set(d)), serde_json::to_vec(&config(self.c, op)).unwrap_or_default());
                }
                std::fs::create_dir_all(root.join(format!("data/fc/{}", self.set(d)))).map_err(io)?;
            }
            if self.create() != 0 {
                continue;
            }
            for k in 0..self.nc {
                let f = self.conf(step, k);
                let v = json!({ "chunk_option": f.chunk.opt(), "compressor_config": f.config() });
                t.insert(format!("data/cc/{}/{}.json", self.set(d), config_name(f.scheme)), serde_json::to_vec(&v).unwrap_or_default());
            }
        }
        if step == 0 {
            for (nr, dir) in (0..self.c.get("earlier").min(2000)).flat_map(|nr| [(nr, "all"), (nr, "all_patch")]) {
                t.insert(format!("data/result/{dir}/{nr:03}.json"), format!("earlier {nr}").into_bytes());
            }
        }
        self.dirs(root)?;
        plant(root, &t)
    }
    fn exec(&self, root: &Path, step: usize, old: &str, plan: &str) -> Res<Ran> {
        let p = self.place();
        let mut a: Vec<String> = vec![];
        if step == 1 {
            a.extend(["--input".into(), old.replacen("data", p, 1), "all-patch".into()]);
        } else {
            a.push("all".into());
        }
        for (o, v) in [("--compressor-config-dir", "cc"), ("--filter-config-dir", "fc"), ("--binary-dir", "binary"), ("--save-dir", "save")] {
            a.extend([o.to_string(), format!("{p}/{v}")]);
        }
        a.extend(["--n".into(), self.n.to_string()]);
        if self.mem {
            a.push("--in-memory".into());
        }
        if self.create() != 0 {
            a.push("--create-config".into());
        }
        if self.create() == 2 {
            a.push("--exact-precision".into());
        }
        if step == 1 {
            for k in self.patched_compressors() {
                a.extend(["--pc".into(), config_name(self.conf(1, k).scheme).into()]);
            }
            for d in self.patched_sets() {
                a.extend(["--pd".into(), self.set(d)]);
            }
        }
        run(&self.bin, &a, root, Path::new(p), plan)
    }
    /// Judge the result file of a successful step; returns its name and content. Up to `skipped` data sets were reported as
    /// left out; the last number says how many were.
    fn judge(&self, step: usize, old: Option<&Value>, before: &Tree, after: &Tree, skipped: usize) -> Result<(String, Value, usize), String> {
        let mut out = 0;
        let dir = ["data/result/all", "data/result/all_patch"][step];
        let mut nr = 0;
        while before.contains_key(&format!("{dir}/{nr:03}.json")) {
            nr += 1;
        }
        let name = format!("{dir}/{nr:03}.json");
        let bytes = after.get(&name).ok_or(format!("there is no result {name}"))?;
        let v: Value = serde_json::from_slice(bytes).map_err(|e| format!("result {name} ({} bytes) is not JSON: {e}", bytes.len()))?;
        for d in 0..self.nd {
            let skey = self.set(d);
            if out < skipped && v.get(&skey).zip(old.and_then(|o| o.get(&skey))).map_or(v.get(&skey).is_none(), |(a, b)| alike(a, b)) {
                out += 1;
                continue;
            }
            let set = v.get(&skey).and_then(Value::as_object).ok_or(format!("{name} knows nothing of set{d}"))?;
            let all = step == 0 || self.patched_sets().contains(&d);
            let input = |e: &str| format!("{}/binary/{skey}.{e}", self.place());
            if set.len() != self.nc {
                return Err(format!("{name} has {} compressors for set{d} instead of {}", set.len(), self.nc));
            }
            for k in 0..self.nc {
                let conf = self.conf(step, k);
                let key = format!("{:?}", conf.config().compression_scheme());
                let r = set.get(&key).ok_or(format!("{name} knows nothing of {key} on set{d}"))?;
                if !all && !self.patched_compressors().contains(&k) {
                    // not asked for again: carried over
                    let was = old.and_then(|o| o.get(&skey)).and_then(|s| s.get(&key));
                    if was.is_none_or(|w| !alike(w, r)) {
                        return Err(format!("{name}: the results of {key} on set{d} were not to change"));
                    }
                    continue;
                }
                let m = Model::new(&self.spec(step, d, k)).map_err(|e| e.msg)?;
                let list = |v: Option<&Value>, what: &str, op: &Op, ext: &str, given: Value| -> Result<(), String> {
                    let v = v.and_then(Value::as_array).ok_or(format!("{name}: no {what} of {key} on set{d}"))?;
                    if v.len() != self.n {
                        return Err(format!("{name}: {} results of {what} of {key} on set{d} instead of {}", v.len(), self.n));
                    }
                    for x in v {
                        judge_result(x, op, &m, self.mem, &input(ext), &given).map_err(|e| format!("{name}: {what} of {key} on set{d}: {e}"))?;
                    }
                    Ok(())
                };
                let none = json!({ "chunk_id": null, "bitmask": null });
                list(r.get("compress"), "compress", &Op::Compress { file: 0, from: 0, len: 0 }, "bin", Value::Null)?;
                list(r.get("materialize"), "materialize", &Op::Mat { bm: None, chunk: None }, "ebi", none.clone())?;
                list(r.get("max"), "max", &Op::Max { bm: None, chunk: None }, "ebi", none.clone())?;
                list(r.get("sum"), "sum", &Op::Sum { bm: None, chunk: None }, "ebi", none.clone())?;
                let filters = r.get("filters").and_then(Value::as_object).ok_or(format!("{name}: no filters of {key}"))?;
                let wanted = self.filters(d);
                if filters.len() != wanted.len() {
                    return Err(format!("{name}: {} filters of {key} on set{d} instead of {}", filters.len(), wanted.len()));
                }
                for (fname, op) in &wanted {
                    let Op::Filter { pred, bm, chunk } = op else { continue };
                    let f = filters.get(fname);
                    list(f.and_then(|f| f.get("filter")), "filter", op, "ebi", config(self.c, op))?;
                    let fm = Op::FiltMat { pred: *pred, bm: bm.clone(), chunk: *chunk };
                    list(f.and_then(|f| f.get("filter_materialize")), "filter_materialize", &fm, "ebi", config(self.c, op))?;
                }
            }
        }
        Ok((name, v, out))
    }
    /// What may never happen, whatever the process met.
    fn intact(&self, step: usize, before: &Tree, after: &Tree) -> Result<(), String> {
        for (p, b) in before {
            if self.create() != 0 && (p.starts_with("data/cc/") || p.starts_with("data/fc/")) {
                continue;
            }
            if p.starts_with("data/") && !p.starts_with("data/save/") && (!p.starts_with("data/binary/") || p.ends_with(".bin")) && after.get(p) != Some(b) {
                return Err(format!("{p} was changed"));
            }
        }
        for d in 0..self.nd {
            let p = format!("data/binary/{}.ebi", self.set(d));
            let Some(b) = after.get(&p) else { continue };
            let Ok(got) = plain_decoder(&Arc::new(b.clone())).and_then(|_| decode_plain(&Arc::new(b.clone()))) else {
                if plain_decoder(&Arc::new(b.clone())).is_ok() {
                    return Err(format!("{p} opens, yet cannot be decoded"));
                }
                continue;
            };
            let want = self.c.files[d].values();
            if !(0..=step).flat_map(|s| (0..self.nc).map(move |k| (s, k))).any(|(s, k)| self.spec(s, d, k).check_values(&got, &want, None).is_ok()) {
                return Err(format!("{p} opens, yet holds other records than set{d}.bin"));
            }
        }
        Ok(())
    }
}

pub fn run_c22(c: &Case, st: &mut Stats) -> Res {
    let (nd, nc) = (c.get("nd").max(0) as usize, c.get("nc").max(0) as usize);
    if nd == 0 || nc == 0 || c.files.len() != nd + 2 * nc || c.files[..nd].iter().any(|f| f.data.is_empty()) {
        return Ok(());
    }
    let d = Dir::new("exp")?;
    let w = Campaign {
        c,
        bin: bindir().parent().map(|p| p.join("exp/release/experimenter")).unwrap_or_default(),
        nd,
        nc,
        n: c.get("n").clamp(1, 3) as usize,
        mem: c.get("mem") != 0,
    };
    let mut benign: Vec<String> = vec![];
    for (k, m, l) in [('r', "r_mode", "r_len"), ('w', "w_mode", "w_len")] {
        match c.get(m) {
            1 => benign.push(format!("{k}*=s{}", c.get(l).max(1))),
            2 => benign.push(format!("{k}*=f{}", c.get(l).max(1))),
            _ => (),
        }
    }
    let plain = benign.join(";");
    let mut old: Option<(String, Value)> = None;
    for step in 0..1 + (c.get("patch") != 0) as usize {
        w.setup(&d.0, step)?;
        let src = old.as_ref().map(|o| o.0.clone()).unwrap_or_default();
        let mut before = tree(&d.0)?;
        let mut plan: Vec<String> = vec![];
        if c.faults.iter().any(|f| f.op == step) {
            let dry = Dir::new("exp-dry")?;
            plant(&dry.0, &before)?;
            w.dirs(&dry.0)?;
            let ran = w.exec(&dry.0, step, &src, &plain)?;
            for f in c.faults.iter().filter(|f| f.op == step) {
                plan.extend(aim(f, &ran));
            }
        }
        let what = format!("{}{}, faults {plan:?}", ["all", "all-patch"][step], if w.mem { " in memory" } else { "" });
        let faulty = !plan.is_empty();
        plan.extend(benign.iter().cloned());
        for round in 0..2 {
            let (ran, what) = if round == 0 {
                (w.exec(&d.0, step, &src, &plan.join(";"))?, what.clone())
            } else {
                st.add("repeats", 1);
                (w.exec(&d.0, step, &src, &plain)?, format!("{what}, then repeated without faults"))
            };
            ran.account(st);
            st.fired[3] += ran.failed;
            st.add("campaigns", 1);
            st.add("crashes", ran.killed as u64);
            let after = tree(&d.0)?;
            w.intact(step, &before, &after).or_viol("damage", &what)?;
            if !ran.ok {
                if round > 0 || !faulty {
                    return viol("false-report", format!("{what}: failed: {}", ran.err.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
                }
                st.add("failed_campaigns", 1);
                before = after;
                continue;
            }
            let skipped = if faulty && round == 0 && w.create() != 0 { ran.err.matches("Add to skip list").count() } else { 0 };
            let (name, v, out) = w.judge(step, old.as_ref().map(|o| &o.1), &before, &after, skipped).or_viol("wrong-result", &what)?;
            if out > 0 {
                st.add("sets_reported_and_left_out", out as u64);
                before = after;
                continue;
            }
            old = Some((name, v));
            break;
        }
    }
    Ok(())
}
