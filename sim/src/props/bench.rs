//! The benchmark commands (C24): real experimenter processes running tpch, ucr2018 and embedding over a scratch directory,
//! every file call answered by the preloaded shim; processes are killed at seeded calls and started again.
use super::exper::{alike, num};
use super::proc::*;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::Command;

const DEFAULT_CHUNK: usize = 128 * 1024 * 1024 / 8;
const ADJUSTED: &str = "Missing_value_and_variable_length_datasets_adjusted";
const H01: [&str; 4] = ["l_quantity", "l_extendedprice", "l_discount", "l_tax"];

fn cents(r: &mut Rng, n: usize, lo: i64, hi: i64) -> Vec<u64> {
    (0..n).map(|_| (r.range(lo, hi) as f64 / 100.0).to_bits()).collect()
}
fn column(data: Vec<u64>) -> FileSpec {
    FileSpec { scheme: Scheme::Uncompressed, scale: 100, param: None, chunk: Chunk::Full, data, tail: 0 }
}

/// A table of labelled vectors, all with the same number of decimals.
fn vectors(r: &mut Rng, len: usize, rows: usize, digits: usize, more: bool) -> String {
    let kinds = 1 + r.us(4) as i64;
    let mut out = String::new();
    for _ in 0..rows {
        out += &format!("{}", r.range(-1, kinds));
        for _ in 0..len {
            out.push('\t');
            if r.chance(1, 40) {
                out += "NaN";
            } else {
                let d = digits + if more && r.chance(1, 3) { 2 } else { 0 };
                out += &format!("{:.*}", d, r.range(-100_000, 100_000) as f64 / 9973.0);
            }
        }
        out.push('\n');
    }
    out
}

pub fn gen_c24(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C24");
    let cmd = r.below(3) as i64;
    c.put("cmd", cmd);
    match cmd {
        0 => {
            for _ in 0..2 {
                // (the program reads 1024 rows at a time)
                let n = match r.below(32) {
                    0 => 2040 + r.us(20),
                    1 => 2000 + r.us(1500),
                    2..=4 => 1000 + r.us(300),
                    5..=8 => 1 + r.us(400),
                    9 => 1,
                    _ => 1 + r.us(120),
                };
                for (lo, hi) in [(100, 5000), (90_000, 10_000_000), (0, 10), (0, 8)] {
                    // returned goods and corrections
                    let (lo, hi) = if r.chance(1, 8) { (-hi, hi * 2) } else { (lo, hi) };
                    c.files.push(column(cents(r, n, lo, hi)));
                }
            }
            let g = *r.pick(&[1i64 << 20, 100, 33, 7]);
            c.put("group", g);
            let d = r.below(4) as i64;
            c.put("dict", d & 1);
            c.put("snappy", d >> 1);
            let f = r.below(4) as i64;
            c.put("flags", f);
        }
        1 => {
            for _ in 0..1 + r.us(3) {
                let (len, digits) = (1 + r.us(12), if r.chance(1, 4) { 6 + r.us(7) } else { r.us(6) });
                let rows = 2 + r.us(12);
                c.texts.push(vectors(r, len, rows, digits, false));
                let (rows, more) = (2 + r.us(6), r.chance(1, 3));
                c.texts.push(vectors(r, len, rows, digits, more));
            }
            c.put("adjusted", r.chance(1, 3) as i64);
        }
        _ => {
            for _ in 0..1 + r.us(3) {
                let digits = gen_digits(r, Scheme::Buff, 6);
                let n = 1 + r.us(150);
                let mut f = column(gen_values(r, Scheme::Buff, digits, n, true));
                f.scale = pow10(digits);
                // no scale can hold these precisions
                f.param = Some(if r.chance(1, 5) { *r.pick(&[13i64, 16, 19, 20, 25]) } else { digits as i64 });
                if f.param == Some(digits as i64) {
                    f.data = f.values().iter().map(|x| quantise(x.clamp(-1e6, 1e6), f.scale).to_bits()).collect();
                }
                c.files.push(f);
            }
        }
    }
    for k in ["r_mode", "w_mode"] {
        let m = r.below(3) as i64;
        c.put(k, m);
        c.put(if k == "r_mode" { "r_len" } else { "w_len" }, *r.pick(&[7i64, 8, 13, 64, 500, 4096]));
    }
    let e = r.below(3) as i64;
    c.put("earlier", e);
    c.put("relative", r.chance(1, 2) as i64);
    if r.chance(3, 4) {
        for _ in 0..1 + r.us(2) {
            let k = *r.pick(&[0u8, 0, 1, 1, 2, 2, 3, 4, 5, 5, 5, 6]);
            let crash = r.chance(1, 5);
            c.faults.push(FaultAt {
                stream: k + if crash { 8 } else { 0 },
                op: 0,
                at: if r.chance(1, 3) { r.below(6) as u32 } else { r.below(1 << 20) as u32 },
                fault: match k {
                    1 => *r.pick(&[Fault::Eio, Fault::Nospc, Fault::Zero, Fault::Again]),
                    _ => *r.pick(&[Fault::Eio, Fault::Nospc, Fault::Timeout]),
                },
                sticky: r.chance(1, 4),
            });
        }
    }
    c
}

struct Set {
    name: String,
    labels: Vec<i64>,
    vectors: Vec<Vec<f64>>,
    test_labels: Vec<i64>,
    tests: Vec<Vec<f64>>,
    digits: u32,
}

/// The rows after the first, rounded to `scale`.
fn rows(t: &str, scale: u64) -> Option<(Vec<i64>, Vec<Vec<f64>>)> {
    let (mut l, mut v) = (vec![], vec![]);
    for line in t.lines().skip(1) {
        let mut w = line.trim().split('\t').map(|x| x.parse::<f64>().ok());
        l.push(w.next()?? as i64);
        v.push(w.map(|x| x.map(|x| quantise(if x.is_nan() { 0.0 } else { x }, scale))).collect::<Option<Vec<_>>>()?);
    }
    Some((l, v))
}
fn set(c: &Case, d: usize) -> Option<Set> {
    let digits = super::exper::decimals_of(&c.texts[2 * d], '\t', false)?;
    let (labels, vectors) = rows(&c.texts[2 * d], pow10(digits))?;
    let (test_labels, tests) = rows(c.texts.get(2 * d + 1)?, pow10(digits))?;
    let len = vectors.first()?.len();
    let fits = len > 0 && !tests.is_empty() && vectors.iter().chain(&tests).all(|v| v.len() == len);
    fits.then(|| Set { name: format!("Set{d}"), labels, vectors, test_labels, tests, digits })
}

struct Bench<'a> {
    c: &'a Case,
    sets: Vec<Set>,
}

fn spec(scheme: Scheme, scale: u64, v: &[f64]) -> FileSpec {
    FileSpec { scheme, scale, param: None, chunk: Chunk::Full, data: v.iter().map(|x| x.to_bits()).collect(), tail: 0 }
}

/// The sizes of a file with these records.
fn judge_sizes(v: Option<&Value>, f: &FileSpec) -> Result<(), String> {
    let v = v.ok_or("no sizes")?;
    let size = encode_plain(f)?.len() as f64;
    let raw = f.data.len() as f64 * 8.0;
    for (k, want) in [("uncompressed_size", raw), ("compressed_size", size), ("compression_ratio", size / raw)] {
        if num(v, &[k]).is_none_or(|g| (g - want).abs() > 1e-9 * want) {
            return Err(format!("{k} is {:?} instead of {want}", num(v, &[k])));
        }
    }
    let (chunks, ratio) = (num(v, &["compressed_size_chunk_only"]), num(v, &["compression_ratio_chunk_only"]));
    match (chunks, ratio) {
        (Some(c), Some(r)) if c > 0.0 && c < size && (r - c / raw).abs() <= 1e-9 * r => Ok(()),
        _ => Err(format!("the chunks have {chunks:?} of {size} bytes, ratio {ratio:?}")),
    }
}
fn judge_config(v: Option<&Value>, f: &FileSpec) -> Result<(), String> {
    let want = json!({ "chunk_option": Chunk::Rec(DEFAULT_CHUNK).opt(), "compressor_config": f.config() });
    match v {
        Some(c) if alike(c, &want) => Ok(()),
        c => Err(format!("compression_config is {c:?} instead of {want}")),
    }
}
fn parse_json(after: &Tree, name: &str) -> Result<Value, String> {
    let b = after.get(name).ok_or(format!("there is no {name}"))?;
    serde_json::from_slice(b).map_err(|e| format!("{name} ({} bytes) is not JSON: {e}", b.len()))
}

impl Bench<'_> {
    fn place(&self) -> &'static str {
        if self.c.get("relative") != 0 { "data" } else { "/proc/self/cwd/data" }
    }
    fn kind(&self) -> &'static str {
        ["tpch", "ucr2018", "embedding"][self.c.get("cmd").clamp(0, 2) as usize]
    }
    /// Columns of a query.
    fn table(&self, q: usize) -> Vec<(&'static str, Vec<f64>)> {
        let f = &self.c.files[4 * q..4 * q + if q == 0 { 4 } else { 3 }];
        let n = f.iter().map(|f| f.data.len()).min().unwrap_or(0);
        f.iter().zip(H01).map(|(f, name)| (name, f.values()[..n].to_vec())).collect()
    }
    fn setup(&self, root: &Path) -> Res<Tree> {
        let mut t = Tree::new();
        match self.kind() {
            "tpch" => {
                for (q, name) in ["h01", "h06"].iter().enumerate() {
                    let cols = self.table(q);
                    let c = self.c;
                    let mut d = format!("group {}\ndict {}\nsnappy {}\n", c.get("group").max(1), c.get("dict"), c.get("snappy"));
                    if q == 0 {
                        for (i, f) in ["l_returnflag", "l_linestatus"].iter().enumerate() {
                            if c.get("flags") >> i & 1 != 0 {
                                d += &format!("text {f} {}\n", cols[0].1.len());
                            }
                        }
                    }
                    for (name, v) in &cols {
                        let v: Vec<String> = v.iter().map(|x| format!("{:.0}", x * 100.0)).collect();
                        d += &format!("col {name} 2 {}\n", v.join(" "));
                    }
                    let (src, dst) = (root.join("table"), root.join("parquet"));
                    std::fs::write(&src, d).map_err(io)?;
                    let tool = bindir().parent().map(|p| p.join("exp/release/mkparquet")).unwrap_or_default();
                    let ok = Command::new(tool).arg(&src).arg(&dst).env_clear().status().map_err(io)?;
                    if !ok.success() {
                        return viol("harness", "mkparquet failed");
                    }
                    t.insert(format!("data/in/{name}.parquet"), std::fs::read(&dst).map_err(io)?);
                    let _ = (std::fs::remove_file(src), std::fs::remove_file(dst));
                }
                t.insert("data/in/note.txt".into(), b"other files are skipped".to_vec());
            }
            "ucr2018" => {
                for (d, s) in self.sets.iter().enumerate() {
                    let at = if self.c.get("adjusted") != 0 && d > 0 { format!("{ADJUSTED}/") } else { String::new() };
                    for (k, e) in ["TRAIN", "TEST"].iter().enumerate() {
                        t.insert(format!("data/in/{at}{n}/{n}_{e}.tsv", n = s.name), self.c.texts[2 * d + k].clone().into_bytes());
                    }
                }
            }
            _ => {
                let mut p = BTreeMap::new();
                for (d, f) in self.c.files.iter().enumerate() {
                    t.insert(format!("data/in/emb{d}.bin"), f.input_bytes());
                    p.insert(format!("emb{d}"), f.param.unwrap_or(0) as f64 + [0.0, 0.3, -0.3][(d + f.data.len()) % 3]);
                }
                t.insert("data/in/precision_data.json".into(), serde_json::to_vec(&p).unwrap_or_default());
            }
        }
        for i in 0..self.c.get("earlier") {
            t.insert(format!("data/result/{}/{i:03}/{}", self.kind(), ["tpch_01.json", "BUFF.json", "embedding_result.json"][self.c.get("cmd").clamp(0, 2) as usize]), b"earlier".to_vec());
        }
        plant(root, &t)?;
        Ok(t)
    }
    fn exec(&self, root: &Path, plan: &str) -> Res<Ran> {
        let p = self.place();
        let k = self.kind();
        let mut a: Vec<String> = vec![];
        if k != "tpch" {
            a.extend(["--input".into(), format!("{p}/in")]);
        }
        a.push(k.into());
        if k == "tpch" {
            a.extend(["--input-dir".into(), format!("{p}/in")]);
        }
        a.extend(["--output-dir".into(), p.into()]);
        run(&bindir().parent().map(|p| p.join("exp/release/experimenter")).unwrap_or_default(), &a, root, Path::new(p), plan)
    }
    /// What a successful run has saved.
    fn judge(&self, before: &Tree, after: &Tree, slack: usize) -> Result<(), String> {
        let base = format!("data/result/{}", self.kind());
        // a failed or killed run may have left a directory without files
        let mut nr = 0;
        while before.keys().any(|p| p.starts_with(&format!("{base}/{nr:03}/"))) {
            nr += 1;
        }
        let new: Vec<&String> = after.keys().filter(|p| p.starts_with(&base) && !before.contains_key(*p)).collect();
        let dir = new.first().and_then(|p| p.rsplit_once('/')).map(|p| p.0.to_string()).ok_or(format!("nothing was saved in {base}"))?;
        if new.iter().any(|p| !p.starts_with(&format!("{dir}/"))) {
            return Err(format!("results in several places: {new:?}"));
        }
        let found: usize = dir[base.len()..].trim_matches('/').parse().map_err(|_| format!("results in {dir}"))?;
        if found < nr || found > nr + slack {
            return Err(format!("results in {dir}, though {nr:03} was free"));
        }
        match self.kind() {
            "tpch" => self.judge_tpch(&dir, after),
            "ucr2018" => self.judge_ucr(&dir, after),
            _ => self.judge_embedding(&dir, after),
        }
    }
    fn judge_tpch(&self, dir: &str, after: &Tree) -> Result<(), String> {
        for (q, file) in ["tpch_01.json", "tpch_01_simplified.json", "tpch_06.json"].iter().enumerate() {
            let cols = self.table(q / 2);
            let by = |n: &str| cols.iter().find(|c| c.0 == n).map(|c| c.1.clone()).unwrap_or_default();
            let (qty, price, disc, tax) = (by("l_quantity"), by("l_extendedprice"), by("l_discount"), by("l_tax"));
            let n = qty.len();
            let reduced: Vec<f64> = (0..n).map(|i| price[i] * (1.0 - disc[i])).collect();
            let name = format!("{dir}/{file}");
            let v = parse_json(after, &name)?;
            let v = v.as_array().ok_or(format!("{name} is no list"))?;
            if v.len() != 5 {
                return Err(format!("{name} has {} results instead of 5", v.len()));
            }
            for v in v {
                if v.as_object().is_none_or(|o| o.len() != SCHEMES.len()) {
                    return Err(format!("{name}: not every scheme has a result"));
                }
                for s in SCHEMES {
                    let r = v.get(s.name()).ok_or(format!("{name} knows nothing of {}", s.name()))?;
                    let at = |e: String| format!("{name}: {} (n={n}): {e}", s.name());
                    if r.get("compression").and_then(Value::as_object).is_none_or(|o| o.len() != cols.len()) {
                        return Err(at("not every column has sizes".into()));
                    }
                    for (col, x) in &cols {
                        judge_sizes(r.get("compression").and_then(|c| c.get(col)), &spec(s, 100, x)).map_err(|e| at(format!("{col}: {e}")))?;
                    }
                    // the largest error of one decoded value, and what the expressions make of it
                    let e = spec(s, 100, &[]).eps();
                    let big = |v: &[f64]| v.iter().fold(0f64, |a, x| a.max(x.abs()));
                    let e2 = e * (big(&price) + big(&disc) + 2.0);
                    let e3 = e2 * (2.0 + big(&tax)) + e * (big(&reduced) + e2);
                    let mut want: Vec<(&str, Vec<f64>, f64, bool)> = vec![];
                    match q {
                        0 => {
                            let charge: Vec<f64> = (0..n).map(|i| reduced[i] * (1.0 + tax[i])).collect();
                            want.push(("sum of quantities", qty.clone(), e, false));
                            want.push(("sum of prices", price.clone(), e, false));
                            want.push(("sum of reduced prices", reduced.clone(), e2, false));
                            want.push(("sum of charges", charge, e3, false));
                            want.push(("mean quantity", qty.clone(), e, true));
                            want.push(("mean price", price.clone(), e, true));
                            want.push(("mean discount", disc.clone(), e, true));
                        }
                        1 => {
                            want.push(("sum of quantities", qty.clone(), e, false));
                            want.push(("sum of prices", price.clone(), e, false));
                            want.push(("mean discount", disc.clone(), e, true));
                            want.push(("mean quantity", qty.clone(), e, true));
                            want.push(("mean price", price.clone(), e, true));
                        }
                        _ => {
                            let picked: Vec<f64> = (0..n).filter(|i| (0.05..=0.07).contains(&disc[*i]) && qty[*i] < 24.0).map(|i| price[i] * disc[i]).collect();
                            want.push(("revenue", picked, e2, false));
                        }
                    }
                    let got: Vec<f64> = r.get("result").and_then(Value::as_array).ok_or(at("no result".into()))?.iter().filter_map(scalar).collect();
                    if got.len() != want.len() + (q < 2) as usize {
                        return Err(at(format!("{} aggregates instead of {}", got.len(), want.len() + (q < 2) as usize)));
                    }
                    for (g, (what, vals, e, mean)) in got.iter().zip(&want) {
                        let g = if *mean { g * n as f64 } else { *g };
                        sum_close(g, vals, *e).map_err(|e| at(format!("{what}: {e}")))?;
                    }
                    if q < 2 && got.last() != Some(&(n as f64)) {
                        return Err(at(format!("count is {:?}", got.last())));
                    }
                }
            }
        }
        Ok(())
    }
    fn judge_ucr(&self, dir: &str, after: &Tree) -> Result<(), String> {
        let mut files: Vec<(Scheme, Option<u32>)> = SCHEMES.iter().map(|s| (*s, None)).collect();
        files.extend([1, 3, 5, 8].map(|p| (Scheme::Buff, Some(p))));
        for (s, prec) in files {
            let name = format!("{dir}/{}{}.json", s.name(), prec.map_or(String::new(), |p| format!("_{p}")));
            let v = parse_json(after, &name)?;
            let all = v.get("results").and_then(Value::as_object).ok_or(format!("{name} has no results"))?;
            if all.len() != self.sets.len() {
                return Err(format!("{name} has {} data sets instead of {}", all.len(), self.sets.len()));
            }
            for d in &self.sets {
                let r = all.get(&d.name).ok_or(format!("{name} knows nothing of {}", d.name))?;
                let at = |e: String| format!("{name}: {}: {e}", d.name);
                let flat: Vec<f64> = d.vectors.iter().flatten().copied().collect();
                let f = spec(s, pow10(d.digits), &flat);
                judge_config(r.get("compression_config"), &f).map_err(at)?;
                judge_sizes(r.get("compression_statistics"), &f).map_err(at)?;
                if r.get("config") != Some(&json!({ "n": 5, "precision": prec.map_or(-1, |p| p as i64), "k": 1 })) {
                    return Err(at(format!("config is {:?}", r.get("config"))));
                }
                let prec = prec.map(|p| p.min(d.digits));
                let shown = r.get("decompression_result").and_then(|x| x.get("result_string")).and_then(Value::as_array).ok_or(at("no decoded values".into()))?;
                if shown.len() != 5 {
                    return Err(at(format!("{} decompressions instead of 5", shown.len())));
                }
                for x in shown {
                    let x: Vec<f64> = x.as_str().unwrap_or("").trim_matches(['[', ']']).split(", ").filter_map(|x| x.parse().ok()).collect();
                    f.check_values(&x, &flat[..flat.len().min(5)], prec).map_err(|e| at(format!("decompression: {e}")))?;
                }
                for k in ["elapsed_time_nanos", "execution_times"] {
                    let v = r.get(k).and_then(Value::as_array).ok_or(at(format!("no {k}")))?;
                    if v.len() != d.tests.len() || v.iter().any(|v| v.as_array().is_none_or(|v| v.len() != 5)) {
                        return Err(at(format!("{k} are not 5 for each of {} test vectors", d.tests.len())));
                    }
                }
                // a decoded vector is at most this far from the stored one
                let e = (f.eps() + prec.map_or(0.0, |p| 10f64.powi(-(p as i32)))) * (d.tests[0].len() as f64).sqrt() + 1e-9;
                let (mut sure, mut possible) = (0, 0);
                for (t, l) in d.tests.iter().zip(&d.test_labels) {
                    let dist: Vec<f64> = d.vectors.iter().map(|v| v.iter().zip(t).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()).collect();
                    let least = dist.iter().copied().fold(f64::INFINITY, f64::min);
                    let near: Vec<bool> = dist.iter().zip(&d.labels).filter(|(x, _)| **x <= (least + 2.0 * e) * (1.0 + 1e-12)).map(|(_, k)| k == l).collect();
                    sure += near.iter().all(|x| *x) as u32;
                    possible += near.iter().any(|x| *x) as u32;
                }
                let acc = num(r, &["accuracy"]).ok_or(at("no accuracy".into()))? * d.tests.len() as f64;
                if acc < sure as f64 - 1e-6 || acc > possible as f64 + 1e-6 {
                    return Err(at(format!("{acc} right answers for {} tests, {sure} to {possible} expected", d.tests.len())));
                }
            }
        }
        Ok(())
    }
    fn judge_embedding(&self, dir: &str, after: &Tree) -> Result<(), String> {
        let name = format!("{dir}/embedding_result.json");
        let v = parse_json(after, &name)?;
        if v.as_object().is_none_or(|o| o.keys().filter(|k| *k != "command_type").count() != self.c.files.len()) {
            return Err(format!("{name} does not have {} data sets", self.c.files.len()));
        }
        for (d, src) in self.c.files.iter().enumerate() {
            let set = v.get(format!("emb{d}")).and_then(Value::as_object).ok_or(format!("{name} knows nothing of emb{d}"))?;
            let p = src.param.unwrap_or(0);
            let fine = p <= 12;
            if set.len() != SCHEMES.len() - if fine { 0 } else { 2 } {
                return Err(format!("{name}: {} schemes for emb{d} of precision {p}", set.len()));
            }
            for s in SCHEMES {
                if s.quantised() && !fine {
                    continue;
                }
                let r = set.get(s.name()).ok_or(format!("{name} knows nothing of {} on emb{d}", s.name()))?;
                let at = |e: String| format!("{name}: {} on emb{d}: {e}", s.name());
                let f = spec(s, if fine { pow10(p as u32) } else { 1 }, &src.values());
                judge_config(r.get("compression_config"), &f).map_err(at)?;
                if num(r, &["n"]) != Some(10.0) || num(r, &["precision"]) != Some(p as f64) || r.get("dataset_name") != Some(&json!(format!("emb{d}"))) {
                    return Err(at(format!("n, precision, name are {:?}, {:?}, {:?}", r.get("n"), r.get("precision"), r.get("dataset_name"))));
                }
                for k in ["compression_elapsed_time_nanos", "compression_segmented_execution_times", "compression_result_string", "compression_statistics", "decompression_elapsed_time_nanos", "decompression_segmented_execution_times", "decompression_result_string"] {
                    let l = r.get(k).and_then(Value::as_array).ok_or(at(format!("no {k}")))?;
                    if l.len() != 10 {
                        return Err(at(format!("{} {k} instead of 10", l.len())));
                    }
                    let raw = f.input_bytes();
                    for x in l {
                        match k {
                            "compression_statistics" => judge_sizes(Some(x), &f).map_err(at)?,
                            "decompression_result_string" if !s.quantised() && x.as_str() != Some(&format!("{:?}", &raw[..5])) => return Err(at(format!("decoded {x} instead of {:?}", &raw[..5]))),
                            _ => (),
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn scalar(v: &Value) -> Option<f64> {
    match v {
        Value::Object(o) if o.len() == 1 => o.values().next().and_then(Value::as_f64),
        v => v.as_f64(),
    }
}

pub fn run_c24(c: &Case, st: &mut Stats) -> Res {
    let mut w = Bench { c, sets: vec![] };
    match w.kind() {
        "tpch" if c.files.len() == 8 && (0..2).all(|q| !w.table(q)[0].1.is_empty()) => (),
        "ucr2018" if !c.texts.is_empty() => {
            let sets: Option<Vec<Set>> = (0..c.texts.len().div_ceil(2)).map(|d| set(c, d)).collect();
            match sets {
                Some(s) => w.sets = s,
                None => return Ok(()),
            }
        }
        "embedding" if !c.files.is_empty() && c.files.iter().all(|f| !f.data.is_empty() && f.param.is_some_and(|p| p > 12 || pow10(p.max(0) as u32) == f.scale)) => (),
        _ => return Ok(()),
    }
    let d = Dir::new("bench")?;
    let inputs = w.setup(&d.0)?;
    let mut benign: Vec<String> = vec![];
    for (k, m, l) in [('r', "r_mode", "r_len"), ('w', "w_mode", "w_len")] {
        // (the parquet library takes an interrupted read for a failed one)
        match if k == 'r' && w.kind() == "tpch" { c.get(m).min(1) } else { c.get(m) } {
            1 => benign.push(format!("{k}*=s{}", c.get(l).max(1))),
            2 => benign.push(format!("{k}*=f{}", c.get(l).max(1))),
            _ => (),
        }
    }
    let plain = benign.join(";");
    let mut plan: Vec<String> = vec![];
    if !c.faults.is_empty() {
        let dry = Dir::new("bench-dry")?;
        plant(&dry.0, &inputs)?;
        let ran = w.exec(&dry.0, &plain)?;
        plan = c.faults.iter().filter_map(|f| aim(f, &ran)).collect();
    }
    let faulty = !plan.is_empty();
    let what = format!("{}, faults {plan:?}", w.kind());
    plan.extend(benign);
    for round in 0..2 {
        let before = tree(&d.0.join("data"))?.into_iter().map(|(p, b)| (format!("data/{p}"), b)).collect::<Tree>();
        let ran = w.exec(&d.0, &if round == 0 { plan.join(";") } else { plain.clone() })?;
        ran.account(st);
        st.fired[3] += ran.failed;
        st.add("crashes", ran.killed as u64);
        st.add("repeats", round);
        let what = if round == 0 { what.clone() } else { format!("{what}, then repeated without faults") };
        let after = tree(&d.0)?;
        for (p, b) in &before {
            if after.get(p) != Some(b) {
                return viol("damage", format!("{what}: {p} was changed"));
            }
        }
        if !ran.ok {
            if round > 0 || !faulty {
                return viol("false-report", format!("{what}: failed: {}", ran.err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
            }
            st.add("failed_benchmarks", 1);
            continue;
        }
        st.add("benchmarks", 1);
        w.judge(&before, &after, round as usize).or_viol("wrong-result", &what)?;
        break;
    }
    Ok(())
}
