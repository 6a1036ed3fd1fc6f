#![allow(dead_code)]
mod alloc;
mod case;
mod props;
mod rng;
mod sess;
mod shrink;
mod simio;
mod spec;

use case::*;
use props::Prop;
use rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run one case; a panic of the code under test is a violation of every property.
pub fn run_case(p: &Prop, c: &Case, st: &mut Stats) -> Res {
    ebi::time::sim_clock::reset(Duration::ZERO, Duration::ZERO);
    match catch_unwind(AssertUnwindSafe(|| (p.run)(c, st))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            let class = if m.contains("SIM-STEP-LIMIT") { "no-progress" } else { "panic" };
            viol(class, format!("the code under test panicked: {m}"))
        }
    }
}

pub fn gen_case(p: &Prop, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, p.id, index);
    let mut c = (p.gen)(&mut r, index);
    c.prop = p.id.to_string();
    c
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    fired: Vec<u64>,
    sim_ns: u64,
    io_calls: u64,
    more: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    selfcheck: u64,
    selfcheck_diff: u64,
    capped: bool,
    samples: Vec<Value>,
    violation: Option<(u64, Violation)>,
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn known_findings() -> Vec<(String, String)> {
    // lines "finding: property=<id> class=<class> match=<text> -- <description>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let (id, rest) = rest.split_once(' ').unwrap_or((rest, ""));
                if let Some(m) = rest.split("match=").nth(1) {
                    let m = m.split(" -- ").next().unwrap_or(m);
                    v.push((id.to_string(), m.trim().to_string()));
                }
            }
        }
    }
    v
}
fn is_known<'a>(k: &'a [(String, String)], id: &str, v: &Violation) -> Option<&'a str> {
    k.iter().find(|(i, m)| i == id && v.msg.contains(m.as_str())).map(|x| x.1.as_str())
}

fn worker(args: &[String]) {
    let p = props::find(&args[0]).expect("property");
    let seed: u64 = args[1].parse().unwrap();
    let w: u64 = args[2].parse().unwrap();
    let nw: u64 = args[3].parse().unwrap();
    let count: u64 = args[4].parse().unwrap();
    let wall: u64 = args[5].parse().unwrap();
    let dir = PathBuf::from(&args[6]);
    limits();
    install_hook();
    std::env::set_var("EBISIM_SCRATCH", dir.join(format!("s{w}")));
    let hb = std::fs::File::create(dir.join(format!("w{w}.hb"))).unwrap();
    let known = known_findings();
    let mut out = WorkerOut { fired: vec![0; 12], ..Default::default() };
    let mut hashes: HashSet<u64> = HashSet::new();
    let t0 = Instant::now();
    let mut i = w;
    while i < count {
        let _ = hb.write_at(&(i + 1).to_le_bytes(), 0);
        if t0.elapsed().as_secs() >= wall {
            out.capped = true;
            break;
        }
        let c = gen_case(p, seed, i);
        let mut st = Stats::default();
        let t1 = Instant::now();
        let r = run_case(p, &c, &mut st);
        if std::env::var_os("EBISIM_SLOW").is_some() && t1.elapsed().as_secs() >= 3 {
            eprintln!("slow: {} run {i}: {} s", p.id, t1.elapsed().as_secs());
        }
        out.runs += 1;
        for k in 0..12 {
            out.fired[k] += st.fired[k];
        }
        out.sim_ns += st.sim_ns;
        out.io_calls += st.io_calls;
        for (k, v) in &st.more {
            *out.more.entry(k.to_string()).or_insert(0) += v;
        }
        if st.nontrivial {
            out.nontrivial += 1;
            hashes.insert(st.hash);
        }
        if out.samples.len() < 1 && st.nontrivial && w < 3 && c.size() < 120 {
            out.samples.push(json!({"index": i, "case": serde_json::to_value(&c).unwrap()}));
        }
        match r {
            Ok(()) => {
                if out.selfcheck < 8 {
                    let mut st2 = Stats::default();
                    let again = run_case(p, &c, &mut st2);
                    out.selfcheck += 1;
                    if again.is_err() || st2.hash != st.hash {
                        out.selfcheck_diff += 1;
                    }
                }
            }
            Err(v) => {
                if let Some(k) = is_known(&known, p.id, &v) {
                    *out.known.entry(k.to_string()).or_insert(0) += 1;
                } else {
                    out.violation = Some((i, v));
                    break;
                }
            }
        }
        i += nw;
    }
    let mut hf: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hf.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("w{w}.hash")), hf).unwrap();
    let tmp = dir.join(format!("w{w}.tmp"));
    std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(tmp, dir.join(format!("w{w}.json"))).unwrap();
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("ebisim-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn(args: &[String], stdout: Stdio) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(stdout)
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

/// Run one case file in a fresh process. Ok(None): held.
fn exec_process(path: &Path, timeout: Duration) -> Option<Violation> {
    let res = path.with_extension("res");
    let _ = std::fs::remove_file(&res);
    let mut ch = spawn(&["exec".into(), path.display().to_string(), res.display().to_string()], Stdio::null());
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = match status {
        None => Some(Violation { class: "hang".into(), msg: format!("no result within {timeout:?}") }),
        Some(s) => match std::fs::read(&res).ok().and_then(|b| serde_json::from_slice::<Option<Violation>>(&b).ok()) {
            Some(v) => v,
            None => Some(Violation { class: "abort".into(), msg: format!("the process died: {s}") }),
        },
    };
    let _ = std::fs::remove_file(&res);
    out
}

fn exec(args: &[String]) {
    limits();
    install_hook();
    let c: Case = read_case(Path::new(&args[0]));
    let p = props::find(&c.prop).expect("property");
    std::env::set_var("EBISIM_SCRATCH", std::env::temp_dir().join(format!("ebisim-x{}", std::process::id())));
    let mut st = Stats::default();
    let r = run_case(p, &c, &mut st);
    let v: Option<Violation> = r.err();
    std::fs::write(&args[1], serde_json::to_vec(&v).unwrap()).unwrap();
}

fn read_case(p: &Path) -> Case {
    let v: Value = serde_json::from_slice(&std::fs::read(p).expect("case file")).expect("json");
    let c = if v.get("case").is_some() { v["case"].clone() } else { v };
    serde_json::from_value(c).expect("case")
}

fn check(args: &[String]) -> i32 {
    let p = match props::find(&args[0]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[0]);
            return 2;
        }
    };
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
        || args.get(1).is_some_and(|a| a == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let count = std::env::var("EBISIM_COUNT")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.quick * 40 } else { p.quick });
    let wall = std::env::var("EBISIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
    let nw: u64 = std::env::var("EBISIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 8)
    });
    let scratch = Scratch::new();
    let dir = scratch.0.clone();
    let t0 = Instant::now();
    let mut kids: Vec<Option<std::process::Child>> = (0..nw)
        .map(|w| {
            Some(spawn(
                &[
                    "worker".into(),
                    p.id.into(),
                    seed.to_string(),
                    w.to_string(),
                    nw.to_string(),
                    count.to_string(),
                    wall.to_string(),
                    dir.display().to_string(),
                ],
                Stdio::null(),
            ))
        })
        .collect();
    let mut beat: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw as usize];
    let mut found: Option<(u64, Violation)> = None;
    let stall = Duration::from_secs(90);
    let read_hb = |w: usize| -> u64 {
        std::fs::read(dir.join(format!("w{w}.hb")))
            .ok()
            .filter(|b| b.len() == 8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
            .unwrap_or(0)
    };
    let mut outs: Vec<WorkerOut> = vec![];
    while found.is_none() && kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..nw as usize {
            let Some(k) = kids[w].as_mut() else { continue };
            if let Some(status) = k.try_wait().unwrap() {
                kids[w] = None;
                match std::fs::read(dir.join(format!("w{w}.json"))).ok().and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) {
                    Some(o) => {
                        if let Some(v) = &o.violation {
                            found = Some(v.clone());
                        }
                        outs.push(o);
                    }
                    None => {
                        let i = read_hb(w);
                        if i == 0 {
                            eprintln!("worker {w} could not start: {status}");
                            return 2;
                        }
                        found = Some((i - 1, Violation { class: "abort".into(), msg: format!("the process died: {status}") }));
                    }
                }
                continue;
            }
            let i = read_hb(w);
            if i != beat[w].0 {
                beat[w] = (i, Instant::now());
            } else if beat[w].1.elapsed() > stall && i > 0 {
                let _ = k.kill();
                let _ = k.wait();
                kids[w] = None;
                found = Some((i - 1, Violation { class: "hang".into(), msg: format!("no progress for {stall:?}") }));
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((index, v)) = &found {
        code = report(p, seed, *index, v, &dir, thorough);
    }
    // evidence
    let mut distinct: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        if let Ok(b) = std::fs::read(dir.join(format!("w{w}.hash"))) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let runs: u64 = outs.iter().map(|o| o.runs).sum();
    let mut fired = serde_json::Map::new();
    for (k, name) in simio::KINDS.iter().enumerate() {
        let n: u64 = outs.iter().map(|o| o.fired[k]).sum();
        if n > 0 {
            fired.insert(name.to_string(), json!(n));
        }
    }
    let mut more: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for o in &outs {
        for (k, v) in &o.more {
            *more.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.known {
            *known.entry(k.clone()).or_insert(0) += v;
        }
    }
    for (id, m) in known_findings() {
        if id == p.id {
            println!("KNOWN-FINDING: property={} {} (seen in {} runs)", p.id, m, known.get(&m).copied().unwrap_or(0));
        }
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
        "assumptions": props::ASSUMPTIONS,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "distinct_measure": "distinct 64-bit hashes of the run's trace: every simulated I/O call (kind, position, size, decision) and every operation outcome, in order; only runs in which at least one fault, delay, fragmentation, crash or scheduling decision took effect are counted",
            "samples": outs.iter().flat_map(|o| o.samples.clone()).take(3).collect::<Vec<_>>(),
            "requested_runs": count,
            "stopped_by_wall_limit": outs.iter().any(|o| o.capped),
            "runs_per_hour": if search_s > 0.0 { (runs as f64 / search_s * 3600.0) as u64 } else { 0 },
            "seed_stream": format!("case i is generated from (VERIF_SEED={seed}, property, i), i in 0..{count}"),
            "simulated_seconds": outs.iter().map(|o| o.sim_ns).sum::<u64>() as f64 / 1e9,
            "simulated_io_calls": outs.iter().map(|o| o.io_calls).sum::<u64>(),
            "faults_injected": fired,
            "counters": more,
            "replayed_for_determinism": outs.iter().map(|o| o.selfcheck).sum::<u64>(),
            "replays_that_differed": outs.iter().map(|o| o.selfcheck_diff).sum::<u64>(),
            "known_findings_seen": known,
            "workers": nw,
            "real_components": p.real,
            "stubbed_components": props::STUBS,
        },
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("evidence: {e}");
    }
    println!(
        "{} {}: {} simulated runs, {} distinct non-trivial, {:.1} s search, seed {}",
        p.id,
        if code == 0 { "held" } else { "VIOLATED" },
        runs,
        distinct.len(),
        search_s,
        seed
    );
    code
}

fn report(p: &Prop, seed: u64, index: u64, v: &Violation, dir: &Path, thorough: bool) -> i32 {
    let c = gen_case(p, seed, index);
    let mut best = c.clone();
    let mut bv = v.clone();
    let f = dir.join("case.json");
    let write = |c: &Case, path: &Path| std::fs::write(path, serde_json::to_vec(c).unwrap()).unwrap();
    // minimise in a child process that keeps its best result in a file
    write(&c, &f);
    let outp = dir.join("min.json");
    let budget = if thorough { 120 } else { 20 };
    if v.class != "hang" {
        let mode = if v.class == "abort" { "subprocess" } else { "inprocess" };
        let mut ch = spawn(
            &["shrink".into(), f.display().to_string(), outp.display().to_string(), v.class.clone(), budget.to_string(), mode.into()],
            Stdio::null(),
        );
        let t0 = Instant::now();
        while ch.try_wait().unwrap().is_none() {
            if t0.elapsed() > Duration::from_secs(budget + 20) {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        if let Ok(b) = std::fs::read(&outp) {
            if let Ok(m) = serde_json::from_slice::<Case>(&b) {
                best = m;
            }
        }
    }
    // the replay must reproduce in a fresh process
    write(&best, &f);
    let mut repro = exec_process(&f, Duration::from_secs(100));
    if repro.is_none() {
        best = c;
        write(&best, &f);
        repro = exec_process(&f, Duration::from_secs(100));
    }
    let reproduced = repro.is_some();
    if let Some(r) = repro {
        bv = r;
    }
    if !reproduced && matches!(v.class.as_str(), "hang" | "abort" | "deadlock") {
        // a starved or interrupted machine, not a property of this execution: one seed is one repeatable run
        println!("note: run {index} ended with {:?} once and held when repeated; not a violation", v.class);
        return 0;
    }
    let rd = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let path = rd.join(format!("{}-seed{}-{}.json", p.id, seed, index));
    let doc = json!({
        "property": p.id,
        "seed": seed,
        "index": index,
        "violation": bv,
        "first_seen_as": v,
        "reproduced_in_fresh_process": reproduced,
        "replay_with": format!("/verif/check.sh replay {}", path.display()),
        "case": best,
    });
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
    println!("[{}] {}: {}", p.id, bv.class, bv.msg);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    let _ = std::io::stdout().flush();
    1
}

fn replay(args: &[String]) -> i32 {
    let path = Path::new(&args[0]);
    let c = read_case(path);
    let doc: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let scratch = Scratch::new();
    let f = scratch.0.join("case.json");
    std::fs::write(&f, serde_json::to_vec(&c).unwrap()).unwrap();
    match exec_process(&f, Duration::from_secs(100)) {
        None => {
            println!("{}: the recorded case no longer violates the property", c.prop);
            0
        }
        Some(v) => {
            println!("[{}] {}: {}", c.prop, v.class, v.msg);
            if let Some(old) = doc.get("violation").and_then(|x| x.get("msg")).and_then(|x| x.as_str()) {
                println!("same message as recorded: {}", old == v.msg);
            }
            println!("VIOLATION property={} replay={}", c.prop, path.display());
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("worker") => {
            worker(&args[1..]);
            0
        }
        Some("exec") => {
            exec(&args[1..]);
            0
        }
        Some("shrink") => {
            limits();
            install_hook();
            std::env::set_var("EBISIM_SCRATCH", std::env::temp_dir().join(format!("ebisim-y{}", std::process::id())));
            shrink::main(&args[1..]);
            0
        }
        Some("replay") => replay(&args[1..]),
        Some("gen") => {
            let p = props::find(&args[1]).unwrap();
            let c = gen_case(p, args[2].parse().unwrap(), args[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        Some("one") => {
            // run one generated case in this process, panics shown
            install_hook();
            let p = props::find(&args[1]).unwrap();
            let c = gen_case(p, args[2].parse().unwrap(), args[3].parse().unwrap());
            let mut st = Stats::default();
            println!("{:?}", run_case(p, &c, &mut st));
            0
        }
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ebisim check <property> [thorough] | replay <file> | gen|one <property> <seed> <index> | list");
            2
        }
    };
    std::process::exit(code);
}
