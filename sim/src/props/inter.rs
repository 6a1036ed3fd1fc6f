//! Several sessions at once: under a seeded baton between threads, and nested inside each other's I/O calls (C17).
use super::encode::place;
use super::query::ask;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use crate::each;
use ebi::time::sim_clock;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type Hook = Arc<dyn Fn() + Send + Sync>;

pub fn gen_c17(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C17");
    let k = 2 + r.us(3);
    let same = if r.chance(1, 2) { Some(gen_scheme(r)) } else { None };
    let clone = r.chance(1, 4);
    for i in 0..k {
        let scheme = match same {
            Some(s) => s,
            None => gen_scheme(r),
        };
        let max_n = if r.chance(1, 15) { 800 } else { 90 };
        let f = if i > 0 && clone { c.files[0].clone() } else { gen_file_for(r, scheme, Gen { max_n, tame: true, allow_empty: false, tail: false }) };
        let q = guess_cuts(&f).len();
        c.put(&format!("kind{i}"), if r.chance(1, 3) { 0 } else { 1 + r.us(2) as i64 });
        c.scripts.push(maybe_benign(r, 10 + 2 * q));
        c.scripts.push(maybe_benign(r, 10 + 2 * q));
        c.files.push(f);
    }
    let n_ops = 1 + r.us(3 * k);
    for j in 0..n_ops {
        let f = c.files[j % k].clone();
        let n = f.data.len();
        let op = match r.below(8) {
            0 => {
                let l = 1 + r.us(n.min(20));
                Op::Knn { target: (0..l).map(|_| (r.range(-50, 50) as f64 / 2.0).to_bits()).collect() }
            }
            1 => {
                let cols = 1 + r.us(3);
                Op::Matmul { target: (0..cols * 2).map(|_| (r.range(-9, 9) as f64).to_bits()).collect(), tshape: (cols, 2), dshape: (1, cols) }
            }
            _ => next_query(r, &f, j.checked_sub(k).and_then(|p| c.ops.get(p))),
        };
        c.ops.push(op);
    }
    if r.chance(1, 2) {
        for _ in 0..1 + r.us(3) {
            c.faults.push(FaultAt { stream: r.us(2 * k) as u8, op: 0, at: r.below(20) as u32, fault: *r.pick(&READ_FAULTS), sticky: r.chance(1, 3) });
        }
    }
    // long stretches on one session, or a switch at almost every call
    let mut cur = 0u32;
    let lazy = r.chance(1, 2);
    for _ in 0..10 + r.us(150) {
        if !lazy || r.chance(1, 5) {
            cur = r.below(12) as u32;
        }
        c.picks.push(cur);
    }
    c.put("nest", r.below(1 << 20) as i64);
    super::encode::gen_clock(r, &mut c);
    c
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
fn digest(a: &Result<Ans, String>) -> String {
    match a {
        Err(e) => format!("error: {e}"),
        Ok(Ans::Bytes(b)) => format!("{} bytes {:016x}", b.len(), fnv(b)),
        Ok(Ans::Bits(b)) => format!("{} bits {:016x}", b.len(), b.iter().fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(x as u64))),
        Ok(Ans::Num(x)) => format!("{:016x}", x.to_bits()),
        Ok(Ans::Near(i, d)) => format!("near {i} {:016x}", d.to_bits()),
        Ok(Ans::Mats(v)) => format!("matrix {:?}", v.iter().map(|x| x.to_bits()).fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(x))),
        Ok(Ans::Unit) => "-".into(),
    }
}

/// What one session observed, step by step, and its first wrong answer by the array model.
#[derive(Clone, Default)]
struct Seen {
    log: Vec<String>,
    wrong: Option<(String, String)>,
    fired: [u64; 12],
    calls: u64,
    hash: u64,
    ns: u64,
}

fn session(c: &Case, i: usize, m: &Model, hook: Option<Hook>) -> Seen {
    let start = Duration::from_nanos(c.get("start").max(0) as u64);
    sim_clock::reset(start, Duration::from_nanos(c.get("tick").max(0) as u64));
    let mut s = Seen::default();
    let f = &c.files[i];
    let ctls: Vec<_> = (0..2)
        .map(|j| {
            let mut x = Ctl::new(&c.script(2 * i + j));
            for fa in c.faults.iter().filter(|x| x.stream as usize == 2 * i + j) {
                place(&mut x.script, fa.at, Act::Fail(fa.fault));
                x.sticky = fa.sticky;
            }
            x.hook = hook.clone();
            Arc::new(Mutex::new(x))
        })
        .collect();
    let hard = || ctls.iter().map(|x| x.lock().unwrap().hard).sum::<u64>();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if c.get(&format!("kind{i}")) == 0 {
            let input = SimReader::new(Arc::new(f.input_bytes()), ctls[0].clone());
            let sink = SimSink::new(ctls[1].clone(), None, false);
            let r = encode_sim(f, input, sink.clone(), false, i % 2 == 1);
            let b = sink.content();
            s.log.push(format!("encode {r:?} {} bytes {:016x}", b.len(), fnv(&b)));
            match r {
                Ok(()) => {
                    let got = decode_plain(&Arc::new(b));
                    let ok = got.and_then(|v| f.check_values(&v, &m.data, None));
                    if let Err(e) = ok {
                        s.wrong = Some(("wrong-file".into(), format!("encoding {}: {e}", f.describe())));
                    }
                }
                Err(e) if hard() == 0 => s.wrong = Some(("spurious-error".into(), format!("encoding {}: {e}", f.describe()))),
                Err(_) => {}
            }
        } else {
            let rd = SimReader::new(m.bytes.clone(), ctls[0].clone());
            let mut d = match open(rd, c.get(&format!("kind{i}")) == 2) {
                Ok(d) => d,
                Err(e) => {
                    if hard() == 0 {
                        s.wrong = Some(("spurious-error".into(), format!("opening {}: {e}", f.describe())));
                    }
                    s.log.push(format!("open: {e}"));
                    return;
                }
            };
            let k = c.files.len();
            for (j, op) in c.ops.iter().enumerate().filter(|x| x.0 % k == i) {
                let h0 = hard();
                let sink = SimSink::new(ctls[1].clone(), None, false);
                let a = ask(&mut d, op, Some((sink, j % 3 == 0)));
                let t = each!(&mut d, x => x.segmented_execution_times());
                s.log.push(format!("query {j}: {} times {}", digest(&a), if a.is_ok() { format!("{t:?}") } else { String::new() }));
                let what = format!("query {j} ({}) on {}", describe(op), f.describe());
                let fits = match op {
                    Op::Matmul { target, tshape, dshape } => matmul_model(&m.stored, target, *tshape, *dshape).is_some(),
                    _ => true,
                };
                match a {
                    Ok(a) => {
                        if let Err(e) = judge(m, op, &a, None) {
                            s.wrong.get_or_insert(("wrong-answer".into(), format!("{what}: {e}")));
                        }
                    }
                    Err(e) if hard() == h0 && fits => {
                        s.wrong.get_or_insert(("spurious-error".into(), format!("{what}: {e}")));
                    }
                    Err(_) => {}
                }
            }
        }
    }));
    if r.is_err() {
        let p = crate::last_panic();
        s.log.push(format!("panic: {p}"));
        s.wrong = Some((if p.contains("SIM-ABORT") { "deadlock" } else { "panic" }.into(), format!("session {i} panicked: {p}")));
    }
    for x in &ctls {
        let x = x.lock().unwrap();
        for (a, b) in s.fired.iter_mut().zip(x.fired) {
            *a += b;
        }
        s.calls += x.calls;
        s.hash = s.hash.rotate_left(9) ^ x.hash;
    }
    s.ns = (sim_clock::now() - start).as_nanos() as u64;
    s
}

// ---- the baton: exactly one session thread runs at any time; it may pass on at every I/O call

struct Turn {
    cur: usize,
    done: Vec<bool>,
    t: usize,
    switches: u64,
    trace: u64,
    abort: bool,
}
struct Baton {
    st: Mutex<Turn>,
    cv: Condvar,
    picks: Vec<u32>,
}
impl Baton {
    fn next(&self, s: &mut Turn) {
        let live: Vec<usize> = (0..s.done.len()).filter(|i| !s.done[*i]).collect();
        if live.is_empty() {
            return;
        }
        let n = match self.picks.get(s.t) {
            Some(p) => live[*p as usize % live.len()],
            None if s.done[s.cur] => live[0],
            None => s.cur,
        };
        s.t += 1;
        if n != s.cur {
            s.switches += 1;
        }
        s.trace = s.trace.wrapping_mul(31).wrapping_add(n as u64 + 1);
        s.cur = n;
    }
    fn wait(&self, i: usize, mut s: std::sync::MutexGuard<'_, Turn>) {
        while s.cur != i && !s.abort {
            s = self.cv.wait(s).unwrap();
        }
        let abort = s.abort;
        drop(s);
        if abort && !std::thread::panicking() {
            panic!("SIM-ABORT: the sessions block each other");
        }
    }
    fn yield_now(&self, i: usize) {
        if std::thread::panicking() {
            return;
        }
        let mut s = self.st.lock().unwrap();
        self.next(&mut s);
        if s.cur != i {
            self.cv.notify_all();
        }
        self.wait(i, s);
    }
}

fn threaded(c: &Arc<Case>, ms: &Arc<Vec<Model>>, st: &mut Stats) -> Vec<Seen> {
    let k = c.files.len();
    let b = Arc::new(Baton {
        st: Mutex::new(Turn { cur: c.picks.first().copied().unwrap_or(0) as usize % k, done: vec![false; k], t: 0, switches: 0, trace: 0, abort: false }),
        cv: Condvar::new(),
        picks: c.picks.clone(),
    });
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..k)
            .map(|i| {
                let (b, c, ms) = (b.clone(), c.clone(), ms.clone());
                sc.spawn(move || {
                    let b2 = b.clone();
                    let hook: Hook = Arc::new(move || b2.yield_now(i));
                    let first = catch_unwind(AssertUnwindSafe(|| b.wait(i, b.st.lock().unwrap())));
                    let s = if first.is_ok() { session(&c, i, &ms[i], Some(hook)) } else { Seen::default() };
                    let mut t = b.st.lock().unwrap();
                    t.done[i] = true;
                    b.next(&mut t);
                    b.cv.notify_all();
                    s
                })
            })
            .collect();
        // a session that blocks while it holds the baton would stop everything
        let mut s = b.st.lock().unwrap();
        let (mut last, mut since) = (s.t, std::time::Instant::now());
        while !s.done.iter().all(|x| *x) {
            s = b.cv.wait_timeout(s, Duration::from_millis(500)).unwrap().0;
            if s.t != last {
                (last, since) = (s.t, std::time::Instant::now());
            } else if since.elapsed() > Duration::from_secs(20) {
                s.abort = true;
                b.cv.notify_all();
            }
        }
        drop(s);
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let t = b.st.lock().unwrap();
    st.add("thread_switches", t.switches);
    st.add("scheduling_points", t.t as u64);
    st.mix(t.trace);
    out
}

/// Session i runs session i+1 to its end inside one of its own I/O calls, on the same thread.
fn nested(c: &Arc<Case>, i: usize, ms: &Arc<Vec<Model>>, out: &Arc<Mutex<Vec<Option<Seen>>>>, calls: &Arc<Vec<u64>>) {
    let hook: Option<Hook> = if i + 1 < c.files.len() {
        let left = Mutex::new(Some((c.get("nest").max(0) as u64 / (i as u64 + 1)) % calls[i].max(1)));
        let (c, ms, out, calls) = (c.clone(), ms.clone(), out.clone(), calls.clone());
        Some(Arc::new(move || {
            let fire = {
                let mut l = left.lock().unwrap();
                match *l {
                    Some(0) => {
                        *l = None;
                        true
                    }
                    Some(n) => {
                        *l = Some(n - 1);
                        false
                    }
                    None => false,
                }
            };
            if fire {
                let t = sim_clock::now();
                nested(&c, i + 1, &ms, &out, &calls);
                sim_clock::reset(t, Duration::from_nanos(c.get("tick").max(0) as u64));
            }
        }))
    } else {
        None
    };
    let s = session(c, i, &ms[i], hook);
    out.lock().unwrap()[i] = Some(s);
}

pub fn run_c17(c: &Case, st: &mut Stats) -> Res {
    if c.files.is_empty() || c.files.iter().any(|f| f.data.is_empty()) {
        return Ok(());
    }
    let k = c.files.len();
    let c = Arc::new(c.clone());
    let mut ms = vec![];
    for f in &c.files {
        ms.push(Model::new(f)?);
    }
    let ms = Arc::new(ms);
    let alone: Vec<Seen> = (0..k).map(|i| session(&c, i, &ms[i], None)).collect();
    for (i, s) in alone.iter().enumerate() {
        if let Some((class, msg)) = &s.wrong {
            return viol(class, format!("session {i} of {k}, on its own: {msg}"));
        }
        for (a, b) in st.fired.iter_mut().zip(s.fired) {
            *a += b;
        }
        st.io_calls += s.calls;
        st.sim_ns += s.ns;
        st.mix(s.hash);
    }
    let compare = |how: &str, got: &Seen, i: usize| -> Res {
        if let Some((class, msg)) = &got.wrong {
            return viol(class, format!("session {i} of {k}, {how}: {msg}"));
        }
        if let Some(j) = (0..alone[i].log.len().max(got.log.len())).find(|j| alone[i].log.get(*j) != got.log.get(*j)) {
            return viol(
                "interference",
                format!("session {i} of {k} ({}), {how}, step {j}: {:?}; alone: {:?}", c.files[i].describe(), got.log.get(j), alone[i].log.get(j)),
            );
        }
        Ok(())
    };
    let calls = Arc::new(alone.iter().map(|s| s.calls).collect::<Vec<_>>());
    let out = Arc::new(Mutex::new(vec![None; k]));
    nested(&c, 0, &ms, &out, &calls);
    for (i, s) in out.lock().unwrap().iter().enumerate() {
        if let Some(s) = s {
            compare("nested inside another session's I/O call", s, i)?;
            st.add("nested_sessions", 1);
        }
    }
    for (i, s) in threaded(&c, &ms, st).iter().enumerate() {
        compare("interleaved with the others", s, i)?;
    }
    st.nontrivial |= k > 1;
    Ok(())
}
