//! Properties of querying an open file: histories, truncation, read failures, sink failures, chunk isolation.
use super::encode::{gen_clock, place, run_clock};
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use crate::{each, sess};
use std::sync::{Arc, Mutex};

pub fn gen_small(r: &mut Rng) -> FileSpec {
    if r.chance(1, 800) {
        let s = gen_scheme(r);
        return gen_huge(r, s);
    }
    let tame = r.chance(2, 3);
    let max_n = if r.chance(1, 12) { 2500 } else { 260 };
    let allow_empty = r.chance(1, 4);
    gen_file(r, Gen { max_n, tame, allow_empty, tail: false })
}

pub fn ask(d: &mut Dec, op: &Op, sink: Option<(SimSink, bool)>) -> Result<Ans, String> {
    each!(d, x => sess::query(x, op, sink))
}

/// Fold an answer into the trace hash.
pub fn mix_ans(st: &mut Stats, a: &Result<Ans, String>) {
    match a {
        Err(_) => st.mix(0xE),
        Ok(Ans::Bytes(b)) => {
            st.mix(b.len() as u64);
            if let Some(l) = b.last() {
                st.mix(*l as u64);
            }
        }
        Ok(Ans::Bits(b)) => st.mix(b.len()),
        Ok(Ans::Num(x)) => st.mix(x.to_bits()),
        Ok(Ans::Near(i, d)) => {
            st.mix(*i as u64);
            st.mix(d.to_bits());
        }
        Ok(Ans::Mats(v)) => st.mix(v.len() as u64),
        Ok(Ans::Unit) => {}
    }
}

// ---------------------------------------------------------------- C06

pub fn gen_c06(r: &mut Rng, index: u64) -> Case {
    let mut c = Case::new("C06");
    let big = index % 200 == 199;
    let f = if big {
        let scheme = if r.chance(1, 3) { *r.pick(&[Scheme::Buff, Scheme::Sprintz]) } else { gen_scheme(r) };
        gen_huge(r, scheme)
    } else {
        gen_small(r)
    };
    let n_ops = if big { 3 } else { 1 + r.us(12) };
    for _ in 0..n_ops {
        let q = next_query(r, &f, c.ops.last());
        c.ops.push(q);
    }
    if r.chance(1, 8) {
        let at = r.us(c.ops.len() + 1);
        c.ops.insert(at, Op::Precision(r.below(16) as u32));
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 60));
    c.scripts.push(maybe_benign(r, 60));
    if big {
        c.scripts.iter_mut().for_each(|s| s.base = Act::Full);
    }
    c.put("rd_buf", r.chance(1, 2) as i64);
    c.put("sink_buf", r.chance(1, 3) as i64);
    gen_clock(r, &mut c);
    c
}

pub fn run_c06(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    run_clock(c);
    let (rd, ctl) = reader_for(&m.bytes, &c.script(0));
    let mut d = open(rd, c.get("rd_buf") != 0).or_viol("open-failed", "opening a complete file failed")?;
    let mut prec = None;
    for (i, op) in c.ops.iter().enumerate() {
        if let Op::Precision(p) = op {
            prec = Some(*p);
        }
        let sctl = Ctl::arc(&c.script(1));
        let a = ask(&mut d, op, Some((SimSink::new(sctl.clone(), None, false), c.get("sink_buf") != 0)));
        mix_ans(st, &a);
        st.absorb(&sctl.lock().unwrap());
        st.add("queries", 1);
        let what = format!("query {i} ({}) on {}", describe(op), f.describe());
        let a = a.or_viol("query-failed", &format!("{what} failed"))?;
        judge(&m, op, &a, prec).or_viol("wrong-answer", &what)?;
    }
    st.absorb(&ctl.lock().unwrap());
    st.nontrivial |= c.ops.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn gen_c05(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C05");
    let f = gen_small(r);
    for _ in 0..1 + r.us(8) {
        let q = next_query(r, &f, c.ops.last());
        c.ops.push(q);
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 40));
    c.put("rd_buf", r.chance(1, 2) as i64);
    // truncation points: a position in the file, or close to its end, or close to a chunk boundary
    for _ in 0..6 {
        c.picks.push(r.u64() as u32);
    }
    c
}

fn cut_point(m: &Model, p: u32) -> u64 {
    let mut r = Rng::new(p as u64, "cut", 0);
    let len = m.bytes.len() as u64;
    let x = match r.below(5) {
        0 => r.below(len),
        1 => len - 1 - r.below(len.min(120)),
        2 => r.below(len.min(HEADER_SIZE as u64 + 4)),
        3 => *r.pick(&m.phys) + r.below(3),
        _ => (*r.pick(&m.phys)).saturating_sub(r.below(9)),
    };
    x.min(len - 1)
}

pub fn run_c05(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    st.nontrivial = true;
    // (a) opening what is left
    for &p in &c.picks {
        let cut = cut_point(&m, p);
        let part = Arc::new(m.bytes[..cut as usize].to_vec());
        let (rd, ctl) = reader_for(&part, &c.script(0));
        let r = open(rd, c.get("rd_buf") != 0);
        st.absorb(&ctl.lock().unwrap());
        st.add("truncated_opens", 1);
        st.fired[11] += 1;
        st.mix(cut);
        if r.is_ok() {
            return viol("accepted-truncated", format!("{cut} of {} bytes of a file were opened without an error ({})", m.bytes.len(), f.describe()));
        }
    }
    // (b) the tail disappears while the file is open
    let (rd, ctl) = reader_for(&m.bytes, &c.script(0));
    let mut d = open(rd, c.get("rd_buf") != 0).or_viol("open-failed", "opening a complete file failed")?;
    let first = c.picks.first().copied().unwrap_or(7);
    let at = first as usize % (c.ops.len() + 1);
    let mut limit = m.bytes.len() as u64;
    for (i, op) in c.ops.iter().enumerate() {
        if i == at {
            limit = cut_point(&m, first.rotate_left(9));
            ctl.lock().unwrap().limit = Some(limit);
        }
        let a = ask(&mut d, op, None);
        mix_ans(st, &a);
        let (bm, chunk) = chunk_of(op).unwrap();
        let lost = m.needed_chunks(bm, chunk).iter().any(|k| m.phys[*k + 1] > limit);
        let what = format!("query {i} ({}) after the file shrank from {} to {limit} bytes ({})", describe(op), m.bytes.len(), f.describe());
        match a {
            Err(e) => {
                if !lost {
                    return viol("spurious-error", format!("{what} failed although all its chunks are there: {e}"));
                }
                st.add("reported_missing", 1);
            }
            Ok(a) => judge(&m, op, &a, None).or_viol("wrong-answer", &what)?,
        }
    }
    st.absorb(&ctl.lock().unwrap());
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn gen_c07(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C07");
    let f = gen_small(r);
    let n = 1 + r.us(7);
    for _ in 0..n {
        let op = match r.below(10) {
            0 => {
                let l = 1 + r.us(8);
                Op::Knn { target: (0..l).map(|_| (r.range(-100, 100) as f64).to_bits()).collect() }
            }
            _ => next_query(r, &f, c.ops.last()),
        };
        c.ops.push(op);
    }
    c.files.push(f);
    c.scripts.push(if r.chance(1, 2) { Script::default() } else { benign(r, 40) });
    c.put("rd_buf", r.chance(1, 2) as i64);
    for _ in 0..1 + r.us(4) {
        c.faults.push(FaultAt {
            stream: 0,
            op: r.us(n + 1), // 0 = while opening
            at: r.below(1 << 20) as u32,
            fault: *r.pick(&READ_FAULTS),
            sticky: r.chance(1, 3),
        });
    }
    gen_retry(r, &mut c);
    c
}

/// What the user does about a failed query: repeats it at once, after the next query, or at the end of the history;
/// and for how many further queries a lasting fault lasts.
pub fn gen_retry(r: &mut Rng, c: &mut Case) {
    c.put("retry", r.us(3) as i64);
    if r.chance(1, 4) {
        c.put("outage", r.us(3) as i64);
    }
}

pub fn arm(ctl: &Arc<Mutex<Ctl>>, fs: &[&FaultAt], calls: u64, base: &Script) {
    let mut k = ctl.lock().unwrap();
    let now = k.calls;
    let mut s = base.clone();
    for fa in fs {
        place(&mut s, (now + fa.at as u64 % calls.max(1)) as u32, Act::Fail(fa.fault));
        k.sticky = fa.sticky;
    }
    k.script = s;
}
pub fn heal(ctl: &Arc<Mutex<Ctl>>, base: &Script) {
    let mut k = ctl.lock().unwrap();
    k.script = base.clone();
    k.dead = None;
    k.sticky = false;
}

/// Distances are compared with what is stored only for data that keep them finite.
pub fn knn_ok(m: &Model, op: &Op) -> bool {
    !matches!(op, Op::Knn { .. }) || m.stored.iter().all(|x| x.abs() < 1e100)
}

pub fn run_c07(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    let hard = run_history(c, &m, st)?;
    st.nontrivial = hard > 0;
    Ok(())
}

/// Must this call be refused, whatever the I/O does?
fn refused(m: &Model, op: &Op) -> bool {
    match op {
        Op::Knn { target } => target.is_empty(),
        Op::Matmul { target, tshape, dshape } => matmul_model(&m.stored, target, *tshape, *dshape).is_none(),
        _ => false,
    }
}

/// A query history on one decoder. Faults (stream 0; op 0 = open, op i+1 = query i) hit the calls of their step; a
/// failed step is repeated after the fault cleared. Returns the number of failures delivered.
pub fn run_history(c: &Case, m: &Model, st: &mut Stats) -> Res<u64> {
    let f = &m.spec;
    let base = c.script(0);
    let buffered = c.get("rd_buf") != 0;
    let prec = (c.get("prec") > 0).then(|| c.get("prec") as u32 - 1);
    let coarse = |d: &mut Dec| {
        if let Some(p) = prec {
            let _ = ask(d, &Op::Precision(p), None);
        }
    };
    // fault-free pass: how many calls does every step make?
    let mut calls = vec![0; c.ops.len() + 1];
    if !c.faults.is_empty() {
        let (rd, ctl) = reader_for(&m.bytes, &base);
        let mut d = open(rd, buffered).or_viol("open-failed", "opening a complete file failed")?;
        coarse(&mut d);
        let mut last = 0;
        let mut note = |i: usize, ctl: &Arc<Mutex<Ctl>>| {
            let k = ctl.lock().unwrap().calls;
            calls[i] = k - last;
            last = k;
        };
        note(0, &ctl);
        for (i, op) in c.ops.iter().enumerate() {
            let _ = ask(&mut d, op, None);
            note(i + 1, &ctl);
        }
    }
    let (rd, ctl) = reader_for(&m.bytes, &base);
    let of = |i: usize| -> Vec<&FaultAt> { c.faults.iter().filter(|f| f.op == i).collect() };
    let hard = |ctl: &Arc<Mutex<Ctl>>| ctl.lock().unwrap().hard;
    arm(&ctl, &of(0), calls[0], &base);
    let mut d = match open(rd.clone(), buffered) {
        Ok(d) => {
            heal(&ctl, &base);
            d
        }
        Err(e) => {
            if hard(&ctl) == 0 {
                return viol("spurious-error", format!("opening failed although nothing went wrong: {e}"));
            }
            st.add("reported_open_failures", 1);
            heal(&ctl, &base);
            open(rd, buffered).or_viol("not-recovered", "opening again after the fault cleared failed")?
        }
    };
    coarse(&mut d);
    let mut pending: Vec<usize> = vec![];
    let mut outage = 0;
    let again = |d: &mut Dec, j: usize| -> Res {
        let what = format!("query {j} ({}) on {}", describe(&c.ops[j]), f.describe());
        let a = ask(d, &c.ops[j], None).or_viol("not-recovered", &format!("{what} fails again after the fault cleared"))?;
        judge(m, &c.ops[j], &a, prec).or_viol("not-recovered", &format!("{what}, repeated after a failed attempt"))
    };
    for (i, op) in c.ops.iter().enumerate() {
        if !knn_ok(m, op) {
            continue;
        }
        let h0 = hard(&ctl);
        let fs = of(i + 1);
        if outage > 0 {
            outage -= 1;
        } else {
            heal(&ctl, &base);
            if c.get("retry") == 1 {
                for j in std::mem::take(&mut pending) {
                    if j + 1 < i {
                        again(&mut d, j)?;
                    } else {
                        pending.push(j);
                    }
                }
            }
            if !fs.is_empty() {
                arm(&ctl, &fs, calls[i + 1], &base);
            }
        }
        let a = ask(&mut d, op, None);
        mix_ans(st, &a);
        st.add("queries", 1);
        let what = format!("query {i} ({}) on {}", describe(op), f.describe());
        if refused(m, op) {
            if a.is_ok() {
                return viol("not-refused", format!("{what} was answered although its arguments do not fit"));
            }
            st.add("refused", 1);
            continue;
        }
        match a {
            Err(e) => {
                if hard(&ctl) == h0 {
                    return viol("spurious-error", format!("{what} failed although nothing went wrong: {e}"));
                }
                st.add("reported_query_failures", 1);
                if outage == 0 && ctl.lock().unwrap().dead.is_some() {
                    outage = c.get("outage");
                }
                if c.get("retry") == 0 && outage == 0 {
                    heal(&ctl, &base);
                    again(&mut d, i)?;
                } else {
                    pending.push(i);
                }
            }
            Ok(a) => judge(m, op, &a, prec).or_viol("wrong-answer", &format!("{what}{}", if c.faults.is_empty() { "" } else { " under read failures" }))?,
        }
    }
    heal(&ctl, &base);
    for j in pending {
        again(&mut d, j)?;
    }
    let k = ctl.lock().unwrap();
    st.absorb(&k);
    Ok(k.hard)
}

// ---------------------------------------------------------------- C08

pub fn gen_c08(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C08");
    let f = gen_small(r);
    let n = 1 + r.us(5);
    for _ in 0..n {
        let op = loop {
            let q = next_query(r, &f, c.ops.last());
            if matches!(q, Op::Mat { .. } | Op::FiltMat { .. }) || r.chance(1, 6) {
                break q;
            }
        };
        c.ops.push(op);
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 40));
    c.scripts.push(maybe_benign(r, 200));
    c.put("rd_buf", r.chance(1, 2) as i64);
    c.put("sink_buf", r.chance(1, 3) as i64);
    if r.chance(3, 4) {
        for _ in 0..1 + r.us(3) {
            c.faults.push(FaultAt {
                stream: 1,
                op: r.us(n),
                at: r.below(1 << 20) as u32,
                fault: *r.pick(&WRITE_FAULTS),
                sticky: r.chance(2, 3),
            });
        }
    }
    if r.chance(1, 5) {
        c.put("cap", 1 + r.below(1 << 16) as i64);
    }
    c
}

pub fn run_c08(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    let (rd, ctl) = reader_for(&m.bytes, &c.script(0));
    let mut d = open(rd, c.get("rd_buf") != 0).or_viol("open-failed", "opening a complete file failed")?;
    let buffered = c.get("sink_buf") != 0;
    let base = c.script(1);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("query {i} ({}) on {}", describe(op), f.describe());
        // the right output, from a healthy run on another decoder
        let mut h = Dec::Raw(plain_decoder(&m.bytes).or_viol("open-failed", "opening a complete file failed")?);
        let ictl = Ctl::arc(&base);
        let good = ask(&mut h, op, Some((SimSink::new(ictl.clone(), None, false), buffered))).or_viol("query-failed", &what)?;
        judge(&m, op, &good, None).or_viol("wrong-answer", &what)?;
        let calls = ictl.lock().unwrap().calls;
        let Ans::Bytes(good) = good else {
            let a = ask(&mut d, op, None).or_viol("query-failed", &format!("{what} after sink failures"))?;
            judge(&m, op, &a, None).or_viol("wrong-answer", &format!("{what} after sink failures"))?;
            continue;
        };
        let sctl = Ctl::arc(&base);
        let mut sticky = false;
        for fa in c.faults.iter().filter(|x| x.op == i) {
            let mut k = sctl.lock().unwrap();
            place(&mut k.script, (fa.at as u64 % calls.max(1)) as u32, Act::Fail(fa.fault));
            k.sticky = fa.sticky;
            sticky |= fa.sticky;
        }
        let cap = match c.get("cap") {
            0 => None,
            k => Some(k as u64 % (good.len() as u64 + 1)),
        };
        let sink = SimSink::new(sctl.clone(), cap, false);
        let a = ask(&mut d, op, Some((sink.clone(), buffered)));
        mix_ans(st, &a);
        let hard = sctl.lock().unwrap().hard;
        st.absorb(&sctl.lock().unwrap());
        let got = sink.content();
        match a {
            Err(e) => {
                if hard == 0 {
                    return viol("spurious-error", format!("{what} failed although nothing went wrong: {e}"));
                }
                st.add("reported_sink_failures", 1);
                if !good.starts_with(&got) {
                    return viol("not-a-prefix", format!("{what}: the failed call left {} bytes that are not a prefix of the right {} bytes", got.len(), good.len()));
                }
            }
            Ok(_) => {
                if hard > 0 && (sticky || cap.is_some()) {
                    return viol("silent-failure", format!("{what} reported success although its sink failed for good"));
                }
                if got != good {
                    return viol("wrong-output", format!("{what} reported success with {} bytes in the sink, other than the right {}", got.len(), good.len()));
                }
            }
        }
    }
    st.absorb(&ctl.lock().unwrap());
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn gen_c09(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C09");
    let scheme = gen_scheme(r);
    let max_n = if r.chance(1, 20) { 2500 } else { 300 };
    let mut f = loop {
        let f = gen_file_for(r, scheme, Gen { max_n, tame: true, allow_empty: false, tail: false });
        if f.data.len() > 3 {
            break f;
        }
    };
    if r.chance(3, 4) {
        let parts = 2 + r.us(12);
        f.chunk = Chunk::Rec((f.data.len() / parts).max(1));
    }
    for _ in 0..1 + r.us(6) {
        let q = next_query(r, &f, c.ops.last());
        c.ops.push(q);
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 60));
    // damaged chunks, as a bit pattern per chunk number; mode 0 unreadable, 1 overwritten
    for _ in 0..4 {
        c.picks.push(r.u64() as u32);
    }
    c.put("mode", r.us(3) as i64);
    c.put("rd_buf", r.chance(1, 4) as i64);
    c
}

pub fn run_c09(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    let nc = m.n_chunks();
    let mode = c.get("mode");
    let buffered = c.get("rd_buf") != 0;
    for (i, op) in c.ops.iter().enumerate() {
        let (bm, chunk) = chunk_of(op).unwrap();
        let needed = m.needed_chunks(bm, chunk);
        let pick = c.picks.get(i % c.picks.len().max(1)).copied().unwrap_or(0);
        let mut r = Rng::new(pick as u64, "damage", i as u64);
        // mode 0: every chunk the query does not need is unreadable; 1: overwritten; 2: any chunks unreadable
        let damaged: Vec<usize> = match mode {
            0 | 1 => (0..nc).filter(|k| !needed.contains(k)).collect(),
            _ => (0..nc).filter(|_| r.chance(1, 3)).collect(),
        };
        let mut bytes = m.bytes.clone();
        if mode == 1 && !damaged.is_empty() {
            let mut b = (*bytes).clone();
            for k in &damaged {
                for x in &mut b[m.phys[*k] as usize..m.phys[*k + 1] as usize] {
                    *x = r.u64() as u8;
                }
            }
            bytes = Arc::new(b);
            st.add("chunks_overwritten", damaged.len() as u64);
        }
        let (rd, ctl) = reader_for(&bytes, &c.script(0));
        let mut d = open(rd, buffered).or_viol("open-failed", "opening a file with intact metadata failed")?;
        {
            let mut k = ctl.lock().unwrap();
            k.track_ranges = true;
            if mode != 1 {
                k.bad = damaged.iter().map(|k| (m.phys[*k], m.phys[*k + 1])).collect();
                st.add("chunks_made_unreadable", damaged.len() as u64);
            }
        }
        let a = ask(&mut d, op, None);
        mix_ans(st, &a);
        st.nontrivial |= !damaged.is_empty();
        let hit = needed.iter().any(|k| damaged.contains(k));
        let what = format!("query {i} ({}) that needs chunks {needed:?} of {nc}, with chunks {damaged:?} damaged ({})", describe(op), f.describe());
        match a {
            Err(e) => {
                // a buffered reader fetches ahead into neighbouring chunks, which is not the library's choice
                if !hit && !(buffered && mode != 1) {
                    return viol("not-isolated", format!("{what} failed: {e}"));
                }
                st.add("reported_damage", 1);
            }
            Ok(a) => judge(&m, op, &a, None).or_viol(if hit { "wrong-answer" } else { "not-isolated" }, &what)?,
        }
        if !buffered {
            for (a, b) in ctl.lock().unwrap().ranges.iter() {
                for k in 0..nc {
                    if *a < m.phys[k + 1] && *b > m.phys[k] && !needed.contains(&k) {
                        return viol("not-isolated", format!("{what} read bytes {a}..{b}, which belong to chunk {k}"));
                    }
                }
            }
        }
        st.absorb(&ctl.lock().unwrap());
    }
    Ok(())
}
