//! Recorded times against the simulated clock (C15).
use super::encode::{encode_case, gen_clock, run_clock};
use super::query::{arm, ask, heal};
use crate::case::*;
use crate::each;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::compressor::Compressor;
use ebi::time::{sim_clock, SegmentedExecutionTimes};

/// Delays on a few calls, or on every call, with or without fragmentation.
fn slow(r: &mut Rng, calls: usize) -> Script {
    let base = match r.below(6) {
        0 => Act::Delay(1 + r.us(5000) as u32),
        1 => Act::DelayShort(1 + r.us(500) as u32, 1 + r.us(300) as u32),
        2 => Act::Short(1 + r.us(300) as u32),
        3 => Act::Flaky(1 + r.us(60) as u32),
        _ => Act::Full,
    };
    let mut at = vec![];
    for _ in 0..r.us(10) {
        let i = r.us(calls.max(1)) as u32;
        let a = match r.below(6) {
            0 => Act::Intr,
            1 => Act::DelayShort(1 + r.us(100_000) as u32, 1 + r.us(40) as u32),
            // hours: more than 2^32 ns and 2^32 us
            2 => Act::Delay(u32::MAX - r.us(1000) as u32),
            _ => Act::Delay(1 + r.us(1_000_000) as u32),
        };
        at.push((i, a));
    }
    at.sort_by_key(|x| x.0);
    at.dedup_by_key(|x| x.0);
    Script { base, at }
}

pub fn gen_c15(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C15");
    let max_n = if r.chance(1, 15) { 2500 } else { 150 };
    let tail = r.chance(1, 5);
    let f = gen_file(r, Gen { max_n, tame: true, allow_empty: true, tail });
    let k = 6 + guess_cuts(&f).len() * 3;
    let n = f.data.len();
    let n_ops = if n == 0 { 0 } else { r.us(6) };
    for _ in 0..n_ops {
        let op = match r.below(8) {
            0 => {
                let l = 1 + r.us(n);
                Op::Knn { target: (0..l).map(|_| (r.range(-50, 50) as f64 / 2.0).to_bits()).collect() }
            }
            1 => {
                let cols = 1 + r.us(4);
                let out = 1 + r.us(3);
                Op::Matmul {
                    target: (0..cols * out).map(|_| (r.range(-9, 9) as f64).to_bits()).collect(),
                    tshape: (cols, out),
                    dshape: (1, cols),
                }
            }
            _ => next_query(r, &f, c.ops.last()),
        };
        c.ops.push(op);
    }
    c.files.push(f);
    c.scripts.push(slow(r, k));
    c.scripts.push(slow(r, k));
    c.scripts.push(slow(r, 8 + k * n_ops / 2));
    c.scripts.push(slow(r, n.max(1)));
    for k in ["in_buf", "out_buf", "rd_buf", "sink_buf"] {
        c.put(k, r.chance(1, 4) as i64);
    }
    if n_ops > 0 && r.chance(1, 4) {
        for _ in 0..1 + r.us(2) {
            c.faults.push(FaultAt { stream: 2, op: r.us(n_ops), at: r.below(6) as u32, fault: *r.pick(&READ_FAULTS), sticky: r.chance(1, 3) });
        }
    }
    gen_clock(r, &mut c);
    c
}

fn all(t: &SegmentedExecutionTimes) -> [(&'static str, u128); 9] {
    [
        ("io_read", t.io_read().as_nanos()),
        ("io_write", t.io_write().as_nanos()),
        ("xor", t.xor().as_nanos()),
        ("delta", t.delta().as_nanos()),
        ("quantization", t.quantization().as_nanos()),
        ("bit_packing", t.bit_packing().as_nanos()),
        ("compare_insert", t.compare_insert().as_nanos()),
        ("sum", t.sum().as_nanos()),
        ("decompression", t.decompression().as_nanos()),
    ]
}

/// `rd`/`wr`: nanoseconds of delay delivered to reads and writes; `passed`: clock time of the whole call.
fn judge_times(t: &SegmentedExecutionTimes, rd: u64, wr: u64, exact_wr: bool, tick: bool, passed: u64) -> Result<(), String> {
    let a = all(t);
    let sum: u128 = a.iter().map(|x| x.1).sum();
    let (rd, wr, passed) = (rd as u128, wr as u128, passed as u128);
    if sum > passed {
        return Err(format!("segments add up to {sum} ns but only {passed} ns passed: {a:?}"));
    }
    if a[0].1 < rd {
        return Err(format!("reads stalled for {rd} ns, recorded {} ns", a[0].1));
    }
    if exact_wr && a[1].1 < wr {
        return Err(format!("writes stalled for {wr} ns, recorded {} ns", a[1].1));
    }
    if !tick {
        if a[0].1 != rd {
            return Err(format!("reads stalled for {rd} ns and nothing else took time, recorded {} ns", a[0].1));
        }
        if a[1].1 > wr {
            return Err(format!("writes stalled for {wr} ns and nothing else took time, recorded {} ns", a[1].1));
        }
        if let Some(x) = a[2..].iter().find(|x| x.1 != 0) {
            return Err(format!("only I/O took time, yet segment {} recorded {} ns", x.0, x.1));
        }
    }
    Ok(())
}

fn now() -> u64 {
    sim_clock::now().as_nanos() as u64
}

pub fn run_c15(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    run_clock(c);
    let tick = c.get("tick") > 0;
    let t0 = now();
    let e = encode_case(c, st, None, true);
    let t1 = now();
    e.result.or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
    sim_clock::reset(std::time::Duration::from_nanos(t1), std::time::Duration::from_nanos(0));
    let m = Model::from_bytes(f, e.bytes.clone())?;
    let d = plain_decoder(&m.bytes).or_viol("open-failed", "opening a complete file failed")?;
    let foot = *m.phys.last().unwrap();
    let (mut data_delay, mut data_done) = (0u64, t0);
    {
        let s = e.sink.st.lock().unwrap();
        let ws = s.log.iter().filter_map(|x| match x {
            WOp::W(p, b, t) => Some((*p, b.len() as u64, *t)),
            _ => None,
        });
        for ((p, _, t), (_, dl)) in ws.zip(&s.write_delay_log) {
            if p >= HEADER_SIZE as u64 && p < foot || (c.get("out_buf") != 0 && p < foot) {
                data_delay += dl;
            }
            if p >= HEADER_SIZE as u64 && p < foot {
                data_done = data_done.max(t + dl);
            }
        }
    }
    let el = d.footer().compression_elapsed_time().as_nanos();
    let el2 = d.footer().compression_elapsed_time_nano_secs();
    let what = f.describe();
    if el != el2 {
        return viol("elapsed", format!("elapsed time reads {el} ns and {el2} ns ({what})"));
    }
    if el < (data_done - t0) as u128 || el > (t1 - t0) as u128 {
        return viol(
            "elapsed",
            format!("stored elapsed time {el} ns; the last record was written after {} ns and encoding took {} ns ({what})", data_done - t0, t1 - t0),
        );
    }
    let seg = *d.footer().segmented_execution_times();
    judge_times(&seg, e.input_delay, data_delay, c.get("out_buf") == 0, tick, t1 - t0)
        .or_viol("encode-times", &format!("segment times stored in the file ({what})"))?;
    st.mix(el as u64);
    if tick {
        // Every reading of the clock takes the same time: the codec alone, chunk by chunk, needs as many
        let mut want = SegmentedExecutionTimes::new();
        for w in m.cuts.windows(2) {
            run_clock(c);
            let mut g = f.config().build();
            g.compress(&m.data[w[0]..w[1]]).map_err(|e| format!("{e}")).or_viol("codec-failed", &what)?;
            g.prepare();
            if let Some(t) = g.execution_times() {
                want += *t;
            }
        }
        for (x, y) in all(&seg).iter().zip(&all(&want)).skip(2) {
            if x.1 != y.1 {
                return viol("encode-times", format!("segment {} stored in the file is {} ns, its codec took {} ns ({what})", x.0, x.1, y.1));
            }
        }
        st.add("codec_times_compared", 1);
    }

    // queries
    run_clock(c);
    let base = c.script(2);
    let (rd, ctl) = reader_for(&m.bytes, &base);
    let mut d = open(rd, c.get("rd_buf") != 0).or_viol("open-failed", "opening a complete file failed")?;
    let sctl = Ctl::arc(&c.script(3));
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("query {i} ({}) on {what}", describe(op));
        let fs: Vec<&FaultAt> = c.faults.iter().filter(|x| x.op == i).collect();
        if !fs.is_empty() {
            arm(&ctl, &fs, 6, &base);
            let a = ask(&mut d, op, None);
            heal(&ctl, &base);
            st.add(if a.is_err() { "failed_attempts" } else { "unaffected_attempts" }, 1);
        }
        let sink = SimSink::new(sctl.clone(), None, false);
        let (r0, w0, t0) = (ctl.lock().unwrap().delay[0], sctl.lock().unwrap().delay[1], now());
        let a = ask(&mut d, op, Some((sink, c.get("sink_buf") != 0)));
        let (r1, w1, t1) = (ctl.lock().unwrap().delay[0], sctl.lock().unwrap().delay[1], now());
        let a = match a {
            Ok(a) => a,
            Err(_) if matches!(op, Op::Matmul { .. } | Op::Knn { .. }) => continue, // arguments that do not fit
            Err(e) => return viol("query-failed", format!("{what}: {e}")),
        };
        judge(&m, op, &a, None).or_viol("wrong-answer", &what)?;
        let t = each!(&mut d, x => x.segmented_execution_times());
        judge_times(&t, r1 - r0, w1 - w0, c.get("sink_buf") == 0, tick, t1 - t0).or_viol("query-times", &what)?;
        if tick {
            // ... and so does the same query as the first one on an undisturbed decoder
            let mut fresh = open(reader_for(&m.bytes, &Script::default()).0, false).or_viol("open-failed", "opening a complete file failed")?;
            let free = SimSink::new(Ctl::arc(&Script::default()), None, false);
            ask(&mut fresh, op, Some((free, false))).or_viol("query-failed", &what)?;
            let want = each!(&mut fresh, x => x.segmented_execution_times());
            for (x, y) in all(&t).iter().zip(&all(&want)).skip(2) {
                if x.1 != y.1 {
                    return viol("query-times", format!("{what}: segment {} is {} ns, on a new decoder {} ns", x.0, x.1, y.1));
                }
            }
        }
        st.add("timed_queries", 1);
    }
    st.absorb(&ctl.lock().unwrap());
    st.absorb(&sctl.lock().unwrap());
    st.sim_ns += now() - c.get("start").max(0) as u64;
    Ok(())
}
