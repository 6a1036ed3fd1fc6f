//! Memory after failures (C18): every failing call is repeated, and whole lives are run twice, under a counting allocator.
use super::encode::place;
use super::multi::{do_step, judge_agg, shapeless, steps};
use super::query::{arm, heal, knn_ok};
use crate::alloc;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput};
use ebi::time::SegmentedExecutionTimes;
use std::io::{BufReader, Read, Seek};
use std::sync::{Arc, Mutex};

pub fn gen_c18(r: &mut Rng, index: u64) -> Case {
    // columns and aggregates as for C12, then more kinds of calls
    let mut c = super::multi::gen_c12(r, index);
    if c.files[0].cuts_many() {
        // every call is repeated many times here
        for f in &mut c.files {
            f.chunk = Chunk::Rec(1000);
        }
    }
    c.prop = "C18".into();
    let f0 = c.files[0].clone();
    let n = f0.data.len();
    for _ in 0..r.us(4) {
        let op = match r.below(6) {
            0 => {
                let l = 1 + r.us(n.min(20));
                Op::Knn { target: (0..l).map(|_| (r.range(-50, 50) as f64 / 2.0).to_bits()).collect() }
            }
            1 => {
                let cols = 1 + r.us(3);
                Op::Matmul { target: (0..cols * 2).map(|_| (r.range(-9, 9) as f64).to_bits()).collect(), tshape: (cols, 2), dshape: (1, cols) }
            }
            2 => Op::Iter(r.us(n + 2)),
            3 => Op::Decompress,
            _ => next_query(r, &f0, c.ops.last()),
        };
        let at = r.us(c.ops.len() + 1);
        c.ops.insert(at, op);
    }
    c.faults.clear();
    for _ in 0..1 + r.us(5) {
        c.faults.push(FaultAt {
            stream: r.us(c.files.len()) as u8,
            op: r.us(c.ops.len()),
            at: if r.chance(1, 2) { r.below(8) as u32 } else { r.below(1 << 20) as u32 },
            fault: *r.pick(&READ_FAULTS),
            sticky: r.chance(1, 2),
        });
    }
    // streams 100..: opening; 200: encoder input; 201: encoder output; 202: materialization sink
    for _ in 0..1 + r.us(4) {
        let stream = *r.pick(&[100u8, 200, 201, 202]);
        c.faults.push(FaultAt { stream, op: 0, at: r.below(14) as u32, fault: *r.pick(&WRITE_FAULTS), sticky: r.chance(1, 2) });
    }
    c.put("out_buf", r.chance(1, 3) as i64);
    c.put("reps", 2 + r.us(4) as i64);
    c
}

/// Run `f` until it is warm, then `reps` more times: the live memory must not move.
fn steady(what: &str, reps: usize, mut f: impl FnMut() -> Res) -> Res {
    f()?;
    f()?;
    let a = alloc::live();
    for _ in 0..reps.max(1) {
        f()?;
    }
    let b = alloc::live();
    if a != b {
        return viol(
            "leak",
            format!("{what}: {} more repetitions left {} more bytes in {} more blocks allocated", reps.max(1), b.0 - a.0, b.1 - a.1),
        );
    }
    Ok(())
}

pub fn run_c18(c: &Case, st: &mut Stats) -> Res {
    if c.files.is_empty() {
        return Ok(());
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            alloc::set_strict(false);
        }
    }
    let _off = Off;
    alloc::take_smashed();
    alloc::set_strict(true);
    let mut ms = vec![];
    for f in &c.files {
        ms.push(Model::new(f)?);
    }
    let n = st.more.len();
    let r = if c.get("rd_buf") != 0 {
        lives(c, &ms, st, |rd| Decoder::new(DecoderInput::from_reader(BufReader::new(rd))).map_err(|e| format!("{e}")))
    } else {
        lives(c, &ms, st, |rd| Decoder::new(DecoderInput::from_reader(rd)).map_err(|e| format!("{e}")))
    };
    let _ = n;
    let smashed = alloc::take_smashed();
    if smashed > 0 {
        return viol("memory-overrun", format!("{smashed} heap blocks were written past their end"));
    }
    r
}

fn lives<R: Read + Seek>(c: &Case, ms: &[Model], st: &mut Stats, open: impl Fn(SimReader) -> Result<Decoder<R>, String>) -> Res {
    // two lives of everything, ends included; the second must give back all it took
    let mut k = Counts::default();
    life(c, ms, &mut k, &open)?;
    let a = alloc::live();
    let mut k2 = Counts::default();
    life(c, ms, &mut k2, &open)?;
    let b = alloc::live();
    if a != b {
        return viol("leak", format!("opening, failing, querying, encoding and closing everything left {} bytes in {} blocks allocated", b.0 - a.0, b.1 - a.1));
    }
    for i in 0..12 {
        st.fired[i] += k.fired[i];
    }
    st.io_calls += k.calls;
    st.mix(k.hash);
    st.add("failed_calls", k.failed);
    st.add("successful_calls", k.fine);
    st.nontrivial |= k.failed > 0;
    Ok(())
}

#[derive(Default)]
struct Counts {
    fired: [u64; 12],
    calls: u64,
    hash: u64,
    failed: u64,
    fine: u64,
}
impl Counts {
    fn absorb(&mut self, c: &Ctl) {
        for i in 0..12 {
            self.fired[i] += c.fired[i];
        }
        self.calls += c.calls;
        self.hash = self.hash.rotate_left(7) ^ c.hash;
    }
    fn note(&mut self, ok: bool) {
        if ok {
            self.fine += 1
        } else {
            self.failed += 1
        }
    }
}

fn life<R: Read + Seek>(c: &Case, ms: &[Model], k: &mut Counts, open: &impl Fn(SimReader) -> Result<Decoder<R>, String>) -> Res {
    let reps = c.get("reps").clamp(1, 20) as usize;
    let with = |base: &Script, stream: u8| -> (Script, bool) {
        let mut s = base.clone();
        let mut sticky = false;
        for f in c.faults.iter().filter(|f| f.stream == stream) {
            place(&mut s, f.at, Act::Fail(f.fault));
            sticky = f.sticky;
        }
        (s, sticky)
    };
    // failing to open
    let (s, sticky) = with(&c.script(0), 100);
    if s != c.script(0) {
        steady("opening a file whose reads fail", reps, || {
            let ctl = Ctl::arc(&s);
            ctl.lock().unwrap().sticky = sticky;
            let d = open(SimReader::new(ms[0].bytes.clone(), ctl.clone()));
            k.note(d.is_ok());
            k.absorb(&ctl.lock().unwrap());
            Ok(())
        })?;
    }
    // failing to encode
    let (si, sticky_i) = with(&Script::default(), 200);
    let (so, sticky_o) = with(&Script::default(), 201);
    if !si.is_plain() || !so.is_plain() {
        let bytes = Arc::new(c.files[0].input_bytes());
        steady(&format!("an encoding whose streams fail ({})", c.files[0].describe()), reps, || {
            let (i, o) = (Ctl::arc(&si), Ctl::arc(&so));
            i.lock().unwrap().sticky = sticky_i;
            o.lock().unwrap().sticky = sticky_o;
            let sink = SimSink::new(o.clone(), None, false);
            let r = encode_sim(&c.files[0], SimReader::new(bytes.clone(), i.clone()), sink.clone(), false, c.get("out_buf") != 0);
            k.note(r.is_ok());
            k.absorb(&i.lock().unwrap());
            k.absorb(&o.lock().unwrap());
            Ok(())
        })?;
    }
    if ms.iter().any(|m| m.cuts != ms[0].cuts) || ms[0].n() == 0 {
        return Ok(());
    }
    // queries, chunk operations and aggregates on open files
    let mut ctls: Vec<Arc<Mutex<Ctl>>> = vec![];
    let mut ds = vec![];
    for (i, m) in ms.iter().enumerate() {
        let (rd, ctl) = reader_for(&m.bytes, &c.script(i));
        ds.push(open(rd).or_viol("open-failed", "opening a complete file failed")?);
        ctls.push(ctl);
    }
    let (ss, sticky_s) = with(&Script::default(), 202);
    for s in steps(c) {
        let op = &c.ops[s.0];
        if !knn_ok(&ms[0], op) {
            continue;
        }
        let what = format!("{} on {} column(s), the first {}", describe_any(op), ms.len(), c.files[0].describe());
        let fs: Vec<(usize, Vec<&FaultAt>)> = (0..ms.len())
            .map(|i| (i, c.faults.iter().filter(|f| f.op >= s.0 && f.op < s.1 && f.stream as usize == i).collect::<Vec<_>>()))
            .filter(|x| !x.1.is_empty())
            .collect();
        let sink = !ss.is_plain() && matches!(op, Op::Mat { .. } | Op::FiltMat { .. });
        let act = |ds: &mut Vec<Decoder<R>>, bad_sink: bool| -> Result<Answer, String> {
            match op {
                Op::Agg { .. } => do_step(c, s, ds).map(Answer::Agg),
                Op::Iter(l) => {
                    // one chunk, part of it iterated, the rest dropped
                    let mut ch = ds[0].chunk_reader(ChunkId::new(0)).map_err(|e| format!("{e}"))?;
                    let mut n = 0;
                    for x in ch.inner_mut().decompress_iter().map_err(|e| format!("{e}"))?.take(*l) {
                        x.map_err(|e| format!("{e}"))?;
                        n += 1;
                    }
                    Ok(Answer::Len(n))
                }
                Op::Decompress => {
                    let mut ch = ds[0].chunk_reader(ChunkId::new(0)).map_err(|e| format!("{e}"))?;
                    let mut t = SegmentedExecutionTimes::new();
                    let n = ch.inner_mut().decompress(&mut t).map_err(|e| format!("{e}"))?.len();
                    Ok(Answer::Len(n))
                }
                _ => {
                    let sk = bad_sink.then(|| {
                        let ctl = Ctl::arc(&ss);
                        ctl.lock().unwrap().sticky = sticky_s;
                        (SimSink::new(ctl, None, false), c.get("out_buf") != 0)
                    });
                    crate::sess::query(&mut ds[0], op, sk).map(Answer::One)
                }
            }
        };
        if !fs.is_empty() || sink {
            // calls of one undisturbed attempt, to place the faults
            let c0: Vec<u64> = ctls.iter().map(|x| x.lock().unwrap().calls).collect();
            let _ = act(&mut ds, false);
            let n: Vec<u64> = ctls.iter().zip(&c0).map(|(x, a)| x.lock().unwrap().calls - a).collect();
            steady(&format!("failing {what}"), reps, || {
                for (i, f) in &fs {
                    arm(&ctls[*i], f, n[*i], &c.script(*i));
                }
                let a = act(&mut ds, sink);
                k.note(a.is_ok());
                drop(a);
                for (i, x) in ctls.iter().enumerate() {
                    heal(x, &c.script(i));
                }
                Ok(())
            })?;
        }
        // the same call undisturbed: right, and as steady
        let mut bad: Option<String> = None;
        steady(&what, reps, || {
            let a = act(&mut ds, false);
            let r = match a {
                Ok(a) => judge_any(c, ms, s, op, &a),
                Err(e) => {
                    let refused = match op {
                        Op::Matmul { target, tshape, dshape } => matmul_model(&ms[0].stored, target, *tshape, *dshape).is_none(),
                        Op::Agg { .. } => c.ops[s.0..s.1].iter().any(|o| matches!(o, Op::Agg { expr, .. } if shapeless(expr))),
                        _ => false,
                    };
                    if refused {
                        Ok(())
                    } else {
                        Err(e)
                    }
                }
            };
            if bad.is_none() {
                bad = r.err();
            }
            k.fine += 1;
            Ok(())
        })
        .or_else(|e| if bad.is_some() { Ok(()) } else { Err(e) })?;
        if let Some(e) = bad {
            return viol("wrong-answer", format!("{what}, after failures: {e}"));
        }
    }
    for x in &ctls {
        k.absorb(&x.lock().unwrap());
    }
    Ok(())
}

enum Answer {
    Agg(Vec<ebi::api::decoder::AggregationResult>),
    One(Ans),
    Len(usize),
}

fn judge_any(c: &Case, ms: &[Model], s: (usize, usize), op: &Op, a: &Answer) -> Result<(), String> {
    match (a, op) {
        (Answer::One(a), _) => judge(&ms[0], op, a, None),
        (Answer::Len(n), Op::Iter(l)) => {
            let want = (*l).min(ms[0].cuts[1]);
            if *n == want { Ok(()) } else { Err(format!("{n} records instead of {want}")) }
        }
        (Answer::Len(n), _) => {
            if *n == ms[0].cuts[1] { Ok(()) } else { Err(format!("{n} records instead of {}", ms[0].cuts[1])) }
        }
        (Answer::Agg(v), _) => {
            for (o, g) in c.ops[s.0..s.1].iter().zip(v) {
                if let Op::Agg { kind, expr, bm, .. } = o {
                    // aggregates computed together share the first one's bitmap
                    let bm = match &c.ops[s.0] {
                        Op::Agg { bm, .. } => bm,
                        _ => bm,
                    };
                    judge_agg(*kind, expr, bm, ms, g)?;
                }
            }
            Ok(())
        }
    }
}

fn describe_any(op: &Op) -> String {
    match op {
        Op::Agg { kind, expr, .. } => format!("aggregate {kind} of {expr:?}"),
        Op::Iter(n) => format!("iterating over {n} records of chunk 0"),
        Op::Decompress => "decompressing chunk 0".into(),
        _ => describe(op),
    }
}
