//! Histories of operations on one open chunk (C13).
use super::encode::place;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::api::decoder::ChunkId;
use ebi::time::SegmentedExecutionTimes;
use std::io::{BufWriter, Write};

pub fn gen_c13(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C13");
    let scheme = gen_scheme(r);
    let max_n = if r.chance(1, 15) { 2500 } else { 200 };
    let f = if r.chance(1, 600) { gen_huge(r, scheme) } else { gen_file_for(r, scheme, Gen { max_n, tame: true, allow_empty: false, tail: false }) };
    let n_ops = 2 + r.us(9);
    let n = f.data.len();
    let tgt = |r: &mut Rng, f: &FileSpec| -> Vec<u64> {
        let l = r.us(n.min(40) + 3);
        let from = r.us(n);
        (0..l)
            .map(|i| if from + i < n && r.chance(1, 2) { f.data[from + i] } else { (r.range(-400, 400) as f64 / 4.0).to_bits() })
            .collect()
    };
    for _ in 0..n_ops {
        let op = match r.below(12) {
            0 => Op::Decompress,
            1 | 2 => Op::Iter(if r.chance(1, 2) { r.us(n + 2) } else { usize::MAX >> 1 }),
            3 => Op::Dist { off: r.us(n + 2), target: tgt(r, &f) },
            4 => Op::Dot { off: r.us(n + 2), target: tgt(r, &f) },
            6 => if r.chance(1, 2) { Op::CacheGet } else { Op::CacheSet },
            5 if scheme == Scheme::Buff => Op::ChunkPrecision(r.below(16) as u32),
            _ => next_query(r, &f, c.ops.last()),
        };
        c.ops.push(op);
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 40));
    c.scripts.push(maybe_benign(r, 100));
    c.picks.push(r.u64() as u32);
    c.picks.push(r.u64() as u32);
    if r.chance(1, 2) {
        for _ in 0..1 + r.us(3) {
            c.faults.push(FaultAt {
                stream: 1,
                op: r.us(n_ops),
                at: if r.chance(1, 2) { r.below(4) as u32 } else { r.below(300) as u32 },
                fault: *r.pick(&WRITE_FAULTS),
                sticky: r.chance(1, 2),
            });
        }
    }
    c.put("sink_buf", r.chance(1, 4) as i64);
    c
}

pub fn run_c13(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    if m.n_chunks() == 0 {
        return Ok(());
    }
    let (rd, ctl) = reader_for(&m.bytes, &c.script(0));
    let Dec::Raw(mut d) = open(rd, false).or_viol("open-failed", "opening a complete file failed")? else { unreachable!() };
    for (pi, p) in c.picks.iter().enumerate() {
        let k = *p as usize % m.n_chunks();
        let (a, b) = m.chunk_range(k);
        let mut ch = d.chunk_reader(ChunkId::new(k)).map_err(|e| format!("{e}")).or_viol("open-failed", "opening a chunk failed")?;
        let mut prec: Option<u32> = None;
        for (i, op) in c.ops.iter().enumerate() {
            let what = format!(
                "operation {i} ({}) on chunk {k} of {} ({}) after {:?}",
                describe(op),
                m.n_chunks(),
                f.describe(),
                c.ops[..i].iter().map(|o| describe(o).chars().take(24).collect::<String>()).collect::<Vec<_>>()
            );
            let e = |r: Result<f64, ebi::decoder::error::DecoderError>| r.map_err(|e| format!("{e}")).or_viol("operation-failed", &what);
            let mut t = SegmentedExecutionTimes::new();
            st.add("chunk_operations", 1);
            match op {
                Op::ChunkPrecision(p) => {
                    ch.with_precision(*p);
                    prec = Some(*p);
                }
                Op::Decompress => {
                    let v = ch.inner_mut().decompress(&mut t).map_err(|e| format!("{e}")).or_viol("operation-failed", &what)?.to_vec();
                    f.check_values(&v, &m.data[a..b], prec).or_viol("wrong-answer", &what)?;
                }
                Op::CacheGet => {
                    if let Some(v) = ch.inner_mut().decompress_result() {
                        let v = v.to_vec();
                        f.check_values(&v, &m.data[a..b], prec).or_viol("wrong-answer", &what)?;
                    }
                }
                Op::CacheSet if prec.is_none() => {
                    let v = ch.inner_mut().set_decompress_result(m.stored[a..b].to_vec()).to_vec();
                    f.check_values(&v, &m.data[a..b], prec).or_viol("wrong-answer", &what)?;
                }
                Op::Iter(l) => {
                    let it = ch.inner_mut().decompress_iter().map_err(|e| format!("{e}")).or_viol("operation-failed", &what)?;
                    let mut v = vec![];
                    // a broken iterator may never end
                    for x in it.take((*l).min(b - a + 5)) {
                        v.push(x.map_err(|e| format!("{e}")).or_viol("operation-failed", &what)?);
                    }
                    let want = &m.data[a..a + (*l).min(b - a)];
                    f.check_values(&v, want, prec).or_viol("wrong-answer", &what)?;
                }
                Op::Dist { off, target } | Op::Dot { off, target } => {
                    let dist = matches!(op, Op::Dist { .. });
                    let tv: Vec<f64> = target.iter().map(|b| f64::from_bits(*b)).collect();
                    let g = e(if dist { ch.distance_squared(*off, &tv) } else { ch.dot_product(*off, &tv) })?;
                    st.mix(g.to_bits());
                    if prec.is_some() {
                        continue;
                    }
                    let s = &m.stored[a..b];
                    let terms: Vec<f64> = s
                        .iter()
                        .skip(*off)
                        .zip(&tv)
                        .map(|(x, y)| if dist { (x - y) * (x - y) } else { x * y })
                        .collect();
                    sum_close(g, &terms, 0.0).or_viol("wrong-answer", &what)?;
                }
                Op::Mat { bm, .. } | Op::FiltMat { bm, .. } => {
                    let sctl = Ctl::arc(&c.script(1));
                    for fa in c.faults.iter().filter(|x| x.op == i) {
                        let mut k = sctl.lock().unwrap();
                        place(&mut k.script, fa.at, Act::Fail(fa.fault));
                        k.sticky = fa.sticky;
                    }
                    let sink = SimSink::new(sctl.clone(), None, false);
                    let bmv = mask_bm(bm);
                    let r = if c.get("sink_buf") != 0 {
                        let mut w = BufWriter::new(sink.clone());
                        match op {
                            Op::Mat { .. } => ch.materialize(&mut w, bmv.as_ref()),
                            Op::FiltMat { pred, .. } => ch.filter_materialize(&mut w, pred.to(), bmv.as_ref()),
                            _ => unreachable!(),
                        }
                        .map_err(|e| format!("{e}"))
                        .and_then(|_| w.flush().map_err(|e| format!("{e}")))
                    } else {
                        let mut w = sink.clone();
                        match op {
                            Op::Mat { .. } => ch.materialize(&mut w, bmv.as_ref()),
                            Op::FiltMat { pred, .. } => ch.filter_materialize(&mut w, pred.to(), bmv.as_ref()),
                            _ => unreachable!(),
                        }
                        .map_err(|e| format!("{e}"))
                    };
                    let hard = sctl.lock().unwrap().hard;
                    st.absorb(&sctl.lock().unwrap());
                    match r {
                        Ok(()) => {
                            let op = at_chunk(op, k);
                            judge(&m, &op, &Ans::Bytes(sink.content()), prec).or_viol("wrong-answer", &what)?
                        }
                        Err(_) if hard > 0 => st.add("reported_sink_failures", 1),
                        Err(e) => return viol("operation-failed", format!("{what}: {e}")),
                    }
                }
                Op::Filter { pred, bm, .. } => {
                    let g = ch.filter(pred.to(), mask_bm(bm).as_ref()).map_err(|e| format!("{e}")).or_viol("operation-failed", &what)?;
                    st.mix(g.len());
                    judge(&m, &at_chunk(op, k), &Ans::Bits(g), None).or_viol("wrong-answer", &what)?;
                }
                Op::Sum { bm, .. } | Op::Min { bm, .. } | Op::Max { bm, .. } => {
                    let bmv = mask_bm(bm);
                    let g = e(match op {
                        Op::Sum { .. } => ch.sum(bmv.as_ref()),
                        Op::Min { .. } => ch.min(bmv.as_ref()),
                        _ => ch.max(bmv.as_ref()),
                    })?;
                    st.mix(g.to_bits());
                    judge(&m, &at_chunk(op, k), &Ans::Num(g), None).or_viol("wrong-answer", &what)?;
                }
                _ => {}
            }
        }
        st.nontrivial |= c.ops.len() > 1;
        let _ = pi;
    }
    st.absorb(&ctl.lock().unwrap());
    Ok(())
}

/// The same query, restricted to chunk `k`.
pub fn at_chunk(op: &Op, k: usize) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Mat { chunk, .. }
        | Op::Filter { chunk, .. }
        | Op::FiltMat { chunk, .. }
        | Op::Sum { chunk, .. }
        | Op::Min { chunk, .. }
        | Op::Max { chunk, .. } => *chunk = Some(k),
        _ => {}
    }
    o
}
