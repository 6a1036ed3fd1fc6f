//! Aggregates of expressions over several columns (C12).
use super::query::{arm, heal};
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::api::decoder::{Aggregation, AggregationKind, AggregationResult, Decoder, DecoderInput};
use ebi::decoder::expr::{Expr, Op as EOp};
use ebi::time::SegmentedExecutionTimes;
use std::io::{BufReader, Read, Seek};
use std::sync::{Arc, Mutex};

fn gen_expr(r: &mut Rng, cols: usize, depth: u32) -> E {
    if depth == 0 || r.chance(1, 4) {
        return if r.chance(1, 4) { E::Lit(r.pick(&[0.0f64, 1.0, -2.5, 10.0, 0.125, 1e3]).to_bits()) } else { E::Col(r.us(cols)) };
    }
    let op = r.below(4) as u8;
    let a = gen_expr(r, cols, depth - 1);
    let b = gen_expr(r, cols, depth - 1);
    E::Bin(op, Box::new(a), Box::new(b))
}
fn to_expr(e: &E, cols: usize) -> Expr {
    match e {
        E::Lit(b) => Expr::Literal(f64::from_bits(*b)),
        E::Col(i) => Expr::Index(i % cols),
        E::Bin(op, a, b) => Expr::Binary {
            op: [EOp::Add, EOp::Sub, EOp::Mul, EOp::Div][*op as usize % 4],
            lhs: Box::new(to_expr(a, cols)),
            rhs: Box::new(to_expr(b, cols)),
        },
    }
}
fn model_expr(e: &E, i: usize, ms: &[Model]) -> f64 {
    match e {
        E::Lit(b) => f64::from_bits(*b),
        E::Col(k) => ms[k % ms.len()].stored[i],
        E::Bin(op, a, b) => {
            let (x, y) = (model_expr(a, i, ms), model_expr(b, i, ms));
            match op % 4 {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                _ => x / y,
            }
        }
    }
}
/// An operation on two literals, or a lone literal, has no column to take its shape from and is refused.
pub fn shapeless(e: &E) -> bool {
    match e {
        E::Lit(_) => true,
        E::Col(_) => false,
        E::Bin(_, a, b) => {
            let lit = |x: &E| matches!(x, E::Lit(_));
            (lit(a) && lit(b)) || (!lit(a) && shapeless(a)) || (!lit(b) && shapeless(b))
        }
    }
}
const KINDS: [AggregationKind; 4] = [AggregationKind::None, AggregationKind::Max, AggregationKind::Min, AggregationKind::Sum];

pub fn judge_agg(kind: u8, e: &E, bm: &Mask, ms: &[Model], got: &AggregationResult) -> Result<(), String> {
    let want: Vec<f64> = ms[0].selected(bm, None).into_iter().map(|i| model_expr(e, i, ms)).collect();
    match (KINDS[kind as usize % 4], got) {
        (AggregationKind::None, AggregationResult::Array(v)) => {
            if v.len() != want.len() {
                return Err(format!("{} values instead of {}", v.len(), want.len()));
            }
            for (i, (g, w)) in v.iter().zip(&want).enumerate() {
                if !(g == w || (g.is_nan() && w.is_nan())) {
                    return Err(format!("value {i} of {} is {g} instead of {w}", want.len()));
                }
            }
            Ok(())
        }
        (AggregationKind::Max, AggregationResult::Scalar(g)) => {
            let w = want.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            if *g == w { Ok(()) } else { Err(format!("max {g} instead of {w}")) }
        }
        (AggregationKind::Min, AggregationResult::Scalar(g)) => {
            let w = want.iter().cloned().fold(f64::INFINITY, f64::min);
            if *g == w { Ok(()) } else { Err(format!("min {g} instead of {w}")) }
        }
        (AggregationKind::Sum, AggregationResult::Scalar(g)) => sum_close(*g, &want, 0.0),
        (k, g) => Err(format!("{k:?} gave {g:?}")),
    }
}

pub fn gen_c12(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C12");
    let cols = 1 + r.us(4);
    let first = gen_scheme(r);
    let big = r.chance(1, 15);
    let mut f0 = if r.chance(1, 1000) { gen_huge(r, first) } else { gen_file_for(r, first, Gen { max_n: if big { 2000 } else { 150 }, tame: true, allow_empty: false, tail: false }) };
    let n = f0.data.len();
    if let Chunk::Bytes(_) = f0.chunk {
        f0.chunk = Chunk::Rec(1 + r.us(n)); // only record-count and whole-file chunks make columns line up
    }
    let chunk = f0.chunk;
    let many = f0.cuts_many();
    c.files.push(f0);
    for _ in 1..cols {
        // tens of thousands of chunks only with codecs that are quick to set up
        let scheme = if many { *r.pick(&CHEAP) } else { gen_scheme(r) };
        let digits = gen_digits(r, scheme, 7);
        let data = gen_values(r, scheme, digits, n, true);
        c.files.push(FileSpec { scheme, scale: pow10(digits), param: gen_param(r, scheme), chunk, data, tail: 0 });
    }
    let steps = 1 + r.us(4);
    let cuts = guess_cuts(&c.files[0]);
    for _ in 0..steps {
        if r.chance(1, 8) {
            let q = gen_query(r, &c.files[0]);
            c.ops.push(q);
            continue;
        }
        let bm = gen_mask(r, n, &cuts);
        // the same expression again, over another selection or with another aggregate
        if let Some(Op::Agg { kind, expr, bm: old, .. }) = c.ops.last().cloned().filter(|_| r.chance(1, 4)) {
            let (kind, bm) = match r.below(3) {
                0 => (kind, bm),
                1 => (r.below(4) as u8, old),
                _ => (kind, old),
            };
            c.ops.push(Op::Agg { kind, expr, bm, together: false });
            continue;
        }
        for k in 0..1 + r.us(3) {
            let depth = r.below(4) as u32;
            let expr = gen_expr(r, cols, depth);
            c.ops.push(Op::Agg { kind: r.below(4) as u8, expr, bm: bm.clone(), together: k > 0 });
        }
    }
    for _ in 0..cols {
        c.scripts.push(maybe_benign(r, 40));
    }
    c.put("rd_buf", r.chance(1, 3) as i64);
    c.put("multi", r.chance(1, 2) as i64);
    c.put("later", r.chance(1, 2) as i64);
    if r.chance(1, 2) {
        let n_ops = c.ops.len();
        for _ in 0..1 + r.us(3) {
            c.faults.push(FaultAt {
                stream: r.us(cols) as u8,
                op: r.us(n_ops),
                at: r.below(1 << 20) as u32,
                fault: *r.pick(&READ_FAULTS),
                sticky: r.chance(1, 3),
            });
        }
    }
    c
}

pub fn run_c12(c: &Case, st: &mut Stats) -> Res {
    if c.files.is_empty() {
        return Ok(());
    }
    if c.get("rd_buf") != 0 {
        run_with(c, st, |rd| Decoder::new(DecoderInput::from_reader(BufReader::new(rd))).map_err(|e| format!("{e}")))
    } else {
        run_with(c, st, |rd| Decoder::new(DecoderInput::from_reader(rd)).map_err(|e| format!("{e}")))
    }
}

/// One step: a single query on column 0, one aggregate, or several computed together.
pub fn steps(c: &Case) -> Vec<(usize, usize)> {
    let multi = c.get("multi") != 0;
    let mut v: Vec<(usize, usize)> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        match (op, v.last_mut()) {
            (Op::Agg { together: true, .. }, Some(l)) if multi && matches!(c.ops[l.0], Op::Agg { .. }) => l.1 = i + 1,
            _ => v.push((i, i + 1)),
        }
    }
    v
}

pub fn do_step<R: Read + Seek>(c: &Case, (a, b): (usize, usize), ds: &mut [Decoder<R>]) -> Result<Vec<AggregationResult>, String> {
    let cols = ds.len();
    let mut t = SegmentedExecutionTimes::new();
    let make = |op: &Op| match op {
        Op::Agg { kind, expr, .. } => Aggregation::new(KINDS[*kind as usize % 4], to_expr(expr, cols)),
        _ => unreachable!(),
    };
    let Op::Agg { bm, .. } = &c.ops[a] else { unreachable!() };
    let bm = mask_bm(bm);
    if c.get("multi") != 0 {
        let v: Vec<Aggregation> = c.ops[a..b].iter().map(make).collect();
        Aggregation::compute_multiple(&v, ds, bm.as_ref(), &mut t).map_err(|e| format!("{e}"))
    } else {
        make(&c.ops[a]).compute(ds, bm.as_ref(), &mut t).map(|x| vec![x]).map_err(|e| format!("{e}"))
    }
}

fn run_with<R: Read + Seek>(c: &Case, st: &mut Stats, open: impl Fn(SimReader) -> Result<Decoder<R>, String>) -> Res {
    let mut ms = vec![];
    for f in &c.files {
        ms.push(Model::new(f)?);
    }
    // after minimisation the columns may no longer line up
    if ms.iter().any(|m| m.cuts != ms[0].cuts) || ms[0].n() == 0 {
        return Ok(());
    }
    let plan = steps(c);
    let open_all = |ctls: &mut Vec<Arc<Mutex<Ctl>>>| -> Res<Vec<Decoder<R>>> {
        let mut ds = vec![];
        for (i, m) in ms.iter().enumerate() {
            let (rd, ctl) = reader_for(&m.bytes, &c.script(i));
            ds.push(open(rd).or_viol("open-failed", "opening a complete file failed")?);
            ctls.push(ctl);
        }
        Ok(ds)
    };
    // fault-free pass: calls per step and column
    let mut calls: Vec<Vec<u64>> = vec![];
    if !c.faults.is_empty() {
        let mut ctls = vec![];
        let mut ds = open_all(&mut ctls)?;
        let count = |ctls: &Vec<Arc<Mutex<Ctl>>>| -> Vec<u64> { ctls.iter().map(|k| k.lock().unwrap().calls).collect() };
        let mut last = count(&ctls);
        for s in &plan {
            match &c.ops[s.0] {
                Op::Agg { .. } => {
                    let _ = do_step(c, *s, &mut ds);
                }
                op => {
                    let _ = crate::sess::query(&mut ds[0], op, None);
                }
            }
            let now = count(&ctls);
            calls.push(now.iter().zip(&last).map(|(a, b)| a - b).collect());
            last = now;
        }
    }
    let mut ctls = vec![];
    let mut ds = open_all(&mut ctls)?;
    let hard = |ctls: &Vec<Arc<Mutex<Ctl>>>| -> u64 { ctls.iter().map(|k| k.lock().unwrap().hard).sum() };
    let names = c.files.iter().map(|f| f.scheme.name()).collect::<Vec<_>>().join(",");
    // a failed step is repeated at once, or only after everything else
    let mut queue: Vec<(usize, bool)> = (0..plan.len()).map(|i| (i, false)).collect();
    let mut qi = 0;
    while qi < queue.len() {
        let (si, again) = queue[qi];
        let s = &plan[si];
        qi += 1;
        let h0 = hard(&ctls);
        let op = &c.ops[s.0];
        let mut armed = false;
        for (k, ctl) in ctls.iter().enumerate() {
            let fs: Vec<&FaultAt> = c.faults.iter().filter(|f| !again && f.op >= s.0 && f.op < s.1 && f.stream as usize == k).collect();
            if !fs.is_empty() {
                arm(ctl, &fs, calls[si][k], &c.script(k));
                armed = true;
            }
        }
        let cure = || {
            for (k, ctl) in ctls.iter().enumerate() {
                heal(ctl, &c.script(k));
            }
        };
        if !matches!(op, Op::Agg { .. }) {
            let what = format!("{} on the first of columns {names}", describe(op));
            let mut a = crate::sess::query(&mut ds[0], op, None);
            if a.is_err() && hard(&ctls) > h0 {
                cure();
                if c.get("later") != 0 {
                    queue.push((si, true));
                    continue;
                }
                a = crate::sess::query(&mut ds[0], op, None);
            }
            cure();
            judge(&ms[0], op, &a.or_viol("query-failed", &what)?, None).or_viol("wrong-answer", &what)?;
            continue;
        }
        let Op::Agg { bm, .. } = op else { unreachable!() };
        let members: Vec<(u8, &E)> = c.ops[s.0..s.1]
            .iter()
            .map(|o| match o {
                Op::Agg { kind, expr, .. } => (*kind, expr),
                _ => unreachable!(),
            })
            .collect();
        let what = format!("{} aggregate(s) {:?} over columns {names} ({} records, {} chunks)", members.len(), members, ms[0].n(), ms[0].n_chunks());
        let mut a = do_step(c, *s, &mut ds);
        st.add("aggregates", members.len() as u64);
        st.mix(a.is_ok() as u64);
        if members.iter().any(|(_, e)| shapeless(e)) {
            cure();
            if a.is_ok() {
                return viol("not-refused", format!("{what} was answered although it has an operation without a column"));
            }
            continue;
        }
        if let Err(e) = &a {
            if hard(&ctls) == h0 {
                return viol("spurious-error", format!("{what} failed although nothing went wrong: {e}"));
            }
            st.add("reported_failures", 1);
            cure();
            if c.get("later") != 0 {
                queue.push((si, true));
                continue;
            }
            a = do_step(c, *s, &mut ds);
            if let Err(e) = &a {
                return viol("not-recovered", format!("{what} fails again after the fault cleared: {e}"));
            }
        }
        cure();
        let a = a.unwrap();
        if a.len() != members.len() {
            return viol("wrong-answer", format!("{what}: {} results", a.len()));
        }
        for ((kind, e), g) in members.iter().zip(&a) {
            judge_agg(*kind, e, bm, &ms, g).or_viol(if armed { "wrong-answer-after-fault" } else { "wrong-answer" }, &what)?;
        }
    }
    for k in &ctls {
        st.absorb(&k.lock().unwrap());
    }
    st.nontrivial |= ms[0].n_chunks() > 1 && ms.len() > 1;
    Ok(())
}
