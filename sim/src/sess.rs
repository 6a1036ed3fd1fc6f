//! Running the real encoder and decoder on simulated streams, and judging query answers against an array model.
use crate::case::*;
use crate::rng::Rng;
use crate::simio::*;
use crate::spec::*;
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use roaring::RoaringBitmap;
use std::io::{BufReader, BufWriter, Cursor, Read, Seek, Write};
use std::sync::{Arc, Mutex};

pub const HEADER_SIZE: usize = 30;

/// Encode with plain in-memory streams.
pub fn encode_plain(f: &FileSpec) -> Result<Vec<u8>, String> {
    let bytes = f.input_bytes();
    let vals: Vec<f64> = f.data.iter().map(|b| f64::from_bits(*b)).collect();
    let input = if f.tail == 0 { EncoderInput::from_f64_slice(&vals) } else { EncoderInput::from_slice(&bytes) };
    let mut e = Encoder::new(input, EncoderOutput::from_vec(vec![]), f.chunk.opt(), f.config());
    e.encode().map_err(|e| format!("{e}"))?;
    Ok(e.into_output().into_vec())
}

/// Encode over simulated streams. Returns the outcome; the sink holds whatever was written.
pub fn encode_sim(f: &FileSpec, input: SimReader, sink: SimSink, in_buf: bool, out_buf: bool) -> Result<(), String> {
    macro_rules! go {
        ($i:expr, $o:expr) => {{
            let mut e = Encoder::new($i, $o, f.chunk.opt(), f.config());
            e.encode().map_err(|e| format!("{e}"))
        }};
    }
    let out = EncoderOutput::from_writer(sink);
    match (in_buf, out_buf) {
        (false, false) => go!(EncoderInput::from_reader(input), out),
        (false, true) => go!(EncoderInput::from_reader(input), out.into_buffered()),
        (true, false) => go!(EncoderInput::from_reader(BufReader::new(input)), out),
        (true, true) => go!(EncoderInput::from_reader(BufReader::new(input)), out.into_buffered()),
    }
}

pub enum Dec {
    Raw(Decoder<SimReader>),
    Buf(Decoder<BufReader<SimReader>>),
}
#[macro_export]
macro_rules! each {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            Dec::Raw($x) => $e,
            Dec::Buf($x) => $e,
        }
    };
}
pub fn open(r: SimReader, buffered: bool) -> Result<Dec, String> {
    let i = DecoderInput::from_reader(r);
    Ok(if buffered {
        Dec::Buf(Decoder::new(i.into_buffered()).map_err(|e| format!("{e}"))?)
    } else {
        Dec::Raw(Decoder::new(i).map_err(|e| format!("{e}"))?)
    })
}

pub fn plain_decoder(bytes: &Arc<Vec<u8>>) -> Result<Decoder<SimReader>, String> {
    let ctl = Ctl::arc(&Script::default());
    Decoder::new(DecoderInput::from_reader(SimReader::new(bytes.clone(), ctl))).map_err(|e| format!("{e}"))
}
pub fn decode_plain(bytes: &Arc<Vec<u8>>) -> Result<Vec<f64>, String> {
    let mut d = plain_decoder(bytes)?;
    let mut out = DecoderOutput::from_vec(vec![]);
    d.materialize(&mut out, None, None).map_err(|e| format!("{e}"))?;
    Ok(values_of(&out.into_writer().into_inner()))
}

/// A correctly encoded file together with what it must answer.
pub struct Model {
    pub spec: FileSpec,
    pub bytes: Arc<Vec<u8>>,
    /// records as given
    pub data: Vec<f64>,
    /// records as a plain, undisturbed decode returns them (equal to `data` for the lossless schemes)
    pub stored: Vec<f64>,
    /// first record of each chunk, plus the total
    pub cuts: Vec<usize>,
    /// first byte of each chunk, plus the footer offset
    pub phys: Vec<u64>,
}
impl Model {
    pub fn new(spec: &FileSpec) -> Res<Model> {
        let bytes = Arc::new(encode_plain(spec).or_viol("encode-failed", "encoding a valid input failed")?);
        Model::from_bytes(spec, bytes)
    }
    pub fn from_bytes(spec: &FileSpec, bytes: Arc<Vec<u8>>) -> Res<Model> {
        let data = spec.values();
        let d = plain_decoder(&bytes).or_viol("open-failed", "opening a complete file failed")?;
        let mut cuts: Vec<usize> = d.chunk_footers().iter().map(|c| c.logical_offset() as usize).collect();
        cuts.push(d.footer().number_of_records() as usize);
        let mut phys: Vec<u64> = d.chunk_footers().iter().map(|c| c.physical_offset()).collect();
        phys.push(d.header().footer_offset());
        let stored = decode_plain(&bytes).or_viol("decode-failed", "decoding a complete file failed")?;
        spec.check_values(&stored, &data, None).or_viol("roundtrip", "plain decode differs from the input")?;
        if cuts.last() != Some(&data.len()) || cuts.windows(2).any(|w| w[0] >= w[1]) {
            return viol("chunk-table", format!("chunk table {cuts:?} does not partition {} records", data.len()));
        }
        Ok(Model { spec: spec.clone(), bytes, data, stored, cuts, phys })
    }
    pub fn n(&self) -> usize {
        self.data.len()
    }
    pub fn n_chunks(&self) -> usize {
        self.cuts.len() - 1
    }
    pub fn chunk_range(&self, c: usize) -> (usize, usize) {
        if c < self.n_chunks() {
            (self.cuts[c], self.cuts[c + 1])
        } else {
            (0, 0)
        }
    }
    /// Record numbers a query is about.
    pub fn selected(&self, bm: &Mask, chunk: Option<usize>) -> Vec<usize> {
        let (a, b) = match chunk {
            None => (0, self.n()),
            Some(c) => self.chunk_range(c),
        };
        match bm {
            None => (a..b).collect(),
            Some(v) => {
                let mut sel = vec![false; b - a];
                for (s, e) in v {
                    let (s, e) = ((*s as usize).max(a), (*e as usize).min(b));
                    if s < e {
                        sel[s - a..e - a].iter_mut().for_each(|x| *x = true);
                    }
                }
                (a..b).filter(|i| sel[*i - a]).collect()
            }
        }
    }
    /// Chunks holding at least one selected record.
    pub fn needed_chunks(&self, bm: &Mask, chunk: Option<usize>) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        let mut c = 0;
        for i in self.selected(bm, chunk) {
            while self.cuts[c + 1] <= i {
                c += 1;
            }
            if v.last() != Some(&c) {
                v.push(c);
            }
        }
        v
    }
}

#[derive(Debug, Clone)]
pub enum Ans {
    Bytes(Vec<u8>),
    Bits(RoaringBitmap),
    Num(f64),
    Near(usize, f64),
    Mats(Vec<f64>),
    Unit,
}

/// Run one query on an open decoder. `sink` receives materialized bytes (None: an internal vector).
pub fn query<R: Read + Seek>(d: &mut Decoder<R>, op: &Op, sink: Option<(SimSink, bool)>) -> Result<Ans, String> {
    let cid = |c: &Option<usize>| c.map(ChunkId::new);
    let s = |e: ebi::decoder::error::DecoderError| format!("{e}");
    fn emit<W: Write, R: Read + Seek>(d: &mut Decoder<R>, op: &Op, out: &mut DecoderOutput<W>) -> Result<(), String> {
        match op {
            Op::Mat { bm, chunk } => d.materialize(out, mask_bm(bm).as_ref(), chunk.map(ChunkId::new)),
            Op::FiltMat { pred, bm, chunk } => {
                d.filter_materialize(out, pred.to(), mask_bm(bm).as_ref(), chunk.map(ChunkId::new))
            }
            _ => unreachable!(),
        }
        .map_err(|e| format!("{e}"))
    }
    Ok(match op {
        Op::Mat { .. } | Op::FiltMat { .. } => match sink {
            None => {
                let mut out = DecoderOutput::from_vec(vec![]);
                emit(d, op, &mut out)?;
                Ans::Bytes(out.into_writer().into_inner())
            }
            Some((sink, false)) => {
                let mut out = DecoderOutput::from_writer(sink.clone());
                emit(d, op, &mut out)?;
                Ans::Bytes(sink.content())
            }
            Some((sink, true)) => {
                let mut out = DecoderOutput::from_writer(sink.clone()).into_buffered();
                emit(d, op, &mut out)?;
                let mut w: BufWriter<SimSink> = out.into_writer();
                w.flush().map_err(|e| format!("flush: {e}"))?;
                Ans::Bytes(sink.content())
            }
        },
        Op::Filter { pred, bm, chunk } => Ans::Bits(d.filter(pred.to(), mask_bm(bm).as_ref(), cid(chunk)).map_err(s)?),
        Op::Sum { bm, chunk } => Ans::Num(d.sum(mask_bm(bm).as_ref(), cid(chunk)).map_err(s)?),
        Op::Min { bm, chunk } => Ans::Num(d.min(mask_bm(bm).as_ref(), cid(chunk)).map_err(s)?),
        Op::Max { bm, chunk } => Ans::Num(d.max(mask_bm(bm).as_ref(), cid(chunk)).map_err(s)?),
        Op::Knn { target } => {
            let t: Vec<f64> = target.iter().map(|b| f64::from_bits(*b)).collect();
            let r = d.knn1(&t).map_err(s)?;
            Ans::Near(r.index, r.distance)
        }
        Op::Matmul { target, tshape, dshape } => {
            let t: Vec<f64> = target.iter().map(|b| f64::from_bits(*b)).collect();
            Ans::Mats(d.matmul(&t, *tshape, *dshape).map_err(s)?.into_vec())
        }
        Op::Precision(p) => {
            d.with_precision(*p);
            Ans::Unit
        }
        _ => Ans::Unit,
    })
}

fn same_num(got: f64, want: f64) -> bool {
    got == want || (got.is_nan() && want.is_nan())
}

/// The answer the array model demands. `prec` is the materialization precision in force.
pub fn judge(m: &Model, op: &Op, ans: &Ans, prec: Option<u32>) -> Result<(), String> {
    let pick = |bm: &Mask, chunk: &Option<usize>| m.selected(bm, *chunk);
    match (op, ans) {
        (Op::Mat { bm, chunk }, Ans::Bytes(b)) => {
            let idx = pick(bm, chunk);
            judge_bytes(m, &idx, b, prec)
        }
        (Op::FiltMat { pred, bm, chunk }, Ans::Bytes(b)) => {
            let idx: Vec<usize> = pick(bm, chunk).into_iter().filter(|i| pred.model(m.data[*i])).collect();
            judge_bytes(m, &idx, b, prec)
        }
        (Op::Filter { pred, bm, chunk }, Ans::Bits(b)) => {
            let want: RoaringBitmap =
                pick(bm, chunk).into_iter().filter(|i| pred.model(m.data[*i])).map(|i| i as u32).collect();
            if *b == want {
                Ok(())
            } else {
                let extra: Vec<u32> = (b - &want).iter().take(5).collect();
                let miss: Vec<u32> = (&want - b).iter().take(5).collect();
                Err(format!(
                    "filter {} gives {} records instead of {}; extra {extra:?}, missing {miss:?}",
                    pred.describe(),
                    b.len(),
                    want.len()
                ))
            }
        }
        (Op::Sum { bm, chunk }, Ans::Num(x)) => {
            let v: Vec<f64> = pick(bm, chunk).into_iter().map(|i| m.stored[i]).collect();
            sum_close(*x, &v, 0.0)
        }
        (Op::Min { bm, chunk }, Ans::Num(x)) => {
            let w = pick(bm, chunk).into_iter().map(|i| m.stored[i]).fold(f64::INFINITY, f64::min);
            if same_num(*x, w) { Ok(()) } else { Err(format!("min {x:?} instead of {w:?}")) }
        }
        (Op::Max { bm, chunk }, Ans::Num(x)) => {
            let w = pick(bm, chunk).into_iter().map(|i| m.stored[i]).fold(f64::NEG_INFINITY, f64::max);
            if same_num(*x, w) { Ok(()) } else { Err(format!("max {x:?} instead of {w:?}")) }
        }
        (Op::Knn { target }, Ans::Near(i, d)) => {
            let t: Vec<f64> = target.iter().map(|b| f64::from_bits(*b)).collect();
            let n = t.len();
            let dist: Vec<f64> = m
                .stored
                .chunks_exact(n)
                .map(|v| v.iter().zip(&t).map(|(a, b)| (a - b) * (a - b)).sum::<f64>())
                .collect();
            let best = dist.iter().cloned().fold(f64::INFINITY, f64::min);
            if dist.is_empty() {
                return if *d == f64::INFINITY { Ok(()) } else { Err(format!("nearest ({i}, {d}) in a set without vectors")) };
            }
            let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-300;
            // the coordinates, and with them the distances, may be off by the precision asked for
            if let Some(e) = m.spec.coarse(prec) {
                let e = e * (n as f64).sqrt();
                let near = |a: f64, b: f64| a.sqrt() <= b.sqrt() * (1.0 + 1e-9) + e + 1e-150;
                return if *i < dist.len() && near(*d, dist[*i]) && near(dist[*i], *d) && near(*d, best) {
                    Ok(())
                } else {
                    Err(format!("nearest is ({i}, {d}) at precision {prec:?} where the best distance is {best}, among {} vectors of {n}", dist.len()))
                };
            }
            if *i < dist.len() && close(*d, dist[*i]) && close(dist[*i], best) {
                Ok(())
            } else {
                let bi = dist.iter().position(|x| *x == best);
                Err(format!("nearest is ({i}, {d}) instead of ({bi:?}, {best}) among {} vectors of {n}", dist.len()))
            }
        }
        (Op::Matmul { target, tshape, dshape }, Ans::Mats(got)) => {
            let want = match matmul_model(&m.stored, target, *tshape, *dshape) {
                None => return Err("a product was returned for shapes that do not fit".into()),
                Some(w) => w,
            };
            if got.len() != want.len() {
                return Err(format!("{} elements instead of {}", got.len(), want.len()));
            }
            for (i, (g, (w, mag))) in got.iter().zip(&want).enumerate() {
                if !((g - w).abs() <= 1e-9 * mag + 1e-300) {
                    return Err(format!("product element {i} is {g} instead of {w}"));
                }
            }
            Ok(())
        }
        (_, Ans::Unit) => Ok(()),
        (o, a) => Err(format!("answer {a:?} does not belong to {o:?}")),
    }
}

/// Row-major products of every stored matrix with the column-major target; each with the magnitude of its terms.
pub fn matmul_model(stored: &[f64], target: &[u64], ts: (usize, usize), ds: (usize, usize)) -> Option<Vec<(f64, f64)>> {
    let (tr, tc) = ts;
    let (dr, dc) = ds;
    if dc != tr || dr == 0 || dc == 0 || tc == 0 || target.len() != tr * tc || stored.len() % (dr * dc) != 0 {
        return None;
    }
    let t: Vec<f64> = target.iter().map(|b| f64::from_bits(*b)).collect();
    let mut out = vec![];
    for mat in stored.chunks_exact(dr * dc) {
        for r in 0..dr {
            for c in 0..tc {
                let mut s = 0.0;
                let mut mag = 0.0;
                for k in 0..dc {
                    let p = mat[r * dc + k] * t[c * tr + k];
                    s += p;
                    mag += p.abs();
                }
                out.push((s, mag));
            }
        }
    }
    Some(out)
}

pub fn judge_bytes(m: &Model, idx: &[usize], b: &[u8], prec: Option<u32>) -> Result<(), String> {
    if b.len() != idx.len() * 8 {
        return Err(format!("{} bytes instead of {} for {} records", b.len(), idx.len() * 8, idx.len()));
    }
    let got = values_of(b);
    let want: Vec<f64> = idx.iter().map(|i| m.data[*i]).collect();
    m.spec.check_values(&got, &want, prec)
}

pub fn chunk_of(op: &Op) -> Option<(&Mask, Option<usize>)> {
    match op {
        Op::Mat { bm, chunk }
        | Op::Filter { bm, chunk, .. }
        | Op::FiltMat { bm, chunk, .. }
        | Op::Sum { bm, chunk }
        | Op::Min { bm, chunk }
        | Op::Max { bm, chunk } => Some((bm, *chunk)),
        _ => None,
    }
}

pub fn describe(op: &Op) -> String {
    let w = |bm: &Mask, c: &Option<usize>| {
        format!(
            "{}{}",
            bm.as_ref().map_or(String::new(), |v| format!(" bitmap of {} ranges", v.len())),
            c.map_or(String::new(), |c| format!(" chunk {c}"))
        )
    };
    match op {
        Op::Mat { bm, chunk } => format!("materialize{}", w(bm, chunk)),
        Op::Filter { pred, bm, chunk } => format!("filter {}{}", pred.describe(), w(bm, chunk)),
        Op::FiltMat { pred, bm, chunk } => format!("filter_materialize {}{}", pred.describe(), w(bm, chunk)),
        Op::Sum { bm, chunk } => format!("sum{}", w(bm, chunk)),
        Op::Min { bm, chunk } => format!("min{}", w(bm, chunk)),
        Op::Max { bm, chunk } => format!("max{}", w(bm, chunk)),
        Op::Knn { target } => format!("knn1 with {} values", target.len()),
        Op::Matmul { tshape, dshape, .. } => format!("matmul data {dshape:?} x target {tshape:?}"),
        o => {
            let s = format!("{o:?}");
            s.chars().take(80).collect()
        }
    }
}

// ---------------------------------------------------------------- generators shared by the properties

/// I/O behaviour a correct system must tolerate: fragmentation, EINTR and delays.
pub fn benign(r: &mut Rng, calls: usize) -> Script {
    let base = match r.below(8) {
        0..=2 => Act::Full,
        3 => Act::Short(1 + r.us(3) as u32),
        4 => Act::Short(*r.pick(&[5u32, 7, 8, 9, 13, 64, 511, 512, 4096])),
        5 => Act::Flaky(1 + r.us(24) as u32),
        6 => Act::Delay(1 + r.us(5000) as u32),
        _ => Act::DelayShort(1 + r.us(500) as u32, 1 + r.us(300) as u32),
    };
    let mut at = vec![];
    if r.chance(2, 3) {
        for _ in 0..r.us(12) {
            let i = r.us(calls.max(1)) as u32;
            let a = match r.below(4) {
                0 | 1 => Act::Intr,
                2 => Act::Short(1 + r.us(20) as u32),
                _ => Act::Delay(1 + r.us(100_000) as u32),
            };
            at.push((i, a));
        }
        at.sort_by_key(|x| x.0);
        at.dedup_by_key(|x| x.0);
    }
    Script { base, at }
}
pub fn maybe_benign(r: &mut Rng, calls: usize) -> Script {
    if r.chance(1, 3) {
        Script::default()
    } else {
        benign(r, calls)
    }
}

pub const READ_FAULTS: [Fault; 5] = [Fault::Eio, Fault::Eof, Fault::Again, Fault::Timeout, Fault::Pipe];
pub const WRITE_FAULTS: [Fault; 6] = [Fault::Eio, Fault::Nospc, Fault::Pipe, Fault::Again, Fault::Timeout, Fault::Zero];

/// Chunk boundaries guessed from the spec, used to aim bitmaps.
pub fn guess_cuts(f: &FileSpec) -> Vec<usize> {
    match f.chunk {
        Chunk::Rec(c) => (0..=f.data.len()).step_by(c).take(2000).collect(),
        Chunk::Bytes(b) => {
            let c = ((b as f64 / 8.0) * 1.5).ceil() as usize;
            (0..=f.data.len()).step_by(c.max(1)).take(2000).collect()
        }
        _ => vec![],
    }
}
pub fn gen_query(r: &mut Rng, f: &FileSpec) -> Op {
    let cuts = guess_cuts(f);
    let n = f.data.len();
    let bm = gen_mask(r, n, &cuts);
    let chunk = if r.chance(1, 4) && !cuts.is_empty() { Some(r.us(cuts.len().min(1 + n))) } else { None };
    match r.below(12) {
        0 | 1 => Op::Mat { bm, chunk },
        2..=4 => Op::Filter { pred: gen_pred(r, f), bm, chunk },
        5 | 6 => Op::FiltMat { pred: gen_pred(r, f), bm, chunk },
        7 | 8 => Op::Sum { bm, chunk },
        9 => Op::Min { bm, chunk },
        _ => Op::Max { bm, chunk },
    }
}
/// The next query of a history: a fresh one, or one that relates to its predecessor (the same again, the same
/// selection asked otherwise, the chunk before or behind).
pub fn next_query(r: &mut Rng, f: &FileSpec, prev: Option<&Op>) -> Op {
    let mut q = gen_query(r, f);
    let Some(prev) = prev else { return q };
    if !r.chance(2, 5) {
        return q;
    }
    let Some((pbm, pchunk)) = chunk_of(prev).map(|(b, c)| (b.clone(), c)) else { return q };
    let cuts = guess_cuts(f);
    let nc = cuts.len().max(1);
    let step = |c: usize, back: bool| if back { c.saturating_sub(1) } else { (c + 1) % (nc + 1) };
    match r.below(5) {
        0 => return prev.clone(),
        1 => set_sel(&mut q, pbm, pchunk),
        2 | 3 => {
            let c = pchunk.unwrap_or_else(|| r.us(nc));
            let back = r.chance(1, 3);
            set_sel(&mut q, if r.chance(1, 4) { pbm } else { None }, Some(step(c, back)));
        }
        _ => {
            // everything but the predecessor's selection
            let n = f.data.len() as u32;
            let mut v = vec![];
            let mut at = 0;
            let mut ranges = pbm.unwrap_or_default();
            ranges.sort();
            for (a, b) in ranges {
                if a > at {
                    v.push((at, a));
                }
                at = at.max(b);
            }
            if at < n {
                v.push((at, n));
            }
            set_sel(&mut q, Some(v), None);
        }
    }
    q
}
pub fn set_sel(op: &mut Op, m: Mask, c: Option<usize>) {
    match op {
        Op::Mat { bm, chunk }
        | Op::Filter { bm, chunk, .. }
        | Op::FiltMat { bm, chunk, .. }
        | Op::Sum { bm, chunk }
        | Op::Min { bm, chunk }
        | Op::Max { bm, chunk } => {
            *bm = m;
            *chunk = c;
        }
        _ => {}
    }
}
pub fn reader_for(bytes: &Arc<Vec<u8>>, script: &Script) -> (SimReader, Arc<Mutex<Ctl>>) {
    let ctl = Ctl::arc(script);
    (SimReader::new(bytes.clone(), ctl.clone()), ctl)
}
pub fn cursor(v: Vec<u8>) -> Cursor<Vec<u8>> {
    Cursor::new(v)
}
