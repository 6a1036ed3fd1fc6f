//! Staged reading with FileReader, chunk handles and chunk readers made by hand (C20).
use super::chunk::at_chunk;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::decoder::{FileMetadataLike, FileReader, GeneralChunkHandle};
use ebi::time::SegmentedExecutionTimes;
use std::io::Read;
use std::sync::{Arc, Mutex};

pub fn gen_c20(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C20");
    let max_n = if r.chance(1, 20) { 2000 } else { 150 };
    let scheme = gen_scheme(r);
    let f = if r.chance(1, 600) { gen_huge(r, scheme) } else { gen_file_for(r, scheme, Gen { max_n, tame: true, ..Default::default() }) };
    for _ in 0..1 + r.us(6) {
        let op = match r.below(6) {
            0 => Op::Decompress,
            1 => Op::Iter(usize::MAX >> 1),
            _ => next_query(r, &f, c.ops.last()),
        };
        c.ops.push(op);
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 60));
    for _ in 0..r.us(12) {
        c.picks.push(r.u64() as u32);
    }
    c.put("via", r.below(4) as i64);
    c.put("bounded", r.chance(1, 2) as i64);
    c.put("order", r.u64() as i64 & 0xffff);
    if r.chance(2, 3) {
        for _ in 0..1 + r.us(4) {
            c.faults.push(FaultAt {
                stream: 0,
                op: 0,
                at: if r.chance(2, 3) { r.below(16) as u32 } else { r.below(120) as u32 },
                fault: *r.pick(&READ_FAULTS),
                sticky: r.chance(1, 3),
            });
        }
    }
    c
}

struct Src {
    rd: SimReader,
    ctl: Arc<Mutex<Ctl>>,
    outage: Vec<u64>,
    failed: u64,
}
impl Src {
    fn hard(&self) -> u64 {
        self.ctl.lock().unwrap().hard
    }
    /// Failures delivered since `from`; outages that lasted long enough end here.
    fn since(&mut self, from: u64) -> u64 {
        let mut k = self.ctl.lock().unwrap();
        let n = k.hard - from;
        if n > 0 {
            self.failed += 1;
            if self.failed % 3 == 0 {
                k.dead = None;
            }
            let next = k.calls;
            k.sticky = self.outage.iter().any(|o| *o >= next);
        }
        n
    }
}

fn both(what: &str, ok: bool, hard: u64, msg: &str) -> Res {
    match (ok, hard > 0) {
        (false, false) => viol("spurious-error", format!("{what} failed although nothing went wrong: {msg}")),
        (true, true) => viol("silent-failure", format!("{what} succeeded although a read under it failed")),
        _ => Ok(()),
    }
}

pub fn run_c20(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    let mut script = c.script(0);
    let mut outage = vec![];
    for fa in &c.faults {
        super::encode::place(&mut script, fa.at, Act::Fail(fa.fault));
        if fa.sticky {
            outage.push(fa.at as u64);
        }
    }
    let (rd, ctl) = reader_for(&m.bytes, &script);
    ctl.lock().unwrap().sticky = !outage.is_empty();
    let mut s = Src { rd, ctl, outage, failed: 0 };
    let footer_at = plain_decoder(&m.bytes).or_viol("open-failed", "opening a complete file failed")?.header().footer_offset();
    let mut fr = FileReader::new();
    let (mut has_h, mut has_f) = (false, false);
    // a footer that was fetched needs no reads any more, a header neither
    let mut steps: Vec<u32> = c.picks.clone();
    let seeded = steps.len();
    for _ in 0..200 {
        steps.extend([1, 3]);
    }
    for (i, p) in steps.iter().enumerate() {
        if i >= seeded && has_h && has_f {
            break;
        }
        let h0 = s.hard();
        let c0 = s.ctl.lock().unwrap().calls;
        match p % 6 {
            1 | 5 => {
                if !has_h {
                    s.rd.pos = 0;
                }
                let r = fr.fetch_header(&mut s.rd).map(|_| ()).map_err(|e| format!("{e}"));
                if has_h && s.ctl.lock().unwrap().calls != c0 {
                    return viol("reread", "fetching a header that had already been read touched the stream");
                }
                let hard = s.since(h0);
                both("fetching the header", r.is_ok(), hard, &r.as_ref().err().cloned().unwrap_or_default())?;
                has_h |= r.is_ok();
            }
            2 => {
                let r = fr.seek_to_footer(&mut s.rd).map_err(|e| format!("{e}"));
                let hard = s.since(h0);
                if !has_h {
                    if r.is_ok() {
                        return viol("precondition", "seeking to the footer succeeded without a header");
                    }
                } else {
                    both("seeking to the footer", r.is_ok(), hard, &r.as_ref().err().cloned().unwrap_or_default())?;
                    if r.is_ok() && s.rd.pos != footer_at {
                        return viol("wrong-position", format!("seeking to the footer led to byte {} instead of {footer_at}", s.rd.pos));
                    }
                }
            }
            3 => {
                if has_h && !has_f {
                    let r = fr.seek_to_footer(&mut s.rd).map_err(|e| format!("{e}"));
                    let hard = s.since(h0);
                    both("seeking to the footer", r.is_ok(), hard, &r.as_ref().err().cloned().unwrap_or_default())?;
                    if r.is_err() {
                        continue;
                    }
                }
                let h0 = s.hard();
                let c0 = s.ctl.lock().unwrap().calls;
                let r = fr.fetch_footer(&mut s.rd).map(|_| ()).map_err(|e| format!("{e}"));
                if has_f && s.ctl.lock().unwrap().calls != c0 {
                    return viol("reread", "fetching a footer that had already been read touched the stream");
                }
                let hard = s.since(h0);
                if !has_h {
                    if r.is_ok() {
                        return viol("precondition", "fetching the footer succeeded without a header");
                    }
                } else {
                    both("fetching the footer", r.is_ok(), hard, &r.as_ref().err().cloned().unwrap_or_default())?;
                    has_f |= r.is_ok();
                }
            }
            4 => fr = fr.clone(),
            0 if i < seeded && !has_h => {
                // a look at the file while it was still being written, or at something else
                let k = (p / 6) as usize;
                let mut b = m.bytes[..HEADER_SIZE].to_vec();
                match k % 3 {
                    0 => {
                        // (the chunk option may hold the same number)
                        let all: Vec<_> = (0..b.len() - 7).filter(|&at| b[at..at + 8] == footer_at.to_le_bytes()).collect();
                        for at in all {
                            b[at..at + 8].fill(0);
                        }
                    }
                    1 => b.truncate(k / 3 % HEADER_SIZE),
                    _ => b[k / 3 % 4] ^= 0x20,
                }
                if fr.fetch_header(&b[..]).is_ok() {
                    return viol("precondition", "the header of an unfinished or foreign file was accepted");
                }
            }
            0 if i < seeded && !has_f => {
                let b = &m.bytes[footer_at as usize..];
                if fr.fetch_footer(&b[..(p / 6) as usize % b.len()]).is_ok() {
                    return viol("precondition", "an incomplete footer was accepted");
                }
            }
            _ => {}
        }
        if fr.header().is_some() != has_h || fr.footer().is_some() != has_f || fr.metadata().is_some() != (has_h && has_f) {
            return viol("wrong-state", format!("after step {i} the reader {} a header and {} a footer", yes(fr.header().is_some()), yes(fr.footer().is_some())));
        }
        st.add("stage_steps", 1);
    }
    if !(has_h && has_f) {
        return viol("no-progress", "header and footer could not be read within 200 attempts after the faults");
    }
    if fr.header().map(|h| h.footer_offset()) != Some(footer_at) {
        return viol("wrong-metadata", "the header read after retries differs from the one in the file");
    }
    let r = match c.get("via") {
        0 => {
            let md = fr.metadata().expect("checked");
            let hs: Vec<_> = md.chunks_iter().collect();
            visit(c, &m, &hs, &mut s, footer_at, st)
        }
        1 => {
            let Some(md) = fr.into_metadata() else { return viol("wrong-state", "no metadata although header and footer were read") };
            let hs: Vec<_> = md.chunks_iter().collect();
            visit(c, &m, &hs, &mut s, footer_at, st)
        }
        k => {
            let Some(md) = fr.into_metadata() else { return viol("wrong-state", "no metadata although header and footer were read") };
            let md = std::rc::Rc::new(md);
            if k == 2 {
                let hs: Vec<_> = md.chunks_iter_with_mapping_metadata(|| md.clone()).collect();
                visit(c, &m, &hs, &mut s, footer_at, st)
            } else {
                let hs: Vec<_> = md.chunks_iter_with_mapping_metadata(|| &*md).collect();
                visit(c, &m, &hs, &mut s, footer_at, st)
            }
        }
    };
    st.absorb(&s.ctl.lock().unwrap());
    st.nontrivial |= s.failed > 0 || c.picks.len() > 1;
    r
}

fn yes(b: bool) -> &'static str {
    if b {
        "has"
    } else {
        "lacks"
    }
}

fn table<T: FileMetadataLike>(m: &Model, hs: &[GeneralChunkHandle<T>], footer_at: u64) -> Res {
    if hs.len() != m.n_chunks() {
        return viol("chunk-table", format!("{} chunk handles for {} chunks", hs.len(), m.n_chunks()));
    }
    let mut at = (HEADER_SIZE as u64).min(footer_at);
    if let Some(h) = hs.first() {
        at = h.physical_offset();
    }
    for (i, h) in hs.iter().enumerate() {
        let (a, b) = m.chunk_range(i);
        let (a, b) = (a as u64, b as u64);
        let bad = |what: &str, got: u64, want: u64| viol("chunk-table", format!("chunk {i}: {what} is {got} instead of {want}"));
        if h.chunk_index() != i {
            return bad("index", h.chunk_index() as u64, i as u64);
        }
        if h.is_last_chunk() != (i + 1 == hs.len()) {
            return viol("chunk-table", format!("chunk {i} of {} is {}the last", hs.len(), if h.is_last_chunk() { "" } else { "not " }));
        }
        if h.physical_offset() != at {
            return bad("physical offset", h.physical_offset(), at);
        }
        at = h.next_physical_offset();
        if h.chunk_size() != at - h.physical_offset() {
            return bad("size", h.chunk_size(), at - h.physical_offset());
        }
        if h.logical_offset() != a || h.chunk_footer().logical_offset() != a {
            return bad("logical offset", h.logical_offset(), a);
        }
        if h.next_logical_offset() != b {
            return bad("next logical offset", h.next_logical_offset(), b);
        }
        if h.number_of_records() != b - a {
            return bad("record count", h.number_of_records(), b - a);
        }
        if h.logical_record_range() != (a..b) {
            return viol("chunk-table", format!("chunk {i}: record range {:?} instead of {:?}", h.logical_record_range(), a..b));
        }
        if h.logical_record_range_u32() != (a as u32..b as u32) {
            return viol("chunk-table", format!("chunk {i}: record range {:?} instead of {:?}", h.logical_record_range_u32(), a..b));
        }
        if h.footer().number_of_records() != m.n() as u64 {
            return bad("file's record count", h.footer().number_of_records(), m.n() as u64);
        }
    }
    if !hs.is_empty() && at != footer_at {
        return viol("chunk-table", format!("the last chunk ends at byte {at}, the footer starts at {footer_at}"));
    }
    Ok(())
}

fn visit<T: FileMetadataLike>(c: &Case, m: &Model, hs: &[GeneralChunkHandle<T>], s: &mut Src, footer_at: u64, st: &mut Stats) -> Res {
    table(m, hs, footer_at)?;
    if hs.is_empty() {
        return Ok(());
    }
    let mut r = Rng::new(c.get("order") as u64, "order", 0);
    let mut ks: Vec<usize> = (0..hs.len()).collect();
    if r.chance(1, 2) {
        for i in (1..ks.len()).rev() {
            ks.swap(i, r.us(i + 1));
        }
    }
    ks.truncate(6);
    for (vi, &k) in ks.iter().enumerate() {
        let h = &hs[k];
        let mut done = false;
        for _ in 0..30 {
            let h0 = s.hard();
            let res = h.seek_to_chunk(&mut s.rd).map_err(|e| format!("{e}"));
            let hard = s.since(h0);
            both("seeking to a chunk", res.is_ok(), hard, &res.as_ref().err().cloned().unwrap_or_default())?;
            if res.is_err() {
                continue;
            }
            if s.rd.pos != h.physical_offset() {
                return viol("wrong-position", format!("seeking to chunk {k} led to byte {} instead of {}", s.rd.pos, h.physical_offset()));
            }
            let mut src: Box<dyn Read> = if c.get("bounded") != 0 {
                Box::new(s.rd.clone().take(h.chunk_size()))
            } else {
                Box::new(s.rd.clone())
            };
            let h0 = s.hard();
            let mut ch = match h.make_chunk_reader(&mut src) {
                Ok(ch) => ch,
                Err(e) => {
                    let hard = s.since(h0);
                    both("opening a chunk", false, hard, &format!("{e}"))?;
                    continue;
                }
            };
            if ch.chunk_index() != k || ch.number_of_records() != h.number_of_records() || ch.is_last_chunk() != h.is_last_chunk() {
                return viol("chunk-table", format!("the reader of chunk {k} says it is chunk {} with {} records", ch.chunk_index(), ch.number_of_records()));
            }
            let (a, b) = m.chunk_range(k);
            let mut broken = false;
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("operation {i} ({}) on chunk {k} of {}", describe(op), hs.len());
                let h0 = s.hard();
                let mut t = SegmentedExecutionTimes::new();
                let ans: Result<Ans, String> = match op {
                    Op::Decompress => ch.inner_mut().decompress(&mut t).map(|v| Ans::Bytes(bytes(v))).map_err(|e| format!("{e}")),
                    Op::Iter(_) => match ch.inner_mut().decompress_iter() {
                        Err(e) => Err(format!("{e}")),
                        Ok(it) => it.take(b - a + 5).collect::<Result<Vec<f64>, _>>().map(|v| Ans::Bytes(bytes(&v))).map_err(|e| format!("{e}")),
                    },
                    Op::Mat { bm, .. } => {
                        let mut w = vec![];
                        ch.materialize(&mut w, mask_bm(bm).as_ref()).map(|_| Ans::Bytes(w)).map_err(|e| format!("{e}"))
                    }
                    Op::FiltMat { pred, bm, .. } => {
                        let mut w = vec![];
                        ch.filter_materialize(&mut w, pred.to(), mask_bm(bm).as_ref()).map(|_| Ans::Bytes(w)).map_err(|e| format!("{e}"))
                    }
                    Op::Filter { pred, bm, .. } => ch.filter(pred.to(), mask_bm(bm).as_ref()).map(Ans::Bits).map_err(|e| format!("{e}")),
                    Op::Sum { bm, .. } => ch.sum(mask_bm(bm).as_ref()).map(Ans::Num).map_err(|e| format!("{e}")),
                    Op::Min { bm, .. } => ch.min(mask_bm(bm).as_ref()).map(Ans::Num).map_err(|e| format!("{e}")),
                    Op::Max { bm, .. } => ch.max(mask_bm(bm).as_ref()).map(Ans::Num).map_err(|e| format!("{e}")),
                    _ => continue,
                };
                let hard = s.since(h0);
                both(&what, ans.is_ok(), hard, &ans.as_ref().err().cloned().unwrap_or_default())?;
                let Ok(ans) = ans else {
                    broken = true;
                    break;
                };
                let model_op = match op {
                    Op::Decompress | Op::Iter(_) => Op::Mat { bm: None, chunk: Some(k) },
                    o => at_chunk(o, k),
                };
                judge(m, &model_op, &ans, None).or_viol("wrong-answer", &what)?;
                st.add("chunk_operations", 1);
            }
            drop(ch);
            if broken {
                continue;
            }
            done = true;
            break;
        }
        if !done {
            return viol("no-progress", format!("chunk {k} could not be read within 30 attempts after the faults"));
        }
        // the end of this chunk is where the next one starts
        for _ in 0..30 {
            let h0 = s.hard();
            let res = h.seek_to_chunk_end(&mut s.rd).map_err(|e| format!("{e}"));
            let hard = s.since(h0);
            both("seeking to the end of a chunk", res.is_ok(), hard, &res.as_ref().err().cloned().unwrap_or_default())?;
            if res.is_ok() {
                if s.rd.pos != h.next_physical_offset() {
                    return viol("wrong-position", format!("the end of chunk {k} led to byte {} instead of {}", s.rd.pos, h.next_physical_offset()));
                }
                break;
            }
        }
        st.mix(vi as u64 ^ k as u64);
    }
    Ok(())
}

fn bytes(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_ne_bytes()).collect()
}
