//! Properties of encoding: round trip, determinism, failure reporting, crash safety, metadata.
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use crate::{each, sess};
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::encoder::FileWriter;
use ebi::time::{sim_clock, SegmentedExecutionTimes};
use std::io::{Seek, SeekFrom, Write};
use std::sync::Arc;
use std::time::Duration;

fn est_calls(f: &FileSpec) -> usize {
    let chunks = match f.chunk {
        Chunk::Rec(c) => f.data.len() / c + 1,
        _ => 4,
    };
    4 + chunks * 4
}

fn gen_big(r: &mut Rng, g: Gen, index: u64) -> FileSpec {
    if index % 2800 == 2399 {
        let scheme = gen_scheme(r);
        return gen_huge(r, scheme);
    }
    if index % 400 == 399 {
        // beyond the 65536-record containers of the bitmaps and the 8 KiB stream buffers
        let scheme = gen_scheme(r);
        let n = 65_000 + r.us(3000);
        let digits = if scheme.quantised() { 2 } else { 0 };
        let data = gen_values(r, scheme, digits, n, g.tame);
        let chunk = *r.pick(&[Chunk::Full, Chunk::Rec(10_000), Chunk::Rec(65_536), Chunk::Rec(1024 * 8), Chunk::Bytes(100_000)]);
        return FileSpec { scheme, scale: pow10(digits), param: None, chunk, data, tail: 0 };
    }
    gen_file(r, g)
}

pub fn run_clock(c: &Case) {
    sim_clock::reset(Duration::from_nanos(c.get("start").max(0) as u64), Duration::from_nanos(c.get("tick").max(0) as u64));
}
pub fn gen_clock(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 2) {
        c.put("start", r.below(1 << 50) as i64);
        c.put("tick", r.below(5000) as i64);
    }
}

// ---------------------------------------------------------------- C01

pub fn gen_c01(r: &mut Rng, index: u64) -> Case {
    let mut c = Case::new("C01");
    let max_n = if r.chance(1, 12) { 4000 } else { 400 };
    let f = gen_big(r, Gen { max_n, tail: true, ..Default::default() }, index);
    let k = est_calls(&f);
    let big = f.data.len() > 10_000;
    c.files.push(f);
    for _ in 0..4 {
        let mut s = maybe_benign(r, k);
        if big {
            // keep call counts sensible
            s.base = match s.base {
                Act::Short(n) => Act::Short(n.max(200)),
                Act::Flaky(n) => Act::Flaky(n.max(200)),
                Act::DelayShort(d, n) => Act::DelayShort(d, n.max(200)),
                a => a,
            };
        }
        c.scripts.push(s);
    }
    for k in ["in_buf", "out_buf", "rd_buf", "sink_buf"] {
        c.put(k, r.chance(1, 3) as i64);
    }
    c.put("read_mode", r.us(3) as i64);
    gen_clock(r, &mut c);
    c
}

pub struct Encoded {
    pub result: Result<(), String>,
    pub sink: SimSink,
    pub bytes: Arc<Vec<u8>>,
    /// nanoseconds the reads of the input stalled
    pub input_delay: u64,
}
/// Encode file 0 over the case's input (script 0) and output (script 1) streams.
pub fn encode_case(c: &Case, st: &mut Stats, cap: Option<u64>, record: bool) -> Encoded {
    encode_case_with(c, st, cap, record, false)
}
pub fn encode_case_with(c: &Case, st: &mut Stats, cap: Option<u64>, record: bool, sticky: bool) -> Encoded {
    let f = &c.files[0];
    let ictl = Ctl::arc(&c.script(0));
    let octl = Ctl::arc(&c.script(1));
    octl.lock().unwrap().sticky = sticky;
    let input = SimReader::new(Arc::new(f.input_bytes()), ictl.clone());
    let sink = SimSink::new(octl.clone(), cap, record);
    let result = encode_sim(f, input, sink.clone(), c.get("in_buf") != 0, c.get("out_buf") != 0);
    st.absorb(&ictl.lock().unwrap());
    st.absorb(&octl.lock().unwrap());
    st.mix(result.is_ok() as u64);
    st.sim_ns += sim_clock::now().as_nanos() as u64 - c.get("start").max(0) as u64;
    let bytes = Arc::new(sink.content());
    let input_delay = ictl.lock().unwrap().delay[Call::Read as usize];
    Encoded { result, sink, bytes, input_delay }
}

pub fn run_c01(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    run_clock(c);
    let e = encode_case(c, st, None, false);
    e.result.or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
    let data = f.values();
    let (rd, rctl) = reader_for(&e.bytes, &c.script(2));
    let mut d = open(rd, c.get("rd_buf") != 0).or_viol("open-failed", "opening a complete file failed")?;
    let got: Vec<f64> = match c.get("read_mode") {
        0 => {
            let sctl = Ctl::arc(&c.script(3));
            let sink = SimSink::new(sctl.clone(), None, false);
            let op = Op::Mat { bm: None, chunk: None };
            let r = each!(&mut d, x => sess::query(x, &op, Some((sink, c.get("sink_buf") != 0))));
            st.absorb(&sctl.lock().unwrap());
            match r.or_viol("decode-failed", "materializing a complete file failed")? {
                Ans::Bytes(b) => {
                    if b.len() % 8 != 0 {
                        return viol("roundtrip", format!("{} bytes materialized", b.len()));
                    }
                    values_of(&b)
                }
                _ => unreachable!(),
            }
        }
        1 => {
            // chunk by chunk
            let n = each!(&mut d, x => x.chunk_footers().len());
            let mut all = vec![];
            for i in 0..n {
                each!(&mut d, x => {
                    let mut cr = x.chunk_reader(ChunkId::new(i)).map_err(|e| e.to_string()).or_viol("decode-failed", "opening a chunk failed")?;
                    let mut t = SegmentedExecutionTimes::new();
                    let v = cr.inner_mut().decompress(&mut t).map_err(|e| e.to_string()).or_viol("decode-failed", "decompressing a chunk failed")?;
                    all.extend_from_slice(v);
                });
            }
            all
        }
        _ => {
            let n = each!(&mut d, x => x.chunk_footers().len());
            let mut all = vec![];
            for i in 0..n {
                let mut out = DecoderOutput::from_vec(vec![]);
                each!(&mut d, x => x.materialize(&mut out, None, Some(ChunkId::new(i))).map_err(|e| e.to_string()))
                    .or_viol("decode-failed", "materializing a chunk failed")?;
                all.extend(values_of(&out.into_writer().into_inner()));
            }
            all
        }
    };
    st.absorb(&rctl.lock().unwrap());
    f.check_values(&got, &data, None).or_viol("roundtrip", &format!("decoded records differ from the encoded ones ({})", f.describe()))
}

// ---------------------------------------------------------------- C02

pub fn gen_c02(r: &mut Rng, index: u64) -> Case {
    let mut c = Case::new("C02");
    let max_n = if r.chance(1, 12) { 3000 } else { 300 };
    let f = gen_big(r, Gen { max_n, tail: true, ..Default::default() }, index);
    let k = est_calls(&f);
    c.files.push(f);
    for _ in 0..2 {
        c.scripts.push(maybe_benign(r, k));
    }
    c.put("in_buf", r.chance(1, 3) as i64);
    c.put("out_buf", r.chance(1, 3) as i64);
    gen_clock(r, &mut c);
    c
}

/// Bytes of the file without the timing fields (all of the last footer part but the checksum).
pub fn masked(b: &[u8]) -> Vec<u8> {
    let n = std::mem::size_of::<ebi::format::FileFooter3>();
    let mut v = b.to_vec();
    let l = v.len();
    if l >= n {
        v[l - n..l - 4].iter_mut().for_each(|x| *x = 0);
    }
    v
}

/// The same file written with a fresh codec for every chunk, through the lower-level writer.
fn encode_fresh(f: &FileSpec) -> Result<Vec<u8>, String> {
    let bytes = f.input_bytes();
    let mut out = sess::cursor(vec![]);
    let mut w = FileWriter::new(&bytes[..], f.config(), f.chunk.opt());
    let s = |e: std::io::Error| e.to_string();
    w.write_header(&mut out).map_err(s)?;
    while let Some(mut cw) = w.chunk_writer() {
        cw.write(&mut out).map_err(|e| e.to_string())?;
    }
    w.write_footer(&mut out, SegmentedExecutionTimes::new()).map_err(s)?;
    let o = w.footer_offset_slot_offset();
    out.seek(SeekFrom::Start(o as u64)).map_err(s)?;
    w.write_footer_offset(&mut out).map_err(s)?;
    let o = w.elapsed_time_slot_offset();
    out.seek(SeekFrom::Start(o as u64)).map_err(s)?;
    w.write_elapsed_time(&mut out).map_err(s)?;
    out.flush().map_err(s)?;
    Ok(out.into_inner())
}

pub fn run_c02(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let plain = encode_plain(f).or_viol("encode-failed", "encoding failed")?;
    run_clock(c);
    let e = encode_case(c, st, None, false);
    e.result.or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
    let diff = |what: &str, a: &[u8], b: &[u8]| -> Res {
        if a == b {
            return Ok(());
        }
        let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        viol("bytes-differ", format!("{what}: files of {} and {} bytes differ first at byte {at} ({})", a.len(), b.len(), f.describe()))
    };
    let pm = masked(&plain);
    diff("same records over another I/O schedule", &pm, &masked(&e.bytes))?;
    let fresh = encode_fresh(f).or_viol("encode-failed", "chunk-wise encoding failed")?;
    diff("same records with a fresh codec per chunk", &pm, &masked(&fresh))?;
    let d = plain_decoder(&Arc::new(plain)).or_viol("open-failed", "opening a complete file failed")?;
    if let Some(lens) = f.chunk_lens() {
        let mut cuts: Vec<u64> = d.chunk_footers().iter().map(|x| x.logical_offset()).collect();
        cuts.push(d.footer().number_of_records());
        let got: Vec<usize> = cuts.windows(2).map(|w| (w[1] - w[0]) as usize).collect();
        if got != lens {
            return viol("chunk-sizes", format!("chunks of {got:?} records instead of {lens:?} ({})", f.describe()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

/// `op` narrows the calls counted by `at`: 0 all, 1 flushes, 2 seeks.
fn out_fault(r: &mut Rng) -> FaultAt {
    FaultAt { stream: 1, op: *r.pick(&[0usize, 0, 1, 2]), at: r.below(1 << 20) as u32, fault: *r.pick(&WRITE_FAULTS), sticky: r.chance(1, 2) }
}

/// The index of the call a fault hits, given the control block of a fault-free run.
fn resolve(fa: &FaultAt, dry: &Ctl) -> u32 {
    let v = match fa.op {
        1 => &dry.kinds[Call::Flush as usize],
        2 => &dry.kinds[Call::Seek as usize],
        _ => &vec![],
    };
    if v.is_empty() {
        (fa.at as u64 % dry.calls.max(1)) as u32
    } else {
        v[fa.at as usize % v.len()]
    }
}

pub fn gen_c03(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C03");
    let mut f = gen_file(r, Gen { max_n: 200, tail: true, ..Default::default() });
    let k = est_calls(&f);
    if r.chance(1, 40) {
        f.chunk = if r.chance(1, 2) { Chunk::Rec(0) } else { Chunk::Bytes(0) };
    }
    c.files.push(f);
    for _ in 0..2 {
        c.scripts.push(if r.chance(1, 2) { Script::default() } else { benign(r, k) });
    }
    c.put("in_buf", r.chance(1, 3) as i64);
    c.put("out_buf", r.chance(1, 3) as i64);
    match r.below(6) {
        0 => c.put("cap", 1 + r.below(1 << 20) as i64), // full disk, resolved against the file size
        1 | 2 => c.faults.push(FaultAt {
            stream: 0,
            op: 0,
            at: r.below(1 << 20) as u32,
            fault: *r.pick(&READ_FAULTS),
            sticky: r.chance(1, 2),
        }),
        _ => c.faults.push(out_fault(r)),
    }
    c.put("lossy", r.chance(1, 3) as i64);
    gen_clock(r, &mut c);
    c
}

pub fn place(s: &mut Script, at: u32, a: Act) {
    s.at.retain(|x| x.0 != at);
    s.at.push((at, a));
    s.at.sort_by_key(|x| x.0);
}

pub fn run_c03(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    if matches!(f.chunk, Chunk::Rec(0) | Chunk::Bytes(0)) {
        // no room for a record: refused, or all of them are there all the same
        let sink = SimSink::new(Ctl::arc(&c.script(1)), None, false);
        let input = SimReader::new(Arc::new(f.input_bytes()), Ctl::arc(&c.script(0)));
        st.nontrivial = true;
        if encode_sim(f, input, sink.clone(), c.get("in_buf") != 0, c.get("out_buf") != 0).is_ok() {
            let bytes = sink.st.lock().unwrap().content.clone();
            let got = decode_plain(&Arc::new(bytes)).or_viol("false-success", "encoding succeeded, decoding does not")?;
            f.check_values(&got, &f.values(), None).or_viol("false-success", "encoding with no room in a chunk succeeded without its records")?;
        }
        return Ok(());
    }
    // fault-free run to learn the number of calls and the size
    run_clock(c);
    let mut dry = Stats::default();
    let (dry_ctl, size) = {
        let ictl = Ctl::arc(&c.script(0));
        let octl = Ctl::arc(&c.script(1));
        octl.lock().unwrap().track_kinds = true;
        let sink = SimSink::new(octl.clone(), None, false);
        let input = SimReader::new(Arc::new(f.input_bytes()), ictl.clone());
        encode_sim(f, input, sink.clone(), c.get("in_buf") != 0, c.get("out_buf") != 0)
            .or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
        let l = sink.st.lock().unwrap().content.len();
        ([ictl, octl], l)
    };
    for x in &dry_ctl {
        dry.io_calls += x.lock().unwrap().calls;
    }
    let mut c2 = c.clone();
    let mut sticky = false;
    for fa in &c.faults {
        let s = (fa.stream as usize).min(1);
        let at = resolve(fa, &dry_ctl[s].lock().unwrap());
        while c2.scripts.len() <= s {
            c2.scripts.push(Script::default());
        }
        place(&mut c2.scripts[s], at, Act::Fail(fa.fault));
        sticky |= fa.sticky;
    }
    let cap = match c.get("cap") {
        0 => None,
        k => Some(k as u64 % (size as u64 + 1)),
    };
    run_clock(c);
    let ictl = Ctl::arc(&c2.script(0));
    let octl = Ctl::arc(&c2.script(1));
    ictl.lock().unwrap().sticky = sticky;
    octl.lock().unwrap().sticky = sticky;
    let sink = SimSink::new(octl.clone(), cap, false);
    if c.get("lossy") != 0 {
        sink.st.lock().unwrap().lossy = Some(vec![]);
    }
    let input = SimReader::new(Arc::new(f.input_bytes()), ictl.clone());
    let r = encode_sim(f, input, sink.clone(), c.get("in_buf") != 0, c.get("out_buf") != 0);
    let hard = ictl.lock().unwrap().hard + octl.lock().unwrap().hard;
    st.absorb(&ictl.lock().unwrap());
    st.absorb(&octl.lock().unwrap());
    st.nontrivial = hard > 0;
    st.mix(r.is_ok() as u64);
    match r {
        Err(e) => {
            st.add("encode_reported_failure", 1);
            if hard == 0 {
                return viol("spurious-error", format!("encoding failed although nothing went wrong: {e}"));
            }
            Ok(())
        }
        Ok(()) => {
            st.add("encode_succeeded", 1);
            if hard > 0 && (sticky || cap.is_some()) {
                return viol(
                    "silent-failure",
                    format!("encoding reported success although its {} stream failed for good ({} failed calls)", if ictl.lock().unwrap().hard > 0 { "input" } else { "output" }, hard),
                );
            }
            let s = sink.st.lock().unwrap();
            if s.dirty {
                return viol("not-flushed", "encoding reported success with unflushed bytes");
            }
            let bytes = Arc::new(s.content.clone());
            drop(s);
            let got = decode_plain(&bytes).or_viol("incomplete", "encoding reported success but the file cannot be decoded")?;
            f.check_values(&got, &f.values(), None).or_viol("incomplete", "encoding reported success but the file holds other records")
        }
    }
}

// ---------------------------------------------------------------- C04

pub fn gen_c04(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C04");
    let max_n = if r.chance(1, 6) { 1500 } else { 150 };
    let f = gen_file(r, Gen { max_n, ..Default::default() });
    c.files.push(f);
    // writes reach the device whole or in pieces of at least 16 bytes
    let base = match r.below(4) {
        0 => Act::Short(16 + r.us(100) as u32),
        1 => Act::Short(*r.pick(&[512u32, 1024, 4096])),
        _ => Act::Full,
    };
    c.scripts.push(Script::default());
    c.scripts.push(Script { base, at: vec![] });
    c.put("out_buf", r.chance(1, 2) as i64);
    if r.chance(1, 3) {
        c.faults.push(out_fault(r));
    }
    for _ in 0..24 {
        c.picks.push(r.u64() as u32);
    }
    c
}

struct Piece {
    op: usize,
    off: u64,
    bytes: Vec<u8>,
}

fn complete(f: &FileSpec, d: Dec) -> Result<(), String> {
    let mut d = d;
    let n = each!(&d, x => x.footer().number_of_records());
    let want = f.values();
    if n != want.len() as u64 {
        return Err(format!("it claims {n} records instead of {}", want.len()));
    }
    let op = Op::Mat { bm: None, chunk: None };
    let a = each!(&mut d, x => sess::query(x, &op, None)).map_err(|e| format!("it opens but cannot be decoded: {e}"))?;
    match a {
        Ans::Bytes(b) => {
            if b.len() % 8 != 0 {
                return Err("torn record".into());
            }
            f.check_values(&values_of(&b), &want, None)
        }
        _ => unreachable!(),
    }
}

pub fn run_c04(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    run_clock(c);
    let mut c2 = c.clone();
    c2.scripts.resize(2, Script::default());
    let mut sticky = false;
    for fa in &c.faults {
        let ctl = Ctl::arc(&c.script(1));
        ctl.lock().unwrap().track_kinds = true;
        let sink = SimSink::new(ctl.clone(), None, false);
        let input = SimReader::new(Arc::new(f.input_bytes()), Ctl::arc(&c.script(0)));
        encode_sim(f, input, sink, c.get("in_buf") != 0, c.get("out_buf") != 0)
            .or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
        let at = resolve(fa, &ctl.lock().unwrap());
        place(&mut c2.scripts[1], at, Act::Fail(fa.fault));
        sticky |= fa.sticky;
        run_clock(c);
    }
    let e = encode_case_with(&c2, st, None, true, sticky);
    let done = e.result.is_ok();
    if c.faults.is_empty() {
        e.result.or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
    }
    st.add(if done { "encode_succeeded" } else { "encode_reported_failure" }, 1);
    let log = e.sink.st.lock().unwrap().log.clone();
    let mut pieces: Vec<Piece> = vec![];
    for (i, op) in log.iter().enumerate() {
        if let WOp::W(off, b, _) = op {
            let mut a = 0usize;
            while a < b.len() {
                let pos = off + a as u64;
                let room = (512 - pos % 512) as usize;
                let e = (a + room).min(b.len());
                pieces.push(Piece { op: i, off: pos, bytes: b[a..e].to_vec() });
                a = e;
            }
        }
    }
    let apply = |img: &mut Vec<u8>, p: &Piece| {
        let a = p.off as usize;
        if img.len() < a + p.bytes.len() {
            img.resize(a + p.bytes.len(), 0);
        }
        img[a..a + p.bytes.len()].copy_from_slice(&p.bytes);
    };
    let mut tested = 0u64;
    let mut full = 0u64;
    let mut try_image = |img: Vec<u8>, what: &dyn Fn() -> String, must: bool, st: &mut Stats| -> Res {
        tested += 1;
        let img = Arc::new(img);
        let (rd, _) = reader_for(&img, &Script::default());
        match open(rd, false) {
            Err(e) => {
                st.mix(1);
                if must {
                    return viol("lost-after-success", format!("{}: after success the file cannot be opened: {e}", what()));
                }
                Ok(())
            }
            Ok(d) => {
                st.mix(2);
                full += 1;
                complete(f, d).or_viol(
                    if must { "lost-after-success" } else { "wrong-after-crash" },
                    &format!("{}: what is left opens but is not the dataset", what()),
                )
            }
        }
    };
    // (a) seeded crash states
    for &p in &c.picks {
        let mut r = Rng::new(p as u64, "crash", 0);
        let point = if r.chance(1, 2) { log.len() - r.us(log.len().min(6) + 1) } else { r.us(log.len() + 1) };
        // everything issued before the last flush that happened before the crash is durable
        let barrier = log[..point].iter().rposition(|o| matches!(o, WOp::Flush(_))).map_or(0, |x| x + 1);
        let mut img = vec![];
        // what a failed flush was responsible for stays in doubt whatever is flushed later
        let doubt = |op: usize| log[op..point].iter().find(|o| !matches!(o, WOp::W(..))).is_some_and(|o| matches!(o, WOp::BadFlush));
        let late: Vec<&Piece> = pieces.iter().filter(|p| p.op < point && (p.op >= barrier || doubt(p.op))).collect();
        let keep: Vec<bool> = match r.below(4) {
            0 => late.iter().map(|_| r.chance(1, 2)).collect(),
            1 => {
                let drop = r.us(late.len().max(1));
                (0..late.len()).map(|i| i != drop).collect()
            }
            2 => {
                let only = r.us(late.len().max(1));
                (0..late.len()).map(|i| i == only).collect()
            }
            _ => late.iter().map(|_| r.chance(4, 5)).collect(),
        };
        let mut kept_late = keep.iter();
        for p in pieces.iter().filter(|p| p.op < point) {
            let unsure = p.op >= barrier || doubt(p.op);
            if !unsure || *kept_late.next().unwrap_or(&false) {
                apply(&mut img, p);
            } else if r.chance(1, 8) {
                // the length was journalled, the data was not
                let e = p.off as usize + p.bytes.len();
                if img.len() < e {
                    img.resize(e, 0);
                }
            }
        }
        let kept = keep.iter().filter(|k| **k).count();
        let must = done && point == log.len() && log[barrier..].iter().all(|o| !matches!(o, WOp::W(..)));
        try_image(
            img,
            &|| format!("crash after {point} of {} device operations, {kept} of {} unflushed sector writes kept", log.len(), late.len()),
            must,
            st,
        )?;
    }
    // (b) what a concurrent reader sees: every prefix near the end, and some earlier ones
    let mut img = vec![];
    let mut images: Vec<Arc<Vec<u8>>> = vec![];
    let stride = (log.len() / 24).max(1);
    for (i, op) in log.iter().enumerate() {
        if let WOp::W(off, b, _) = op {
            apply(&mut img, &Piece { op: i, off: *off, bytes: b.clone() });
        }
        if i + 8 >= log.len() || i % stride == 0 {
            try_image(img.clone(), &|| format!("reader after {} of {} device operations", i + 1, log.len()), done && i + 1 == log.len(), st)?;
            images.push(Arc::new(img.clone()));
        }
    }
    // (c) a reader whose successive calls see a file that keeps growing
    for &p in c.picks.iter().take(if images.is_empty() { 0 } else { 8 }) {
        let mut r = Rng::new(p as u64, "moving", 1);
        let mut from = r.us(images.len().max(1));
        let mut steps = vec![];
        for _ in 0..12 {
            steps.push(from);
            if r.chance(1, 2) {
                from = (from + r.us(3)).min(images.len().saturating_sub(1));
            }
        }
        tested += 1;
        let rd = MovingReader { images: images.clone(), steps, call: 0, pos: 0 };
        let r = Decoder::new(DecoderInput::from_reader(rd));
        match r {
            Err(_) => st.mix(3),
            Ok(mut d) => {
                st.mix(4);
                let mut out = DecoderOutput::from_vec(vec![]);
                let n = d.footer().number_of_records();
                if let Err(e) = d.materialize(&mut out, None, None) {
                    return viol("wrong-after-crash", format!("a reader racing with the encoder opened the file but cannot decode it: {e}"));
                }
                let got = values_of(&out.into_writer().into_inner());
                if n != f.data.len() as u64 {
                    return viol("wrong-after-crash", format!("a reader racing with the encoder sees {n} records instead of {}", f.data.len()));
                }
                f.check_values(&got, &f.values(), None).or_viol("wrong-after-crash", "a reader racing with the encoder gets other records")?;
            }
        }
    }
    st.add("crash_states_opened", tested);
    st.add("crash_states_with_complete_file", full);
    st.nontrivial = tested > full;
    Ok(())
}

struct MovingReader {
    images: Vec<Arc<Vec<u8>>>,
    steps: Vec<usize>,
    call: usize,
    pos: u64,
}
impl std::io::Read for MovingReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let s = self.steps[self.call.min(self.steps.len() - 1)];
        self.call += 1;
        let d = &self.images[s];
        let a = (self.pos as usize).min(d.len());
        let n = buf.len().min(d.len() - a);
        buf[..n].copy_from_slice(&d[a..a + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for MovingReader {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let s = self.steps[self.call.min(self.steps.len() - 1)];
        self.pos = match to {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => (self.images[s].len() as i64 + d) as u64,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

// ---------------------------------------------------------------- C14

pub fn gen_c14(r: &mut Rng, index: u64) -> Case {
    let mut c = Case::new("C14");
    let max_n = if r.chance(1, 10) { 3000 } else { 300 };
    let f = if index % 4000 == 1234 {
        // more chunks than 16 bits count
        let scheme = *r.pick(&[Scheme::Uncompressed, Scheme::Rle, Scheme::Gorilla, Scheme::Elf, Scheme::Snappy]);
        let n = 65_000 + r.us(2500);
        FileSpec { scheme, scale: 1, param: Some(64), chunk: Chunk::Rec(1), data: gen_values(r, scheme, 0, n, true), tail: 0 }
    } else {
        gen_big(r, Gen { max_n, tail: true, ..Default::default() }, index)
    };
    let k = est_calls(&f);
    c.files.push(f);
    for _ in 0..3 {
        c.scripts.push(maybe_benign(r, k));
    }
    for k in ["in_buf", "out_buf", "rd_buf"] {
        c.put(k, r.chance(1, 3) as i64);
    }
    if r.chance(1, 20) {
        c.put("real_file", 1 + r.us(4000) as i64);
    }
    // any 64-bit parameter and chunk option value, written and read back without building a codec
    for k in ["ex_opt", "ex_param", "ex_scale"] {
        let v = r.u64() >> r.below(64);
        c.put(k, if r.chance(1, 8) { 0 } else { v as i64 });
    }
    gen_clock(r, &mut c);
    c
}

/// A file without records whose chunk option and codec parameters may have any value, written step by step.
fn extreme_params(c: &Case, f: &FileSpec) -> Res {
    use ebi::compressor::CompressorConfig as K;
    use ebi::encoder::FileWriter;
    let (v, p, s) = (c.get("ex_opt") as u64, c.get("ex_param") as u64, c.get("ex_scale") as u64);
    let cfg: K = match f.scheme {
        Scheme::Uncompressed => K::uncompressed().capacity(p).build().into(),
        Scheme::Rle => K::rle().capacity(p).build().into(),
        Scheme::Gorilla => K::gorilla().capacity(p).build().into(),
        Scheme::Buff => K::buff().scale(s).build().into(),
        Scheme::Chimp => K::chimp().capacity(p).build().into(),
        Scheme::Chimp128 => K::chimp128().capacity(p).build().into(),
        Scheme::ElfOnChimp => K::elf_on_chimp().capacity(p).build().into(),
        Scheme::Elf => K::elf().capacity(p).build().into(),
        Scheme::Sprintz => K::delta_sprintz().scale(s).capacity(p).build().into(),
        Scheme::Zstd => K::zstd().level(p as i32).build().into(),
        Scheme::Gzip => K::gzip().level(p as u32).build().into(),
        Scheme::Snappy => K::snappy().build().into(),
    };
    let opt = match f.chunk {
        Chunk::Full => ebi::encoder::ChunkOption::Full,
        Chunk::Rec(_) => ebi::encoder::ChunkOption::RecordCount(v as usize),
        Chunk::Bytes(_) => ebi::encoder::ChunkOption::ByteSizeBestEffort(v as usize),
    };
    let write = || -> std::io::Result<Vec<u8>> {
        let mut w = FileWriter::new(std::io::empty(), cfg, opt);
        let mut out = std::io::Cursor::new(vec![]);
        w.write_header(&mut out)?;
        w.write_footer(&mut out, ebi::time::SegmentedExecutionTimes::new())?;
        out.set_position(w.footer_offset_slot_offset() as u64);
        w.write_footer_offset(&mut out)?;
        out.set_position(w.elapsed_time_slot_offset() as u64);
        w.write_elapsed_time(&mut out)?;
        Ok(out.into_inner())
    };
    let bytes = Arc::new(write().map_err(|e| e.to_string()).or_viol("encode-failed", "writing an empty file step by step failed")?);
    let d = plain_decoder(&bytes).or_viol("open-failed", "opening an empty file written step by step failed")?;
    let got = (*d.header().config().chunk_option(), *d.footer().compressor_config(), d.footer().number_of_records(), d.total_file_size());
    if got != (opt, cfg, 0, bytes.len() as u64) {
        return viol("metadata", format!("a file with {opt:?}, {cfg:?}, no records and {} bytes says {got:?}", bytes.len()));
    }
    Ok(())
}

fn crate_version() -> [u16; 3] {
    let t = include_str!("/repo/ebi/Cargo.toml");
    let v = t.lines().find_map(|l| l.trim().strip_prefix("version")).unwrap();
    let v = v.trim_start_matches([' ', '=', '"']).split('"').next().unwrap();
    let p: Vec<u16> = v.split('.').map(|x| x.parse().unwrap_or(u16::MAX)).collect();
    [p[0], p[1], p[2]]
}

pub fn run_c14(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    run_clock(c);
    extreme_params(c, f)?;
    let bytes = if c.get("real_file") > 0 {
        let dir = std::path::PathBuf::from(std::env::var("EBISIM_SCRATCH").unwrap_or("/tmp/ebisim-none".into()));
        let r = real_file(&dir, f, c.get("real_file") as usize);
        let _ = std::fs::remove_dir_all(&dir);
        st.add("real_files", 1);
        Arc::new(r.or_viol("encode-failed", "encoding to a file failed")?)
    } else {
        let e = encode_case(c, st, None, false);
        e.result.or_viol("encode-failed", "encoding under a benign I/O schedule failed")?;
        e.bytes
    };
    let (rd, rctl) = reader_for(&bytes, &c.script(2));
    let mut d = open(rd, c.get("rd_buf") != 0).or_viol("open-failed", &format!("opening a complete file failed ({})", f.describe()))?;
    let n = f.data.len() as u64;
    let bad = |what: &str, got: String, want: String| -> Res { viol("metadata", format!("{what} is {got} instead of {want} ({})", f.describe())) };
    each!(&mut d, x => {
        let h = *x.header();
        if h.magic_number() != b"EBI1" {
            return bad("magic number", format!("{:?}", h.magic_number()), "EBI1".into());
        }
        if *h.version() != crate_version() {
            return bad("version", format!("{:?}", h.version()), format!("{:?}", crate_version()));
        }
        if *h.config().chunk_option() != f.chunk.opt() {
            return bad("chunk option", format!("{:?}", h.config().chunk_option()), format!("{:?}", f.chunk));
        }
        let cfg = f.config();
        if *h.config().compression_scheme() != cfg.compression_scheme() {
            return bad("scheme", format!("{:?}", h.config().compression_scheme()), format!("{:?}", cfg.compression_scheme()));
        }
        if *h.config().field_type() != ebi::format::FieldType::F64 {
            return bad("field type", format!("{:?}", h.config().field_type()), "F64".into());
        }
        if *x.footer().compressor_config() != cfg {
            return bad("codec parameters", format!("{:?}", x.footer().compressor_config()), format!("{cfg:?}"));
        }
        if x.footer().number_of_records() != n {
            return bad("number of records", x.footer().number_of_records().to_string(), n.to_string());
        }
        let cf: Vec<(u64, u64)> = x.chunk_footers().iter().map(|c| (c.physical_offset(), c.logical_offset())).collect();
        if x.footer().number_of_chunks() != cf.len() as u64 {
            return bad("number of chunks", x.footer().number_of_chunks().to_string(), cf.len().to_string());
        }
        if let Some(l) = f.chunk_lens() {
            if l.len() != cf.len() {
                return bad("number of chunks", cf.len().to_string(), l.len().to_string());
            }
            let mut a = 0;
            for (i, k) in l.iter().enumerate() {
                if cf[i].1 != a as u64 {
                    return bad(&format!("first record of chunk {i}"), cf[i].1.to_string(), a.to_string());
                }
                a += k;
            }
        }
        if cf.is_empty() != (n == 0) {
            return bad("number of chunks", cf.len().to_string(), format!("consistent with {n} records"));
        }
        for (i, w) in cf.windows(2).enumerate() {
            if w[1].0 <= w[0].0 || w[1].1 <= w[0].1 {
                return bad(&format!("chunk table entry {}", i + 1), format!("{:?}", w[1]), format!("beyond {:?}", w[0]));
            }
        }
        if let (Some(a), Some(z)) = (cf.first(), cf.last()) {
            if a.0 != HEADER_SIZE as u64 || a.1 != 0 {
                return bad("first chunk", format!("{a:?}"), format!("({HEADER_SIZE}, 0)"));
            }
            if z.0 >= h.footer_offset() || z.1 >= n {
                return bad("last chunk", format!("{z:?}"), format!("before footer {} and record {n}", h.footer_offset()));
            }
        }
        let size = bytes.len() as u64;
        if x.total_file_size() != size {
            return bad("total file size", x.total_file_size().to_string(), size.to_string());
        }
        let data_area = h.footer_offset() - HEADER_SIZE as u64;
        if x.total_chunk_size() != data_area || h.footer_offset() + x.footer_size() != size {
            return bad("sizes", format!("header {HEADER_SIZE} + chunks {} + footer {}", x.total_chunk_size(), x.footer_size()), size.to_string());
        }
        // a codec rebuilt from the stored parameters writes the same first chunk
        let mut total = 0;
        for i in 0..cf.len().min(50) {
            let want_n = cf.get(i + 1).map_or(n, |z| z.1) - cf[i].1;
            let r = x.chunk_reader(ChunkId::new(i)).map_err(|e| e.to_string()).or_viol("open-failed", "opening a chunk failed")?;
            if r.number_of_records() != want_n || r.chunk_index() != i || r.is_last_chunk() != (i + 1 == cf.len()) {
                return bad(&format!("chunk {i}"), format!("{} records, index {}, last {}", r.number_of_records(), r.chunk_index(), r.is_last_chunk()), format!("{want_n} records"));
            }
            total += 1;
        }
        st.add("chunks_inspected", total);
    });
    st.absorb(&rctl.lock().unwrap());
    Ok(())
}

fn real_file(dir: &std::path::Path, f: &FileSpec, old: usize) -> Result<Vec<u8>, String> {
    let s = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(dir).map_err(s)?;
    let (i, o) = (dir.join("in.bin"), dir.join("out.ebi"));
    std::fs::write(&i, f.input_bytes()).map_err(s)?;
    // a longer file is already there
    std::fs::write(&o, vec![0xAB; f.data.len() * 9 + 2000 + old]).map_err(s)?;
    let input = EncoderInput::from_file(&i).map_err(s)?;
    let output = EncoderOutput::from_file(&o).map_err(s)?;
    if old % 2 == 0 {
        let mut e = Encoder::new(input, output, f.chunk.opt(), f.config());
        e.encode().map_err(|e| e.to_string())?;
    } else {
        let mut e = Encoder::new(input, output.into_buffered(), f.chunk.opt(), f.config());
        e.encode().map_err(|e| e.to_string())?;
    }
    let mut d = Decoder::new(DecoderInput::from_file(&o).map_err(s)?.into_buffered()).map_err(|e| e.to_string())?;
    let m = dir.join("mat.bin");
    std::fs::write(&m, vec![1u8; 100]).map_err(s)?;
    let mut out = DecoderOutput::from_file(&m).map_err(s)?;
    d.materialize(&mut out, None, None).map_err(|e| e.to_string())?;
    drop(out);
    let got = values_of(&std::fs::read(&m).map_err(s)?);
    f.check_values(&got, &f.values(), None)?;
    std::fs::read(&o).map_err(s)
}
