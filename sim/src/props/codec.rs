//! Histories of codec instances (C16).
use super::encode::place;
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::simio::*;
use crate::spec::*;
use ebi::compressor::{AppendableCompressor, Compressor, GenericCompressor, RewindableCompressor};
use ebi::encoder::FileWriter;

pub fn gen_c16(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C16");
    let k = 1 + r.us(3);
    for _ in 0..k {
        let scheme = if r.chance(1, 3) { *r.pick(&[Scheme::Rle, Scheme::Uncompressed]) } else { gen_scheme(r) };
        let max_n = if r.chance(1, 15) { 1500 } else { 120 };
        let mut f = if r.chance(1, 3000) { gen_huge(r, scheme) } else { gen_file_for(r, scheme, Gen { max_n, tame: false, allow_empty: false, tail: false }) };
        if scheme == Scheme::Rle && r.chance(1, 3) {
            // runs around the 255 limit of a run-length field
            let v = f.data[0];
            let n = 200 + r.us(400);
            f.data = (0..n).map(|i| if r.chance(1, 150) { f.data[i % f.data.len()] } else { v }).collect();
        }
        c.files.push(f);
    }
    let n_ops = 2 + r.us(14);
    for i in 0..n_ops {
        let file = r.us(k);
        let n = c.files[file].data.len();
        let from = r.us(n);
        let len = 1 + if r.chance(1, 3) { r.us(3) } else { r.us(n) };
        let can = matches!(c.files[file].scheme, Scheme::Rle | Scheme::Uncompressed);
        let op = match r.below(10) {
            0 | 1 => Op::Compress { file, from, len },
            2..=4 if can => Op::Append { file, from, len },
            5 | 6 if can => Op::Rewind(if r.chance(1, 3) { r.us(3) } else { r.us(n + n / 2 + 1) }),
            7 => Op::Reset,
            8 => Op::Prepare,
            9 => {
                if r.chance(1, 2) {
                    c.faults.push(FaultAt { stream: 1, op: i, at: r.below(3) as u32, fault: *r.pick(&WRITE_FAULTS), sticky: r.chance(1, 2) });
                }
                Op::Compress { file, from, len }
            }
            _ => Op::Compress { file, from, len },
        };
        c.picks.push(file as u32);
        c.ops.push(op);
    }
    c.scripts.push(maybe_benign(r, 20));
    c.scripts.push(maybe_benign(r, 20));
    c
}

/// What one instance holds, as far as the protocol allows to say.
#[derive(Clone, PartialEq, Debug)]
enum Holds {
    /// not yet closed
    Open(Vec<u64>),
    /// `prepare` was called
    Closed(Vec<u64>),
    /// abandoned in the middle of a chunk
    Unknown,
}

fn values(v: &[u64]) -> Vec<f64> {
    v.iter().map(|b| f64::from_bits(*b)).collect()
}
fn snapshot(g: &GenericCompressor) -> (usize, usize, Vec<u8>) {
    (g.total_bytes_in(), g.total_bytes_buffered(), g.buffers().concat())
}
/// What a fresh instance says about the same records.
fn reference(f: &FileSpec, held: &[u64], closed: bool) -> Result<(usize, usize, Vec<u8>), String> {
    let mut g = f.config().build();
    if !held.is_empty() {
        g.compress(&values(held)).map_err(|e| format!("{e}"))?;
    }
    if closed {
        g.prepare();
    }
    let now = snapshot(&g);
    if !closed && !held.is_empty() {
        // what it announces is what it will hand out
        g.prepare();
        let out: usize = g.buffers().iter().map(|b| b.len()).sum();
        if out != now.1 {
            return Err(format!("{} of {} records announces {} bytes and hands out {out}", f.describe(), held.len(), now.1));
        }
    }
    Ok(now)
}

pub fn run_c16(c: &Case, st: &mut Stats) -> Res {
    if c.files.is_empty() {
        return Ok(());
    }
    let mut insts: Vec<GenericCompressor> = c.files.iter().map(|f| f.config().build()).collect();
    let mut held: Vec<Holds> = vec![Holds::Open(vec![]); c.files.len()];
    let k = c.files.len();
    let mut trail: Vec<Vec<String>> = vec![vec![]; k];
    for (i, op) in c.ops.iter().enumerate() {
        let w = match op {
            Op::Compress { file, .. } | Op::Append { file, .. } => *file % k,
            _ => c.picks.get(i).copied().unwrap_or(0) as usize % k,
        };
        let f = &c.files[w];
        if f.data.is_empty() {
            continue;
        }
        let slice = |from: usize, len: usize| -> Vec<u64> {
            let a = from.min(f.data.len() - 1);
            let b = (a + len.max(1)).min(f.data.len());
            f.data[a..b].to_vec()
        };
        let what = format!("codec {w} ({}) after {:?}, then {}", f.describe(), trail[w], name(op));
        trail[w].push(name(op));
        st.add("codec_operations", 1);
        match op {
            Op::Compress { from, len, .. } => {
                let rec = slice(*from, *len);
                let fa: Vec<&FaultAt> = c.faults.iter().filter(|x| x.op == i).collect();
                if fa.is_empty() {
                    insts[w].compress(&values(&rec)).map_err(|e| format!("{e}")).or_viol("compress-failed", &what)?;
                    held[w] = Holds::Open(rec);
                } else {
                    // one chunk through the file writer, into a sink that fails
                    let part = FileSpec { data: rec, tail: 0, ..f.clone() };
                    let ictl = Ctl::arc(&c.script(0));
                    let octl = Ctl::arc(&c.script(1));
                    for x in &fa {
                        let mut o = octl.lock().unwrap();
                        place(&mut o.script, x.at, Act::Fail(x.fault));
                        o.sticky = x.sticky;
                    }
                    let input = SimReader::new(std::sync::Arc::new(part.input_bytes()), ictl.clone());
                    let sink = SimSink::new(octl.clone(), None, false);
                    let mut fw = FileWriter::new(input, f.config(), ebi::encoder::ChunkOption::Full);
                    let g = insts[w].clone();
                    if let Some(mut cw) = fw.chunk_writer_with_compressor(Some(g)) {
                        let r = cw.write(sink.clone());
                        if r.is_err() && octl.lock().unwrap().hard == 0 {
                            return viol("spurious-error", format!("{what}: writing a chunk failed although nothing went wrong"));
                        }
                        if r.is_ok() {
                            let want = reference(f, &part.data, true).or_viol("compress-failed", &what)?;
                            if sink.content() != want.2 {
                                return viol("bytes-differ", format!("{what}: a chunk written with a reused codec differs from a fresh one's"));
                            }
                        }
                        st.add(if r.is_err() { "abandoned_chunks" } else { "written_chunks" }, 1);
                        insts[w] = cw.into_compressor();
                    }
                    st.absorb(&ictl.lock().unwrap());
                    st.absorb(&octl.lock().unwrap());
                    held[w] = Holds::Unknown;
                }
            }
            Op::Append { from, len, .. } => {
                let Holds::Open(h) = &mut held[w] else { continue };
                let rec = slice(*from, *len);
                match &mut insts[w] {
                    GenericCompressor::Uncompressed(x) => x.append_compress(&values(&rec)),
                    GenericCompressor::RLE(x) => x.append_compress(&values(&rec)),
                    _ => continue,
                }
                h.extend(rec);
            }
            Op::Rewind(n) => {
                let Holds::Open(h) = &mut held[w] else { continue };
                // taking nothing back, or from nothing: either answer is fine, nothing may change
                let ok = match &mut insts[w] {
                    GenericCompressor::Uncompressed(x) => x.rewind(*n),
                    GenericCompressor::RLE(x) => x.rewind(*n),
                    _ => continue,
                };
                if *n > 0 && ok != (*n <= h.len()) {
                    return viol("rewind", format!("{what}: rewinding {n} of {} records reported {ok}", h.len()));
                }
                if *n <= h.len() {
                    h.truncate(h.len() - n);
                }
            }
            Op::Reset => {
                insts[w].reset();
                held[w] = Holds::Open(vec![]);
            }
            Op::Prepare => {
                let Holds::Open(h) = &held[w] else { continue };
                insts[w].prepare();
                held[w] = Holds::Closed(h.clone());
            }
            _ => continue,
        }
        // every instance, not only the one just used
        for w in 0..k {
            let (h, closed) = match &held[w] {
                Holds::Open(h) => (h, false),
                Holds::Closed(h) => (h, true),
                Holds::Unknown => continue,
            };
            let f = &c.files[w];
            let want = reference(f, h, closed).or_viol("compress-failed", &what)?;
            let got = snapshot(&insts[w]);
            if got.0 != want.0 || got.1 != want.1 {
                return viol(
                    "counters-differ",
                    format!("{what}: codec {w} holds {} records and counts {} bytes in, {} buffered; a fresh one {} and {}", h.len(), got.0, got.1, want.0, want.1),
                );
            }
            // before `prepare` the buffers are not meant to be read
            if closed && got.2 != want.2 {
                return viol("bytes-differ", format!("{what}: codec {w} yields {} bytes that differ from a fresh one's {}", got.2.len(), want.2.len()));
            }
            st.mix(got.1 as u64);
        }
        st.mix(i as u64 + 1);
    }
    st.nontrivial |= c.ops.len() > 1;
    Ok(())
}

fn name(op: &Op) -> String {
    match op {
        Op::Compress { len, .. } => format!("compress {len}"),
        Op::Append { len, .. } => format!("append {len}"),
        Op::Rewind(n) => format!("rewind {n}"),
        Op::Reset => "reset".into(),
        Op::Prepare => "prepare".into(),
        _ => "-".into(),
    }
}
