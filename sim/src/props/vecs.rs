//! Vector queries: nearest neighbour (C10) and batched matrix products (C11).
use super::query::{gen_retry, run_history};
use crate::case::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::spec::*;

/// A file whose chunk boundaries are aimed at the inside, the ends and the surroundings of vectors of `len` records.
fn gen_vec_file(r: &mut Rng, len: usize, exact: bool) -> FileSpec {
    let scheme = gen_scheme(r);
    let digits = gen_digits(r, scheme, 7);
    let k = match r.below(6) {
        0 => r.us(2),
        1 => 30 + r.us(120),
        _ => 1 + r.us(20),
    };
    let huge = r.chance(1, 1000);
    let k = if huge { 66_000 / len.max(1) + 1 } else { k };
    let cap = if huge { 70_000 } else if r.chance(1, 30) { 3000 } else { 400 };
    let mut n = (k * len).min((cap / len).max(1) * len);
    if !exact && r.chance(1, 2) {
        n += r.us(len);
    }
    if n == 0 && r.chance(1, 2) {
        n = len;
    }
    let data = gen_values(r, scheme, digits, n, true);
    let chunk = match r.below(9) {
        0 => Chunk::Full,
        1 => Chunk::Bytes(1 + r.us(60)),
        2 => Chunk::Bytes(r.size(8 * n.max(1))),
        3 => Chunk::Rec(len * (1 + r.us(3))),
        4 => Chunk::Rec(len + 1),
        5 => Chunk::Rec((len.saturating_sub(1)).max(1)),
        6 => Chunk::Rec(1 + r.us(len)), // vectors spanning several chunks
        7 => Chunk::Rec(len * (1 + r.us(3)) + r.us(len)),
        _ => gen_chunk(r, n),
    };
    let mut f = FileSpec { scheme, scale: pow10(digits), param: gen_param(r, scheme), chunk, data, tail: 0 };
    // repeated vectors make ties; a near copy decides between close distances
    if n >= 2 * len && r.chance(1, 2) {
        for _ in 0..1 + r.us(3) {
            let a = r.us(n / len);
            let b = r.us(n / len);
            for i in 0..len {
                f.data[b * len + i] = f.data[a * len + i];
            }
        }
    }
    f
}

fn gen_target(r: &mut Rng, f: &FileSpec, len: usize) -> Vec<u64> {
    let n = f.data.len();
    let mut t: Vec<f64> = if n >= len && len > 0 && r.chance(3, 4) {
        // close to a stored vector (first, last or any), or to an unaligned window
        let v = match r.below(4) {
            0 => 0,
            1 => (n / len - 1) * len,
            2 => r.us(n / len) * len,
            _ => r.us(n - len + 1),
        };
        f.data[v..v + len].iter().map(|b| f64::from_bits(*b)).collect()
    } else {
        (0..len).map(|_| r.range(-2000, 2000) as f64 / 8.0).collect()
    };
    if len > 0 && r.chance(1, 2) {
        let i = r.us(len);
        t[i] += *r.pick(&[0.5, -0.25, 3.0, 100.0]);
    }
    t.iter().map(|x| x.to_bits()).collect()
}

pub fn gen_faults(r: &mut Rng, c: &mut Case, n: usize) {
    for _ in 0..1 + r.us(3) {
        c.faults.push(FaultAt {
            stream: 0,
            op: r.us(n + 1),
            at: r.below(1 << 20) as u32,
            fault: *r.pick(&READ_FAULTS),
            sticky: r.chance(1, 3),
        });
    }
    gen_retry(r, c);
}

pub fn gen_c10(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C10");
    let len = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => *r.pick(&[7usize, 8, 9, 16, 31, 32, 33, 64]),
        _ => 1 + r.us(12),
    };
    let f = gen_vec_file(r, len, false);
    let n = 1 + r.us(5);
    for _ in 0..n {
        let op = match r.below(8) {
            0 => next_query(r, &f, c.ops.last()),
            1 => {
                // another vector length on the same data, sometimes longer than the data, rarely none at all
                let l = match r.below(6) {
                    0 => 0,
                    1 => f.data.len() + 1,
                    2 => f.data.len().max(1),
                    _ => 1 + r.us(20),
                };
                Op::Knn { target: gen_target(r, &f, l) }
            }
            _ => Op::Knn { target: gen_target(r, &f, len) },
        };
        c.ops.push(op);
    }
    if f.scheme == Scheme::Buff && r.chance(1, 3) {
        c.put("prec", 1 + r.us(14) as i64);
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 60));
    c.put("rd_buf", r.chance(1, 2) as i64);
    if r.chance(1, 4) {
        gen_faults(r, &mut c, n);
    }
    c
}

pub fn gen_c11(r: &mut Rng, _index: u64) -> Case {
    let mut c = Case::new("C11");
    let wide = r.chance(1, 4);
    let dr = 1 + r.us(if wide { 12 } else { 4 });
    let wide = r.chance(1, 4);
    let dc = 1 + r.us(if wide { 20 } else { 5 });
    // chunk boundaries are aimed at whole matrices or at single rows
    let unit = if r.chance(1, 2) { dr * dc } else { dc };
    let mut f = gen_vec_file(r, unit, true);
    let n = f.data.len() / (dr * dc) * (dr * dc);
    let ragged = r.chance(1, 10);
    if !ragged {
        f.data.truncate(n);
    }
    let k = 1 + r.us(4);
    for _ in 0..k {
        if r.chance(1, 6) {
            let q = next_query(r, &f, c.ops.last());
            c.ops.push(q);
            continue;
        }
        let tc = 1 + r.us(5);
        let mut tshape = (dc, tc);
        let mut dshape = (dr, dc);
        let mut tlen = dc * tc;
        if r.chance(1, 4) {
            match r.below(8) {
                0 => tshape.0 += 1,
                1 => dshape.1 += 1,
                2 => dshape.0 = r.us(6),
                3 => tlen += 1 + r.us(3),
                4 => tlen = tlen.saturating_sub(1),
                5 => {
                    dshape = (dr, 0);
                    tshape = (0, tc);
                    tlen = 0
                }
                6 => dshape = (dc, dr),
                _ => {
                    // another shape that may well fit
                    dshape = (1, dr * dc);
                    tshape = (dr * dc, tc);
                    tlen = dr * dc * tc;
                }
            }
        }
        let style = r.below(3);
        let mut target = vec![];
        for i in 0..tlen {
            let x = match style {
                0 => r.range(-20, 20) as f64,
                1 => (i % (dc + 1) == 0) as u8 as f64,
                _ => r.f01() * 4.0 - 2.0,
            };
            target.push(x.to_bits());
        }
        c.ops.push(Op::Matmul { target, tshape, dshape });
    }
    c.files.push(f);
    c.scripts.push(maybe_benign(r, 60));
    c.put("rd_buf", r.chance(1, 2) as i64);
    if r.chance(1, 4) {
        gen_faults(r, &mut c, k);
    }
    c
}

pub fn run_vecs(c: &Case, st: &mut Stats) -> Res {
    let Some(f) = c.files.first() else { return Ok(()) };
    let m = Model::new(f)?;
    run_history(c, &m, st)?;
    st.nontrivial |= m.n_chunks() > 1;
    Ok(())
}
