//! What is encoded (scheme, chunking, records), how test data is generated, and the reference model of the answers.
use crate::rng::Rng;
use ebi::compressor::CompressorConfig;
use ebi::decoder::query::{Predicate, Range, RangeValue};
use ebi::encoder::ChunkOption;
use roaring::RoaringBitmap;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Scheme {
    Uncompressed,
    Rle,
    Gorilla,
    Buff,
    Chimp,
    Chimp128,
    ElfOnChimp,
    Elf,
    Sprintz,
    Zstd,
    Gzip,
    Snappy,
}
pub const SCHEMES: [Scheme; 12] = [
    Scheme::Uncompressed,
    Scheme::Rle,
    Scheme::Gorilla,
    Scheme::Buff,
    Scheme::Chimp,
    Scheme::Chimp128,
    Scheme::ElfOnChimp,
    Scheme::Elf,
    Scheme::Sprintz,
    Scheme::Zstd,
    Scheme::Gzip,
    Scheme::Snappy,
];
use Scheme::*;

impl Scheme {
    pub fn quantised(self) -> bool {
        matches!(self, Buff | Sprintz)
    }
    /// Schemes whose bit stream uses a NaN as end marker.
    pub fn xor(self) -> bool {
        matches!(self, Gorilla | Chimp | Chimp128 | ElfOnChimp | Elf)
    }
    /// Schemes whose `decompress_iter` is implemented
    pub fn name(self) -> &'static str {
        match self {
            Uncompressed => "Uncompressed",
            Rle => "RLE",
            Gorilla => "Gorilla",
            Buff => "BUFF",
            Chimp => "Chimp",
            Chimp128 => "Chimp128",
            ElfOnChimp => "ElfOnChimp",
            Elf => "Elf",
            Sprintz => "DeltaSprintz",
            Zstd => "Zstd",
            Gzip => "Gzip",
            Snappy => "Snappy",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Full,
    Rec(usize),
    Bytes(usize),
}
impl Chunk {
    pub fn opt(self) -> ChunkOption {
        match self {
            Chunk::Full => ChunkOption::Full,
            Chunk::Rec(n) => ChunkOption::RecordCount(n),
            Chunk::Bytes(n) => ChunkOption::ByteSizeBestEffort(n),
        }
    }
}

/// One file: configuration and records (as IEEE bits so that replays are exact).
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FileSpec {
    pub scheme: Scheme,
    pub scale: u64,
    /// compression level (zstd, gzip) or initial buffer capacity (the others); None = default
    pub param: Option<i64>,
    pub chunk: Chunk,
    pub data: Vec<u64>,
    /// bytes of an incomplete last record
    pub tail: u8,
}

impl FileSpec {
    /// Tens of thousands of chunks.
    pub fn cuts_many(&self) -> bool {
        self.chunk == Chunk::Rec(1) && self.data.len() > 10_000
    }
    pub fn config(&self) -> CompressorConfig {
        let cap = self.param.map(|c| c.max(0) as u64);
        macro_rules! capped {
            ($b:expr) => {{
                let b = $b;
                match cap {
                    Some(c) => b.capacity(c).build().into(),
                    None => b.build().into(),
                }
            }};
        }
        match self.scheme {
            Uncompressed => capped!(CompressorConfig::uncompressed()),
            Rle => capped!(CompressorConfig::rle()),
            Gorilla => capped!(CompressorConfig::gorilla()),
            Buff => CompressorConfig::buff().scale(self.scale).build().into(),
            Chimp => capped!(CompressorConfig::chimp()),
            Chimp128 => capped!(CompressorConfig::chimp128()),
            ElfOnChimp => capped!(CompressorConfig::elf_on_chimp()),
            Elf => capped!(CompressorConfig::elf()),
            Sprintz => {
                let b = CompressorConfig::delta_sprintz().scale(self.scale);
                match cap {
                    Some(c) => b.capacity(c).build().into(),
                    None => b.build().into(),
                }
            }
            Zstd => match self.param {
                Some(l) => CompressorConfig::zstd().level(l.clamp(-5, 12) as i32).build().into(),
                None => CompressorConfig::zstd().build().into(),
            },
            Gzip => match self.param {
                Some(l) => CompressorConfig::gzip().level(l.clamp(0, 9) as u32).build().into(),
                None => CompressorConfig::gzip().build().into(),
            },
            Snappy => CompressorConfig::snappy().build().into(),
        }
    }
    pub fn values(&self) -> Vec<f64> {
        self.data.iter().map(|b| f64::from_bits(*b)).collect()
    }
    pub fn input_bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::with_capacity(self.data.len() * 8 + 8);
        for b in &self.data {
            v.extend_from_slice(&b.to_le_bytes());
        }
        for i in 0..(self.tail % 8) {
            v.push(0x40 + i);
        }
        v
    }
    /// Chunk record counts the chunk option demands, None when it depends on the codec (byte-size chunks).
    pub fn chunk_lens(&self) -> Option<Vec<usize>> {
        let n = self.data.len();
        match self.chunk {
            Chunk::Full => Some(if n == 0 { vec![] } else { vec![n] }),
            Chunk::Rec(c) => {
                let mut v = vec![c; n / c];
                if n % c != 0 {
                    v.push(n % c);
                }
                Some(v)
            }
            Chunk::Bytes(_) => None,
        }
    }
    /// Is one decoded record acceptable for the encoded one?
    pub fn same(&self, got: f64, want: f64) -> bool {
        match self.scheme {
            Sprintz => got == quantise(want, self.scale),
            Buff => (got - want).abs() < 0.5 / self.scale as f64,
            _ => got.to_bits() == want.to_bits(),
        }
    }
    /// Largest deviation one decoded record may show.
    pub fn eps(&self) -> f64 {
        match self.scheme {
            Buff => 0.5 / self.scale as f64,
            _ => 0.0,
        }
    }
    /// How far values may be off at the precision asked for; none where that is not below the scale.
    pub fn coarse(&self, prec: Option<u32>) -> Option<f64> {
        let e = 10f64.powi(-(prec? as i32));
        (self.scheme == Buff && e * self.scale as f64 > 1.5).then_some(e + self.eps())
    }
    pub fn check_values(&self, got: &[f64], want: &[f64], prec: Option<u32>) -> Result<(), String> {
        if got.len() != want.len() {
            return Err(format!("{} values instead of {}", got.len(), want.len()));
        }
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            let ok = self.same(*g, *w)
                || (self.scheme == Buff
                    && self.coarse(prec).is_some_and(|e| (*g - *w).abs() <= e));
            if !ok {
                return Err(format!(
                    "value {i} of {} is {g:?} ({:016x}) instead of {w:?} ({:016x})",
                    want.len(),
                    g.to_bits(),
                    w.to_bits()
                ));
            }
        }
        Ok(())
    }
    pub fn describe(&self) -> String {
        format!("{} scale={} param={:?} chunk={:?} n={}", self.scheme.name(), self.scale, self.param, self.chunk, self.data.len())
    }
}

pub fn quantise(x: f64, scale: u64) -> f64 {
    (x * scale as f64).round() / scale as f64
}

pub fn pow10(d: u32) -> u64 {
    10u64.pow(d)
}

#[derive(Clone, Copy)]
pub struct Gen {
    pub max_n: usize,
    /// only finite values of moderate size, so that sums are well conditioned
    pub tame: bool,
    pub allow_empty: bool,
    pub tail: bool,
}
impl Default for Gen {
    fn default() -> Self {
        Gen { max_n: 400, tame: false, allow_empty: true, tail: false }
    }
}

pub fn gen_len(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0 => r.us(4),
        1 => *r.pick(&[7usize, 8, 9, 15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257]),
        2 => r.us(max + 1),
        _ => r.size(max),
    }
    .min(max)
}

pub fn gen_chunk(r: &mut Rng, n: usize) -> Chunk {
    match r.below(10) {
        0 => Chunk::Full,
        1 | 2 => Chunk::Bytes(match r.below(4) {
            0 => 1 + r.us(40),
            1 => 64 + r.us(512),
            _ => r.size(8 * n.max(1)),
        }),
        3 => Chunk::Rec(1 + r.us(3)),
        4 => Chunk::Rec(*r.pick(&[7usize, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024])),
        5 => Chunk::Rec(n.max(1)),
        6 => Chunk::Rec(n.saturating_sub(1).max(1)),
        7 => Chunk::Rec((n / 2).max(1)),
        _ => Chunk::Rec(r.size(n.max(1))),
    }
}

/// Codecs that cost little per chunk.
pub const CHEAP: [Scheme; 5] = [Uncompressed, Rle, Gorilla, Elf, Snappy];

/// Beyond the 65536-record containers of the bitmaps and every stream buffer.
pub fn gen_huge(r: &mut Rng, scheme: Scheme) -> FileSpec {
    let digits = gen_digits(r, scheme, 4);
    if r.chance(1, 6) && CHEAP.contains(&scheme) {
        // more chunks than 16 bits count
        let n = 65_000 + r.us(2500);
        return FileSpec { scheme, scale: pow10(digits), param: Some(64), chunk: Chunk::Rec(1), data: gen_values(r, scheme, digits, n, true), tail: 0 };
    }
    let n = if r.chance(1, 2) { 64_000 + r.us(8000) } else { 70_000 + r.us(130_000) };
    let last = n - r.us(1000);
    let chunk = *r.pick(&[Chunk::Full, Chunk::Full, Chunk::Rec(last), Chunk::Rec(30_000), Chunk::Rec(65_536), Chunk::Rec(65_535), Chunk::Bytes(80_000), Chunk::Rec(1000)]);
    let mut data = gen_values(r, scheme, digits, n, true);
    if scheme.quantised() && r.chance(1, 3) {
        // their sum leaves 64 bits
        let sign = if r.chance(1, 2) { -1 } else { 1 };
        data = (0..n).map(|_| (sign * r.range(1 << 48, 1 << 49)) as f64 / pow10(digits) as f64).map(f64::to_bits).collect();
    }
    FileSpec { scheme, scale: pow10(digits), param: None, chunk, data, tail: 0 }
}

pub fn gen_scheme(r: &mut Rng) -> Scheme {
    *r.pick(&SCHEMES)
}

/// Decimal grid points k/10^d.
fn decimals(r: &mut Rng, n: usize, d: u32, max_abs: f64) -> Vec<f64> {
    let s = pow10(d) as f64;
    // (further out, a number no longer knows its decimals)
    let maxk = ((max_abs * s) as i64).clamp(1, 1 << 49);
    let mut k = r.range(-maxk / 2, maxk / 2);
    let step = 1 + r.size(((maxk / 4).max(1)).min(1 << 40) as usize) as i64;
    let style = r.below(11);
    // a few far-apart levels with a narrow spread: records agree in their high bits and differ in the low ones only
    let levels: Vec<i64> = (0..1 + r.us(3)).map(|_| r.range(-maxk, maxk)).collect();
    let spread = r.size(maxk.min(1 << 14) as usize) as i64;
    let period = 1 + r.us(12);
    let mut out: Vec<i64> = Vec::with_capacity(n);
    let nonneg = r.chance(1, 3);
    for i in 0..n {
        let v = match style {
            0 => k,                                   // constant
            1 => { k += r.range(-step, step); k }     // walk
            2 => r.range(-maxk, maxk),                // uniform
            3 => { if r.chance(1, 6) { k = r.range(-maxk, maxk); } k } // runs
            4 => { if i >= period { out[i - period] } else { r.range(-maxk, maxk) } } // periodic
            5 => k + r.range(0, 1 + (i as i64 % 3)),  // narrow band
            6 => if i % 2 == 0 { k } else { -k },
            7 => { k += r.range(0, step.min(9)); k }  // slowly rising
            8 => levels[r.us(levels.len())] + r.range(0, spread),
            9 => { if r.chance(1, 9) { levels[0] } else { levels[0] + r.range(0, spread.min(300)) } }
            _ => levels[if r.chance(1, 20) { 0 } else { levels.len() - 1 }] + r.range(0, spread.min(40)),
        };
        let v = v.clamp(-maxk, maxk);
        out.push(if nonneg { v.abs() } else { v });
    }
    out.into_iter().map(|k| k as f64 / s).collect()
}

const SPECIALS: [u64; 14] = [
    0x0000000000000000,
    0x8000000000000000,
    0x3ff0000000000000,
    0xbff0000000000000,
    0x0000000000000001,
    0x8000000000000001,
    0x000fffffffffffff,
    0x0010000000000000,
    0x7fefffffffffffff,
    0xffefffffffffffff,
    0x7ff0000000000000,
    0xfff0000000000000,
    0x4340000000000000,
    0x3fb999999999999a,
];

pub fn gen_values(r: &mut Rng, scheme: Scheme, scale_digits: u32, n: usize, tame: bool) -> Vec<u64> {
    let mut v: Vec<f64>;
    if scheme.quantised() {
        let mag = match r.below(9) {
            0 | 1 => 1.0,
            2 | 3 => 100.0,
            4 | 5 => 1e4,
            6 | 7 => 1e6,
            _ => *r.pick(&[1e8, 4e9, 1e11, 1e13]),
        };
        v = decimals(r, n, scale_digits, mag);
        if v.iter().any(|x| *x == 0.0) {
            v.iter_mut().for_each(|x| *x += 0.0); // no -0.0 in a quantised column
        }
        return v.iter().map(|x| x.to_bits()).collect();
    }
    match r.below(if tame { 5 } else { 9 }) {
        0 | 1 => {
            let d = r.below(9) as u32;
            let mag = *r.pick(&[1.0, 50.0, 1e3, 1e5]);
            v = decimals(r, n, d, mag);
        }
        2 => v = (0..n).map(|_| r.f01() * 2000.0 - 1000.0).collect(),
        3 => {
            // mixed number of decimals
            v = Vec::with_capacity(n);
            for _ in 0..n {
                let d = r.below(13) as u32;
                let k = r.range(-99_999, 99_999);
                v.push(k as f64 / pow10(d) as f64);
            }
        }
        4 => {
            // runs of full-precision values
            let mut x = r.f01();
            v = (0..n)
                .map(|_| {
                    if r.chance(1, 4) {
                        x = (r.f01() - 0.5) * 1e4;
                    }
                    x
                })
                .collect();
        }
        5 => v = (0..n).map(|_| f64::from_bits(r.u64())).collect(),
        6 => v = (0..n).map(|_| f64::from_bits(*r.pick(&SPECIALS))).collect(),
        7 => {
            // few differing bits between neighbours
            let mut b = r.u64();
            v = (0..n)
                .map(|_| {
                    for _ in 0..r.below(4) {
                        b ^= 1 << r.below(64);
                    }
                    f64::from_bits(b)
                })
                .collect();
        }
        _ => {
            v = (0..n)
                .map(|i| {
                    if r.chance(1, 10) {
                        f64::from_bits(*r.pick(&SPECIALS))
                    } else {
                        (i as f64) * 0.25
                    }
                })
                .collect()
        }
    }
    for x in v.iter_mut() {
        if x.is_nan() {
            if scheme.xor() {
                *x = 0.5;
            } else if r.chance(3, 4) {
                *x = f64::NAN;
            }
        }
    }
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn gen_param(r: &mut Rng, scheme: Scheme) -> Option<i64> {
    if r.chance(1, 2) {
        return None;
    }
    Some(match scheme {
        Zstd => *r.pick(&[-3i64, 1, 2, 3, 6]),
        Gzip => r.range(0, 9),
        _ => *r.pick(&[0i64, 1, 8, 64, 1000, 8192, 100_000]),
    })
}

/// Decimals of a quantised column: mostly fewer than `usual`, at times as many as the schemes know.
pub fn gen_digits(r: &mut Rng, scheme: Scheme, usual: u64) -> u32 {
    if !scheme.quantised() {
        0
    } else if r.chance(1, 6) {
        9 + r.below(4) as u32
    } else {
        r.below(usual) as u32
    }
}

pub fn gen_file(r: &mut Rng, g: Gen) -> FileSpec {
    let scheme = gen_scheme(r);
    gen_file_for(r, scheme, g)
}

pub fn gen_file_for(r: &mut Rng, scheme: Scheme, g: Gen) -> FileSpec {
    let mut n = gen_len(r, g.max_n);
    if n == 0 && !g.allow_empty {
        n = 1 + r.us(g.max_n);
    }
    let digits = gen_digits(r, scheme, 9);
    let data = gen_values(r, scheme, digits, n, g.tame);
    let chunk = gen_chunk(r, n);
    FileSpec {
        scheme,
        scale: pow10(digits),
        param: gen_param(r, scheme),
        chunk,
        data,
        tail: if g.tail && r.chance(1, 3) { 1 + r.us(7) as u8 } else { 0 },
    }
}

// ---------------------------------------------------------------- predicates and bitmaps

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Bound {
    Inc(u64),
    Exc(u64),
    No,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq(u64),
    Ne(u64),
    Range(Bound, Bound),
}
impl Bound {
    fn v(self) -> RangeValue {
        match self {
            Bound::Inc(b) => RangeValue::Inclusive(f64::from_bits(b)),
            Bound::Exc(b) => RangeValue::Exclusive(f64::from_bits(b)),
            Bound::No => RangeValue::None,
        }
    }
}
impl Pred {
    pub fn to(self) -> Predicate {
        match self {
            Pred::Eq(b) => Predicate::Eq(f64::from_bits(b)),
            Pred::Ne(b) => Predicate::Ne(f64::from_bits(b)),
            Pred::Range(a, b) => Predicate::Range(Range::new(a.v(), b.v())),
        }
    }
    /// The reference semantics, written independently of the code under test.
    pub fn model(self, x: f64) -> bool {
        let lo = |b: Bound| match b {
            Bound::Inc(v) => x >= f64::from_bits(v),
            Bound::Exc(v) => x > f64::from_bits(v),
            Bound::No => true,
        };
        let hi = |b: Bound| match b {
            Bound::Inc(v) => x <= f64::from_bits(v),
            Bound::Exc(v) => x < f64::from_bits(v),
            Bound::No => true,
        };
        match self {
            Pred::Eq(v) => x == f64::from_bits(v),
            Pred::Ne(v) => x != f64::from_bits(v),
            Pred::Range(a, b) => lo(a) && hi(b),
        }
    }
    pub fn describe(self) -> String {
        let b = |x: Bound, l: &str| match x {
            Bound::Inc(v) => format!("{l}={}", f64::from_bits(v)),
            Bound::Exc(v) => format!("{l}{}", f64::from_bits(v)),
            Bound::No => String::new(),
        };
        match self {
            Pred::Eq(v) => format!("=={}", f64::from_bits(v)),
            Pred::Ne(v) => format!("!={}", f64::from_bits(v)),
            Pred::Range(x, y) => format!("range({} {})", b(x, ">"), b(y, "<")),
        }
    }
}

fn pred_value(r: &mut Rng, f: &FileSpec) -> u64 {
    let vals = &f.data;
    let s = f.scale as f64;
    let base = if vals.is_empty() { 0.0 } else { f64::from_bits(*r.pick(vals)) };
    let kind = r.below(12);
    let out = if f.scheme.quantised() && r.chance(1, 16) {
        // on every grid, and far from every record
        let x = *r.pick(&[f64::INFINITY, f64::MAX, 1e300, 1e19, 9223372036854775808.0, 1e18, 1e15, 8e12, 4294967296.0, 2147483648.0]);
        if r.chance(1, 2) { -x } else { x }
    } else if f.scheme == Sprintz && r.chance(1, 6) {
        // between two grid points
        match r.below(3) {
            0 => f64::from_bits(base.to_bits().wrapping_add(1)),
            1 => f64::from_bits(base.to_bits().saturating_sub(1)),
            _ => base + (r.f01() - 0.5) * *r.pick(&[1.0, 3.0, 200.0]) / s,
        }
    } else if f.scheme.quantised() {
        let k = (base * s).round();
        let lim = f64_max(vals).max(-f64_min(vals)).max(9e8) * 2.0;
        let x = match kind {
            0..=3 => k,
            4 => k + 1.0,
            5 => k - 1.0,
            6 => k + r.range(-300, 300) as f64,
            7 => (f64_min(vals) * s).round() - r.range(1, 3) as f64,
            8 => (f64_max(vals) * s).round() + r.range(1, 3) as f64,
            9 => 0.0,
            10 => -k,
            _ => (r.range(-900_000_000, 900_000_000) as f64 * s).clamp(-9e15, 9e15),
        };
        let x = (x / s).clamp(-lim, lim);
        // keep it on the grid
        ((x * s).round() / s) + 0.0
    } else {
        match kind {
            0..=3 => base,
            4 => f64::from_bits(base.to_bits().wrapping_add(1)),
            5 => f64::from_bits(base.to_bits().wrapping_sub(1)),
            6 => base + (r.f01() - 0.5) * 10.0,
            7 => f64_min(vals),
            8 => f64_max(vals),
            9 => *r.pick(&[0.0, -0.0, 1.0]),
            10 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE]),
            _ => (r.f01() - 0.5) * 1e5,
        }
    };
    out.to_bits()
}
fn f64_min(v: &[u64]) -> f64 {
    v.iter().map(|b| f64::from_bits(*b)).fold(f64::INFINITY, f64::min).min(f64::MAX)
}
fn f64_max(v: &[u64]) -> f64 {
    v.iter().map(|b| f64::from_bits(*b)).fold(f64::NEG_INFINITY, f64::max).max(f64::MIN)
}

pub fn gen_pred(r: &mut Rng, f: &FileSpec) -> Pred {
    let v = |r: &mut Rng| pred_value(r, f);
    let bound = |r: &mut Rng| match r.below(5) {
        0 | 1 => Bound::Inc(pred_value(r, f)),
        2 | 3 => Bound::Exc(pred_value(r, f)),
        _ => Bound::No,
    };
    match r.below(8) {
        0 | 1 => Pred::Eq(v(r)),
        2 => Pred::Ne(v(r)),
        _ => {
            let (mut a, mut b) = (bound(r), bound(r));
            if let (Bound::Inc(x) | Bound::Exc(x), Bound::Inc(y) | Bound::Exc(y)) = (a, b) {
                if f64::from_bits(x) > f64::from_bits(y) && r.chance(7, 8) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            Pred::Range(a, b)
        }
    }
}

/// Half-open ranges of record numbers; None = no bitmap.
pub type Mask = Option<Vec<(u32, u32)>>;

pub fn mask_bm(m: &Mask) -> Option<RoaringBitmap> {
    m.as_ref().map(|v| {
        let mut b = RoaringBitmap::new();
        for (s, e) in v {
            b.insert_range(*s..*e);
        }
        b
    })
}

pub fn gen_mask(r: &mut Rng, n: usize, cuts: &[usize]) -> Mask {
    let n32 = n as u32;
    let near = |r: &mut Rng| -> u32 {
        let c = if cuts.is_empty() || r.chance(1, 2) { r.us(n + 1) } else { *r.pick(cuts) } as i64;
        (c + r.range(-2, 2)).clamp(0, n as i64 + 2) as u32
    };
    match r.below(12) {
        0..=2 => None,
        3 => Some(vec![]),
        4 => Some(vec![(0, n32)]),
        5 => Some(vec![(n32, n32 + 50)]),
        6 => {
            let p = near(r);
            Some(vec![(p, p + 1)])
        }
        7 => {
            let k = 1 + r.us(5) as u32;
            let off = r.us(k as usize) as u32;
            let mut v = vec![];
            let mut i = off;
            while i < n32 && v.len() < 2000 {
                v.push((i, i + 1));
                i += k + 1;
            }
            Some(v)
        }
        8 => Some(vec![(0, 1), (n32.saturating_sub(1), n32 + 1)]),
        _ => {
            let mut v = vec![];
            for _ in 0..1 + r.us(5) {
                let (a, b) = (near(r), near(r));
                let (a, b) = (a.min(b), a.max(b));
                if a < b {
                    v.push((a, b));
                }
            }
            Some(v)
        }
    }
}

/// Does the sum of these values agree with the exact one up to reordering errors?
pub fn sum_close(got: f64, vals: &[f64], per_value_eps: f64) -> Result<(), String> {
    let want: f64 = vals.iter().sum();
    let mag: f64 = vals.iter().map(|x| x.abs()).sum();
    if !mag.is_finite() {
        return Ok(());
    }
    let tol = mag * 1e-9 + per_value_eps * vals.len() as f64 * 1.000001 + 1e-300;
    if got.is_finite() && (got - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("sum {got:?} instead of {want:?} (tolerance {tol:e})"))
    }
}

pub fn values_of(bytes: &[u8]) -> Vec<f64> {
    bytes.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}
