//! An explicit, serialisable test case. Running a case is a pure function of it: everything random has been decided.
use crate::simio::{Fault, Script};
use crate::spec::{FileSpec, Mask, Pred};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Mat { bm: Mask, chunk: Option<usize> },
    Filter { pred: Pred, bm: Mask, chunk: Option<usize> },
    FiltMat { pred: Pred, bm: Mask, chunk: Option<usize> },
    Sum { bm: Mask, chunk: Option<usize> },
    Min { bm: Mask, chunk: Option<usize> },
    Max { bm: Mask, chunk: Option<usize> },
    Knn { target: Vec<u64> },
    Matmul { target: Vec<u64>, tshape: (usize, usize), dshape: (usize, usize) },
    Precision(u32),
    // operations on one open chunk
    Decompress,
    Iter(usize),
    /// look at the cached decompression result, if there is one
    CacheGet,
    /// hand the reader the decompressed values
    CacheSet,
    Dist { off: usize, target: Vec<u64> },
    Dot { off: usize, target: Vec<u64> },
    ChunkPrecision(u32),
    // codec histories
    Reset,
    Compress { file: usize, from: usize, len: usize },
    Append { file: usize, from: usize, len: usize },
    Rewind(usize),
    Prepare,
    /// expression over columns, see props::multi
    Agg { kind: u8, expr: E, bm: Mask, together: bool },
    Nop,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum E {
    Lit(u64),
    Col(usize),
    Bin(u8, Box<E>, Box<E>),
}

/// A fault on one I/O call. `at` is taken modulo the number of calls seen in the fault-free run of the same work.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FaultAt {
    pub stream: u8,
    pub op: usize,
    pub at: u32,
    pub fault: Fault,
    pub sticky: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub files: Vec<FileSpec>,
    /// I/O behaviour per stream; meaning of the positions depends on the property
    pub scripts: Vec<Script>,
    pub ops: Vec<Op>,
    pub faults: Vec<FaultAt>,
    /// scheduling or selection choices, consumed in order
    pub picks: Vec<u32>,
    /// text inputs; each char stands for one byte
    #[serde(default)]
    pub texts: Vec<String>,
    /// named settings
    pub set: BTreeMap<String, i64>,
}
impl Case {
    pub fn new(prop: &str) -> Self {
        Case { prop: prop.into(), ..Default::default() }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.set.get(k).copied().unwrap_or(0)
    }
    pub fn put(&mut self, k: &str, v: i64) {
        self.set.insert(k.into(), v);
    }
    pub fn script(&self, i: usize) -> Script {
        self.scripts.get(i).cloned().unwrap_or_default()
    }
    pub fn size(&self) -> usize {
        self.files.iter().map(|f| f.data.len() + 4).sum::<usize>()
            + self.scripts.iter().map(|s| s.at.len() + if s.is_plain() { 0 } else { 1 }).sum::<usize>()
            + self.ops.len() * 3
            + self.faults.len() * 2
            + self.picks.len()
            + self.texts.iter().map(|t| t.len() + 2).sum::<usize>()
            + self.set.values().filter(|v| **v != 0).count()
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Violation {
    /// short stable name of what kind of wrong this is; minimisation keeps it
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Violation>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.into(), msg: msg.into() })
}
pub trait OrViol<T> {
    fn or_viol(self, class: &str, ctx: &str) -> Res<T>;
}
impl<T> OrViol<T> for Result<T, String> {
    fn or_viol(self, class: &str, ctx: &str) -> Res<T> {
        self.map_err(|e| Violation { class: class.into(), msg: format!("{ctx}: {e}") })
    }
}

/// What one run did; aggregated into the evidence.
#[derive(Default, Clone)]
pub struct Stats {
    pub hash: u64,
    pub nontrivial: bool,
    pub fired: [u64; 12],
    pub sim_ns: u64,
    pub io_calls: u64,
    pub more: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.more.entry(k).or_insert(0) += n;
    }
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(29) ^ 0x9E3779B97F4A7C15;
    }
    pub fn absorb(&mut self, c: &crate::simio::Ctl) {
        for i in 0..12 {
            self.fired[i] += c.fired[i];
        }
        self.io_calls += c.calls;
        self.mix(c.hash);
        if c.fired.iter().any(|x| *x > 0) {
            self.nontrivial = true;
        }
    }
}
