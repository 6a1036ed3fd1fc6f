//! Greedy minimisation of a failing case: fewer records, operations, faults and I/O decisions with the same class of violation.
use crate::case::*;
use crate::simio::{Act, Script};
use crate::spec::Chunk;
use crate::{props, run_case};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub fn main(args: &[String]) {
    let c: Case = serde_json::from_slice(&std::fs::read(&args[0]).unwrap()).unwrap();
    let out = PathBuf::from(&args[1]);
    let class = args[2].clone();
    let budget = Duration::from_secs(args[3].parse().unwrap());
    let sub = args[4] == "subprocess";
    let t0 = Instant::now();
    let p = props::find(&c.prop).unwrap();
    let mut s = S {
        best: c,
        out,
        end: t0 + budget,
        test: Box::new(move |c| {
            if sub {
                let f = std::env::temp_dir().join(format!("ebisim-z{}.json", std::process::id()));
                std::fs::write(&f, serde_json::to_vec(c).unwrap()).unwrap();
                let r = crate::exec_process(&f, Duration::from_secs(20));
                let _ = std::fs::remove_file(&f);
                r.is_some_and(|v| v.class == class)
            } else {
                run_case(p, c, &mut Stats::default()).is_err_and(|v| v.class == class)
            }
        }),
    };
    loop {
        let before = s.best.size();
        s.pass();
        if s.best.size() >= before || s.done() {
            break;
        }
    }
}

struct S {
    best: Case,
    out: PathBuf,
    end: Instant,
    test: Box<dyn FnMut(&Case) -> bool>,
}

impl S {
    fn done(&self) -> bool {
        Instant::now() >= self.end
    }
    fn attempt(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        if self.done() {
            return false;
        }
        let mut c = self.best.clone();
        f(&mut c);
        if (self.test)(&c) {
            self.best = c;
            let tmp = self.out.with_extension("part");
            let _ = std::fs::write(&tmp, serde_json::to_vec(&self.best).unwrap());
            let _ = std::fs::rename(&tmp, &self.out);
            true
        } else {
            false
        }
    }
    /// Remove pieces of a vector, halving the piece size.
    fn ddmin(&mut self, len: impl Fn(&Case) -> usize, cut: impl Fn(&mut Case, usize, usize)) {
        let mut piece = len(&self.best).max(1);
        while piece > 0 && !self.done() {
            let mut i = 0;
            while i < len(&self.best) && !self.done() {
                let e = (i + piece).min(len(&self.best));
                if !self.attempt(|c| cut(c, i, e)) {
                    i = e;
                }
            }
            piece /= 2;
        }
    }
    fn pass(&mut self) {
        self.ddmin(|c| c.faults.len(), |c, a, b| { c.faults.drain(a..b); });
        self.ddmin(|c| c.ops.len(), |c, a, b| { c.ops.drain(a..b); });
        self.ddmin(|c| c.picks.len(), |c, a, b| { c.picks.drain(a..b); });
        for i in 0..self.best.scripts.len() {
            if self.best.scripts[i].is_plain() {
                continue;
            }
            if self.attempt(|c| c.scripts[i] = Script::default()) {
                continue;
            }
            self.attempt(|c| c.scripts[i].base = Act::Full);
            self.ddmin(|c| c.scripts[i].at.len(), |c, a, b| { c.scripts[i].at.drain(a..b); });
        }
        let keys: Vec<String> = self.best.set.keys().cloned().collect();
        for k in keys {
            if self.best.get(&k) != 0 {
                self.attempt(|c| c.put(&k, 0));
            }
        }
        if self.best.files.len() > 1 {
            for i in (0..self.best.files.len()).rev() {
                if self.best.files.len() > 1 {
                    self.attempt(|c| { c.files.remove(i); });
                }
            }
        }
        for i in 0..self.best.files.len() {
            self.ddmin(|c| c.files[i].data.len(), |c, a, b| { c.files[i].data.drain(a..b); });
            let f = self.best.files[i].clone();
            if f.param.is_some() {
                self.attempt(|c| c.files[i].param = None);
            }
            if f.tail != 0 {
                self.attempt(|c| c.files[i].tail = 0);
            }
            if f.chunk != Chunk::Full {
                self.attempt(|c| c.files[i].chunk = Chunk::Full);
            }
            if let Chunk::Rec(n) = self.best.files[i].chunk {
                for m in [1, 2, 3, 4, 8] {
                    if m < n && self.attempt(|c| c.files[i].chunk = Chunk::Rec(m)) {
                        break;
                    }
                }
            }
            let n = self.best.files[i].data.len();
            if n <= 64 {
                for j in 0..n {
                    for v in [0.0f64, 1.0] {
                        if self.best.files[i].data[j] == v.to_bits() || self.attempt(|c| c.files[i].data[j] = v.to_bits()) {
                            break;
                        }
                    }
                }
            }
        }
        for i in (0..self.best.texts.len()).rev() {
            if self.best.texts.len() > 1 && self.attempt(|c| { c.texts.remove(i); }) {
                continue;
            }
            self.ddmin(|c| c.texts[i].chars().count(), |c, a, b| {
                c.texts[i] = c.texts[i].chars().enumerate().filter(|(j, _)| *j < a || *j >= b).map(|x| x.1).collect();
            });
        }
        for j in 0..self.best.ops.len() {
            self.attempt(|c| match &mut c.ops[j] {
                Op::Mat { chunk, .. } | Op::Filter { chunk, .. } | Op::FiltMat { chunk, .. } | Op::Sum { chunk, .. }
                | Op::Min { chunk, .. } | Op::Max { chunk, .. } => *chunk = None,
                _ => {}
            });
            self.attempt(|c| match &mut c.ops[j] {
                Op::Mat { bm, .. } | Op::Filter { bm, .. } | Op::FiltMat { bm, .. } | Op::Sum { bm, .. }
                | Op::Min { bm, .. } | Op::Max { bm, .. } | Op::Agg { bm, .. } => *bm = None,
                _ => {}
            });
        }
        for j in 0..self.best.faults.len() {
            for at in [0u32, 1, 2, 3] {
                if at < self.best.faults[j].at && self.attempt(|c| c.faults[j].at = at) {
                    break;
                }
            }
        }
    }
}
