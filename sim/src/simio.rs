//! Simulated streams. Every I/O call of the code under test lands here and is answered from an explicit
//! script, so one script is one exactly repeatable execution.
use ebi::time::sim_clock;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Eio,
    Nospc,
    /// the call fails with `UnexpectedEof`
    Eof,
    Again,
    Pipe,
    Timeout,
    /// write returns Ok(0)
    Zero,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Full,
    /// transfer at most n bytes
    Short(u32),
    Intr,
    /// let n microseconds of simulated time pass, then transfer everything
    Delay(u32),
    /// let time pass, then transfer at most n bytes
    DelayShort(u32, u32),
    /// odd calls are interrupted, even ones transfer at most n bytes
    Flaky(u32),
    Fail(Fault),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Script {
    pub base: Act,
    pub at: Vec<(u32, Act)>,
}
impl Default for Script {
    fn default() -> Self {
        Script { base: Act::Full, at: vec![] }
    }
}
impl Script {
    pub fn is_plain(&self) -> bool {
        self.base == Act::Full && self.at.is_empty()
    }
}

pub const KINDS: [&str; 12] = [
    "short_transfer", "eintr", "delay", "eio", "enospc", "unexpected_eof", "would_block", "broken_pipe",
    "timed_out", "write_zero", "media_error", "truncated_read",
];
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    Read,
    Write,
    Seek,
    Flush,
}

pub const STEP_LIMIT_MSG: &str = "SIM-STEP-LIMIT: no progress within the bounded number of I/O calls";

/// Control block of one stream; the harness keeps a handle to it.
pub struct Ctl {
    pub script: Script,
    pub calls: u64,
    pub max_calls: u64,
    /// a permanent failure stays until the harness clears it
    pub sticky: bool,
    pub dead: Option<Fault>,
    pub fired: [u64; 12],
    /// hard (non-benign) failures delivered so far
    pub hard: u64,
    pub hash: u64,
    /// nanoseconds of delay delivered per call kind: read, write, seek, flush
    pub delay: [u64; 4],
    pub ranges: Vec<(u64, u64)>,
    pub track_ranges: bool,
    pub bad: Vec<(u64, u64)>,
    pub limit: Option<u64>,
    pub hook: Option<Arc<dyn Fn() + Send + Sync>>,
    /// indices of the calls of each kind
    pub kinds: [Vec<u32>; 4],
    pub track_kinds: bool,
    /// read calls that are not first positioned: used by schedulers; call kinds the script applies to
    pub only: Option<Call>,
}

pub enum Step {
    N(usize),
    E(io::Error),
}

fn ferr(f: Fault) -> io::Error {
    match f {
        Fault::Eio => io::Error::from_raw_os_error(libc::EIO),
        Fault::Nospc => io::Error::from_raw_os_error(libc::ENOSPC),
        Fault::Eof => io::Error::from(io::ErrorKind::UnexpectedEof),
        Fault::Again => io::Error::from_raw_os_error(libc::EAGAIN),
        Fault::Pipe => io::Error::from_raw_os_error(libc::EPIPE),
        Fault::Timeout => io::Error::from_raw_os_error(libc::ETIMEDOUT),
        Fault::Zero => io::Error::from_raw_os_error(libc::EIO),
    }
}

impl Ctl {
    pub fn new(script: &Script) -> Self {
        Ctl {
            script: script.clone(),
            calls: 0,
            max_calls: 100_000_000,
            sticky: false,
            dead: None,
            fired: [0; 12],
            hard: 0,
            hash: 0xcbf29ce484222325,
            delay: [0; 4],
            ranges: vec![],
            track_ranges: false,
            bad: vec![],
            limit: None,
            hook: None,
            kinds: Default::default(),
            track_kinds: false,
            only: None,
        }
    }
    pub fn arc(script: &Script) -> Arc<Mutex<Ctl>> {
        Arc::new(Mutex::new(Ctl::new(script)))
    }
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    fn wait(&mut self, call: Call, us: u32) {
        let ns = us as u64 * 1000;
        self.delay[call as usize] += ns;
        self.fired[2] += 1;
        sim_clock::advance(Duration::from_nanos(ns));
    }
    /// Decide the fate of one call that wants to move `want` bytes (0 for seek/flush).
    pub fn step(&mut self, call: Call, pos: u64, want: usize) -> Step {
        let idx = self.calls;
        self.calls += 1;
        if self.track_kinds {
            self.kinds[call as usize].push(idx as u32);
        }
        self.mix(call as u64 + 1);
        self.mix(pos);
        self.mix(want as u64);
        if self.calls > self.max_calls {
            panic!("{}", STEP_LIMIT_MSG);
        }
        if let Some(f) = self.dead {
            self.hard += 1;
            return self.fail(f, call);
        }
        let mut act = self.script.base;
        // `at` is sorted by call index
        if let Ok(i) = self.script.at.binary_search_by_key(&(idx as u32), |x| x.0) {
            act = self.script.at[i].1;
        }
        if self.only.is_some_and(|o| o != call) {
            act = Act::Full;
        }
        let mut n = want;
        match act {
            Act::Full => {}
            Act::Short(k) => n = self.short(n, k),
            Act::Delay(us) => self.wait(call, us),
            Act::DelayShort(us, k) => {
                self.wait(call, us);
                n = self.short(n, k);
            }
            Act::Intr => return self.intr(call),
            Act::Flaky(k) => {
                if idx % 2 == 0 {
                    return self.intr(call);
                }
                n = self.short(n, k);
            }
            Act::Fail(f) => {
                self.hard += 1;
                if self.sticky {
                    self.dead = Some(f);
                }
                return self.fail(f, call);
            }
        }
        self.mix(n as u64);
        Step::N(n)
    }
    fn intr(&mut self, call: Call) -> Step {
        if call == Call::Seek || call == Call::Flush {
            return Step::N(0); // lseek and flush are not interrupted
        }
        self.fired[1] += 1;
        self.mix(0xE1);
        Step::E(io::Error::from_raw_os_error(libc::EINTR))
    }
    fn short(&mut self, n: usize, k: u32) -> usize {
        let k = (k as usize).max(1);
        if k < n {
            self.fired[0] += 1;
            k
        } else {
            n
        }
    }
    fn fail(&mut self, f: Fault, call: Call) -> Step {
        let slot = match f {
            Fault::Eio => 3,
            Fault::Nospc => 4,
            Fault::Eof => 5,
            Fault::Again => 6,
            Fault::Pipe => 7,
            Fault::Timeout => 8,
            Fault::Zero => 9,
        };
        self.fired[slot] += 1;
        self.mix(0xF0 + slot as u64);
        if f == Fault::Zero && call == Call::Write {
            return Step::N(0);
        }
        Step::E(ferr(f))
    }
}

/// Read + Seek over immutable bytes.
#[derive(Clone)]
pub struct SimReader {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub ctl: Arc<Mutex<Ctl>>,
}
impl SimReader {
    pub fn new(data: Arc<Vec<u8>>, ctl: Arc<Mutex<Ctl>>) -> Self {
        SimReader { data, pos: 0, ctl }
    }
}
fn run_hook(ctl: &Arc<Mutex<Ctl>>) {
    let h = ctl.lock().unwrap().hook.clone();
    if let Some(h) = h {
        h();
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        run_hook(&self.ctl);
        let mut c = self.ctl.lock().unwrap();
        let len = self.data.len() as u64;
        let end = c.limit.map_or(len, |l| l.min(len));
        let avail = end.saturating_sub(self.pos) as usize;
        let mut n = match c.step(Call::Read, self.pos, buf.len().min(avail)) {
            Step::E(e) => return Err(e),
            Step::N(n) => n,
        };
        if n == 0 {
            if !buf.is_empty() && end < len && self.pos < len {
                c.fired[11] += 1;
                c.hard += 1;
            }
            return Ok(0);
        }
        let (a, mut b) = (self.pos, self.pos + n as u64);
        let mut hit_bad = false;
        for &(s, e) in &c.bad {
            if a >= s && a < e {
                hit_bad = true;
            } else if s > a && s < b {
                b = s;
            }
        }
        if hit_bad {
            c.fired[10] += 1;
            c.hard += 1;
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        n = (b - a) as usize;
        if c.track_ranges {
            c.ranges.push((a, b));
        }
        buf[..n].copy_from_slice(&self.data[a as usize..b as usize]);
        self.pos = b;
        Ok(n)
    }
}
fn seek_to(pos: u64, len: u64, to: SeekFrom) -> io::Result<u64> {
    let p = match to {
        SeekFrom::Start(p) => p as i128,
        SeekFrom::End(d) => len as i128 + d as i128,
        SeekFrom::Current(d) => pos as i128 + d as i128,
    };
    if p < 0 || p > i64::MAX as i128 {
        return Err(io::Error::from_raw_os_error(libc::EINVAL));
    }
    Ok(p as u64)
}
impl Seek for SimReader {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        run_hook(&self.ctl);
        let mut c = self.ctl.lock().unwrap();
        let len = self.data.len() as u64;
        let end = c.limit.map_or(len, |l| l.min(len));
        let p = seek_to(self.pos, end, to)?;
        match c.step(Call::Seek, p, 0) {
            Step::E(e) => Err(e),
            Step::N(_) => {
                self.pos = p;
                Ok(p)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum WOp {
    /// offset, bytes, simulated time before the call
    W(u64, Vec<u8>, u64),
    Flush(u64),
    /// a flush that reported failure: what it should have made durable may be lost for good
    BadFlush,
}

pub struct SinkState {
    pub content: Vec<u8>,
    pub cap: Option<u64>,
    pub log: Vec<WOp>,
    pub record: bool,
    pub dirty: bool,
    /// when set, a failed flush drops everything written since the last good one; holds the flushed content
    pub lossy: Option<Vec<u8>>,
    pub write_delay_log: Vec<(u64, u64)>,
}
#[derive(Clone)]
pub struct SimSink {
    pub st: Arc<Mutex<SinkState>>,
    pub pos: u64,
    pub ctl: Arc<Mutex<Ctl>>,
}
impl SimSink {
    pub fn new(ctl: Arc<Mutex<Ctl>>, cap: Option<u64>, record: bool) -> Self {
        SimSink {
            st: Arc::new(Mutex::new(SinkState {
                content: vec![],
                cap,
                log: vec![],
                record,
                dirty: false,
                lossy: None,
                write_delay_log: vec![],
            })),
            pos: 0,
            ctl,
        }
    }
    pub fn content(&self) -> Vec<u8> {
        self.st.lock().unwrap().content.clone()
    }
}
impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        run_hook(&self.ctl);
        let mut c = self.ctl.lock().unwrap();
        let mut st = self.st.lock().unwrap();
        let t0 = sim_clock::now().as_nanos() as u64;
        let d0 = c.delay[Call::Write as usize];
        let mut n = match c.step(Call::Write, self.pos, buf.len()) {
            Step::E(e) => return Err(e),
            Step::N(n) => n,
        };
        if let Some(cap) = st.cap {
            let room = cap.saturating_sub(self.pos).max((st.content.len() as u64).saturating_sub(self.pos));
            if room == 0 && n > 0 {
                c.fired[4] += 1;
                c.hard += 1;
                return Err(ferr(Fault::Nospc));
            }
            n = n.min(room as usize);
        }
        if n == 0 {
            return Ok(0);
        }
        let a = self.pos as usize;
        if st.content.len() < a + n {
            st.content.resize(a + n, 0);
        }
        st.content[a..a + n].copy_from_slice(&buf[..n]);
        st.dirty = true;
        if st.record {
            st.log.push(WOp::W(self.pos, buf[..n].to_vec(), t0));
            let d = c.delay[Call::Write as usize] - d0;
            let pos = self.pos;
            st.write_delay_log.push((pos, d));
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        run_hook(&self.ctl);
        let mut c = self.ctl.lock().unwrap();
        let mut st = self.st.lock().unwrap();
        match c.step(Call::Flush, self.pos, 0) {
            Step::E(e) => {
                if let Some(d) = st.lossy.clone() {
                    st.content = d;
                }
                if st.record {
                    st.log.push(WOp::BadFlush);
                }
                Err(e)
            }
            Step::N(_) => {
                st.dirty = false;
                if st.lossy.is_some() {
                    st.lossy = Some(st.content.clone());
                }
                if st.record {
                    st.log.push(WOp::Flush(sim_clock::now().as_nanos() as u64));
                }
                Ok(())
            }
        }
    }
}
impl Seek for SimSink {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        run_hook(&self.ctl);
        let mut c = self.ctl.lock().unwrap();
        let st = self.st.lock().unwrap();
        let p = seek_to(self.pos, st.content.len() as u64, to)?;
        match c.step(Call::Seek, p, 0) {
            Step::E(e) => Err(e),
            Step::N(_) => {
                self.pos = p;
                Ok(p)
            }
        }
    }
}
