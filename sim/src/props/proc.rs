//! Runs one real process of the repository with every open, mkdir, read, write, seek, stat and directory listing on its data directory answered by the
//! preloaded shim (sim/csvshim.c).
use crate::case::*;
use crate::simio::Fault;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Call kinds in the order of the shim's counters.
pub const KIND: [char; 7] = ['r', 'w', 'o', 'm', 'l', 's', 'd'];
pub const N: usize = KIND.len();

/// A scratch directory that goes away again.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(name: &str) -> Res<Dir> {
        let root = PathBuf::from(std::env::var("EBISIM_SCRATCH").unwrap_or("/tmp/ebisim-none".into())).join(name);
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).map_err(io)?;
        Ok(Dir(root))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        if let Some(p) = self.0.parent() {
            let _ = std::fs::remove_dir(p);
        }
    }
}
pub fn io(e: std::io::Error) -> Violation {
    Violation { class: "harness".into(), msg: format!("scratch directory: {e}") }
}

pub struct Ran {
    pub ok: bool,
    /// the simulated crash happened
    pub killed: bool,
    pub err: String,
    pub calls: [u64; N],
    pub short: u64,
    pub failed: u64,
    pub interrupted: u64,
    pub zero: u64,
    pub trace: u64,
}
impl Ran {
    pub fn account(&self, st: &mut Stats) {
        st.io_calls += self.calls.iter().sum::<u64>();
        st.fired[0] += self.short;
        st.fired[1] += self.interrupted;
        st.fired[9] += self.zero;
        st.mix(self.trace);
        if self.short + self.failed + self.interrupted + self.zero > 0 || self.killed {
            st.nontrivial = true;
        }
    }
}

/// The directory of the binaries built along with this one.
pub fn bindir() -> PathBuf {
    std::env::current_exe().ok().and_then(|p| p.parent().map(Path::to_path_buf)).unwrap_or_default()
}

/// `dir` (as the process will name it) is the directory whose files are simulated.
pub fn run(bin: &Path, args: &[String], root: &Path, dir: &Path, plan: &str) -> Res<Ran> {
    let (log, errf) = (root.join("log"), root.join("err"));
    let _ = std::fs::remove_file(&log);
    let b = bindir();
    // (the glob library takes a directory it cannot look at for an empty one)
    let wide = |a: &String| a.starts_with("all") || ["tpch", "ucr2018", "embedding"].contains(&a.as_str());
    let stat = if !args.iter().any(wide) { Some(("CSVSIM_STAT", "/result/")) } else { None };
    let mut ch = Command::new(bin)
        .args(args)
        .env_clear()
        .env("LD_PRELOAD", b.parent().unwrap_or(&b).join("csvshim.so"))
        .env("CSVSIM", plan)
        .env("CSVSIM_DIR", dir)
        .env("CSVSIM_LOG", &log)
        .env("CSVSIM_CLOCK", "1")
        .envs(stat)
        .current_dir(root)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&errf).map_err(io)?)
        .spawn()
        .map_err(io)?;
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().map_err(io)? {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(60) {
            let _ = ch.kill();
            let _ = ch.wait();
            return viol("hang", "the process did not end");
        }
        std::thread::sleep(Duration::from_micros(200));
    };
    let v: Vec<u64> = std::fs::read_to_string(&log).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if v.len() != N + 5 {
        return viol("abort", format!("the process died: {status}"));
    }
    if status.code() == Some(97) {
        return viol("no-progress", "the process did not end within the bounded number of I/O calls");
    }
    Ok(Ran {
        ok: status.success(),
        killed: status.code() == Some(98),
        err: String::from_utf8_lossy(&std::fs::read(&errf).unwrap_or_default()).into_owned(),
        calls: std::array::from_fn(|i| v[i]),
        short: v[N],
        failed: v[N + 1],
        interrupted: v[N + 2],
        zero: v[N + 3],
        trace: v[N + 4],
    })
}

pub type Tree = BTreeMap<String, Vec<u8>>;
/// Every file below `root`, by its path relative to it.
pub fn tree(root: &Path) -> Res<Tree> {
    fn walk(root: &Path, at: &Path, t: &mut Tree) -> std::io::Result<()> {
        for e in std::fs::read_dir(at)? {
            let p = e?.path();
            if p.is_dir() {
                walk(root, &p, t)?;
            } else if let Ok(rel) = p.strip_prefix(root) {
                t.insert(rel.to_string_lossy().into_owned(), std::fs::read(&p)?);
            }
        }
        Ok(())
    }
    let mut t = Tree::new();
    walk(root, root, &mut t).map_err(io)?;
    Ok(t)
}

pub fn plant(root: &Path, t: &Tree) -> Res {
    for (p, b) in t {
        let p = root.join(p);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).map_err(io)?;
        }
        std::fs::write(p, b).map_err(io)?;
    }
    Ok(())
}

/// The plan entry of one fault, given the calls of a run without faults.
pub fn aim(f: &FaultAt, ran: &Ran) -> Option<String> {
    let (crash, k) = (f.stream >= 8, (f.stream % 8) as usize % N);
    if ran.calls[k] == 0 {
        return None;
    }
    let n = if f.at > u32::MAX - 64 { ran.calls[k].saturating_sub(1 + (u32::MAX - f.at) as u64) } else { f.at as u64 % ran.calls[k] };
    let errno = match f.fault {
        Fault::Nospc if k < 5 => libc::ENOSPC,
        Fault::Again => libc::EAGAIN,
        Fault::Timeout => libc::ETIMEDOUT,
        _ => match k {
            2 | 3 | 5 | 6 if f.at % 2 == 0 => libc::EACCES,
            2 => libc::EMFILE,
            _ => libc::EIO,
        },
    };
    Some(if crash {
        format!("{}{n}=x", KIND[k])
    } else if f.fault == Fault::Zero && k == 1 {
        format!("w{n}=z")
    } else {
        format!("{}{n}={}{errno}", KIND[k], if f.sticky { 'E' } else { 'e' })
    })
}
