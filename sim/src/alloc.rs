//! Counting allocator: live bytes and live blocks per thread, so that a session's memory can be accounted for exactly.
//! Every block ends in a canary that is checked when it is freed; with `strict` on, fresh and freed memory is filled
//! with junk so that reading it shows as a wrong answer.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static STRICT: Cell<bool> = const { Cell::new(false) };
    static SMASHED: Cell<u64> = const { Cell::new(0) };
}
const TAIL: usize = 8;
const CANARY: [u8; TAIL] = *b"\x5cEBISIM\xc5";

pub struct Counting;
fn note(b: i64, n: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + b));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + n));
}
fn strict() -> bool {
    STRICT.try_with(|c| c.get()).unwrap_or(false)
}
fn grown(l: Layout, n: usize) -> Option<Layout> {
    Layout::from_size_align(n.checked_add(TAIL)?, l.align()).ok()
}
unsafe fn seal(p: *mut u8, n: usize) {
    std::ptr::copy_nonoverlapping(CANARY.as_ptr(), p.add(n), TAIL);
}
unsafe fn inspect(p: *mut u8, n: usize) {
    if std::slice::from_raw_parts(p.add(n), TAIL) != CANARY {
        let _ = SMASHED.try_with(|c| c.set(c.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(g) = grown(l, l.size()) else { return std::ptr::null_mut() };
        let p = System.alloc(g);
        if !p.is_null() {
            if strict() {
                std::ptr::write_bytes(p, 0xA5, l.size());
            }
            seal(p, l.size());
            note(l.size() as i64, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Some(g) = grown(l, l.size()) else { return std::ptr::null_mut() };
        let p = System.alloc_zeroed(g);
        if !p.is_null() {
            seal(p, l.size());
            note(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        inspect(p, l.size());
        if strict() {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + TAIL, l.align()));
        note(-(l.size() as i64), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        inspect(p, l.size());
        if grown(l, n).is_none() {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, Layout::from_size_align_unchecked(l.size() + TAIL, l.align()), n + TAIL);
        if !q.is_null() {
            if n > l.size() && strict() {
                std::ptr::write_bytes(q.add(l.size()), 0xA5, n - l.size());
            }
            seal(q, n);
            note(n as i64 - l.size() as i64, 0);
        } else {
            seal(p, l.size());
        }
        q
    }
}
pub fn live() -> (i64, i64) {
    (LIVE.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}
/// Turn junk filling on or off for this thread.
pub fn set_strict(on: bool) {
    STRICT.with(|c| c.set(on));
}
/// Blocks whose end was overwritten, since the last call.
pub fn take_smashed() -> u64 {
    SMASHED.with(|c| c.replace(0))
}
