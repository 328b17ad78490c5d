//! A global allocator that keeps a per-thread ledger of live blocks and bytes,
//! so that a case can check it gave back all it took.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static FAIL_AT: Cell<i64> = const { Cell::new(i64::MAX) };
}
pub struct Ledger;
unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if fail() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            note(1, l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if fail() {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if fail() {
            return std::ptr::null_mut();
        }
        let p = System.realloc(p, l, n);
        if !p.is_null() {
            note(0, n as i64 - l.size() as i64);
        }
        p
    }
}
fn note(b: i64, n: i64) {
    let _ = BLOCKS.try_with(|c| c.set(c.get().wrapping_add(b)));
    let _ = BYTES.try_with(|c| c.set(c.get().wrapping_add(n)));
}
fn fail() -> bool {
    FAIL_AT
        .try_with(|c| {
            let v = c.get();
            if v == i64::MAX {
                return false;
            }
            if v <= 0 {
                return true;
            }
            c.set(v - 1);
            false
        })
        .unwrap_or(false)
}
/// Makes this thread's global allocations fail after `n` more successes until the guard is dropped.
pub fn fail_after(n: i64) -> FailGuard {
    FAIL_AT.with(|c| c.set(n));
    FailGuard
}
pub struct FailGuard;
impl Drop for FailGuard {
    fn drop(&mut self) {
        FAIL_AT.with(|c| c.set(i64::MAX))
    }
}
/// (live blocks, live bytes) allocated by this thread.
pub fn live() -> (i64, i64) {
    (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()))
}
/// Runs `f` and reports a leak if it changes the thread's ledger, twice in a row
/// (the first run may initialise lazily created global state).
pub fn no_leak(sig: &str, mut f: impl FnMut()) {
    for attempt in 0.. {
        let a = live();
        f();
        let b = live();
        if a == b {
            return;
        }
        if attempt >= 2 {
            crate::viol!(sig, "live (blocks, bytes) went from {a:?} to {b:?}, on three runs in a row");
        }
    }
}
