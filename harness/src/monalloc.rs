//! A user-written allocator that audits every request (per thread).
use stabby::alloc::{IAlloc, Layout};
use std::cell::RefCell;
use std::collections::BTreeMap;
const RED: usize = 64;
struct Block {
    base: *mut u8,
    real: std::alloc::Layout,
    size: usize,
    align: usize,
    owner: u32,
}
#[derive(Default)]
pub struct Book {
    live: BTreeMap<usize, Block>,
    freed: BTreeMap<usize, Block>,
    pub allocs: u64,
    pub frees: u64,
    pub reallocs: u64,
    pub refused: u64,
    fail_after: Option<u64>,
    fail_len: u64,
    limit: Option<usize>,
    next_id: u32,
    poison: Option<(String, String)>,
    instances: i64,
}
thread_local! { static B: RefCell<Book> = RefCell::new(Book::default()); }
pub fn reset() {
    let old = B.with(|b| {
        let mut b = b.borrow_mut();
        let next_id = b.next_id;
        std::mem::replace(&mut *b, Book { next_id, ..Default::default() })
    });
    for (_, k) in old.freed.into_iter().chain(old.live) {
        unsafe { std::alloc::dealloc(k.base, k.real) }
    }
}
/// Refuse `len` requests after `n` more successful ones.
pub fn fail_after(n: u64, len: u64) {
    B.with(|b| {
        let mut b = b.borrow_mut();
        b.fail_after = Some(n);
        b.fail_len = len;
    })
}
pub fn no_fail() {
    B.with(|b| b.borrow_mut().fail_after = None)
}
/// Refuse any request larger than this many bytes.
pub fn limit(n: Option<usize>) {
    B.with(|b| b.borrow_mut().limit = n)
}
pub fn counts() -> (u64, u64, u64, u64) {
    B.with(|b| {
        let b = b.borrow();
        (b.allocs, b.frees, b.reallocs, b.refused)
    })
}
pub fn live_blocks() -> usize {
    B.with(|b| b.borrow().live.len())
}
pub fn live_bytes() -> usize {
    B.with(|b| b.borrow().live.values().map(|k| k.size).sum())
}
fn poison(b: &mut Book, sig: &str, m: String) {
    println!("NOTE {sig}: {m}");
    if b.poison.is_none() {
        b.poison = Some((sig.into(), m))
    }
}
fn redzone_ok(k: &Block) -> Option<usize> {
    unsafe {
        let user = k.base.add(front(k.align));
        for i in 0..front(k.align) {
            if *k.base.add(i) != 0xFD {
                return Some(i);
            }
        }
        for i in 0..RED {
            if *user.add(k.size + i) != 0xFD {
                return Some(front(k.align) + k.size + i);
            }
        }
    }
    None
}
fn front(align: usize) -> usize {
    RED.max(align)
}
/// Verifies redzones of live blocks, and that freed blocks were not written to.
pub fn check() {
    let p = B.with(|b| {
        let mut b = b.borrow_mut();
        let mut bad = None;
        for (a, k) in &b.live {
            if let Some(i) = redzone_ok(k) {
                bad = Some(("redzone", format!("write outside of block {a:x} (size {}, align {}) at offset {}", k.size, k.align, i as isize - front(k.align) as isize)));
            }
        }
        for (a, k) in &b.freed {
            if let Some(i) = redzone_ok(k) {
                bad = Some(("redzone", format!("write outside of (freed) block {a:x} (size {}) at offset {}", k.size, i as isize - front(k.align) as isize)));
            }
            for i in 0..k.size {
                if unsafe { *k.base.add(front(k.align) + i) } != 0xDD {
                    bad = Some(("write-after-free", format!("block {a:x} (size {}) was written at offset {i} after being freed", k.size)));
                }
            }
        }
        if let Some((s, m)) = bad {
            poison(&mut b, s, m);
        }
        b.poison.take()
    });
    if let Some((s, m)) = p {
        crate::runner::violation(&s, m)
    }
}
/// `check`, and no block may still be live.
pub fn check_empty(sig: &str) {
    check();
    let n = live_blocks();
    if n != 0 {
        let d = B.with(|b| b.borrow().live.values().take(5).map(|k| (k.size, k.align)).collect::<Vec<_>>());
        crate::viol!(sig, "{n} block(s) never freed, (size, align): {d:?}")
    }
}
#[stabby::stabby]
pub struct MonAlloc {
    pub id: u32,
}
impl MonAlloc {
    pub fn new() -> Self {
        B.with(|b| {
            let mut b = b.borrow_mut();
            b.next_id += 1;
            b.instances += 1;
            MonAlloc { id: b.next_id }
        })
    }
}
impl Default for MonAlloc {
    fn default() -> Self {
        Self::new()
    }
}
/// Cloning an allocator yields a handle on the same arena.
impl Clone for MonAlloc {
    fn clone(&self) -> Self {
        MonAlloc { id: self.id }
    }
}
impl IAlloc for MonAlloc {
    fn alloc(&mut self, l: Layout) -> *mut () {
        B.with(|b| {
            let mut b = b.borrow_mut();
            if !l.align.is_power_of_two() {
                poison(&mut b, "bad-layout", format!("alloc with alignment {}", l.align));
                return std::ptr::null_mut();
            }
            if let Some(n) = b.fail_after {
                if n == 0 {
                    if b.fail_len > 0 {
                        b.fail_len -= 1;
                        b.refused += 1;
                        return std::ptr::null_mut();
                    }
                } else {
                    b.fail_after = Some(n - 1);
                }
            }
            if l.size == 0 || l.size > b.limit.unwrap_or(1 << 30) {
                b.refused += 1;
                return std::ptr::null_mut();
            }
            let f = front(l.align);
            let Ok(real) = std::alloc::Layout::from_size_align(f + l.size + RED, l.align) else {
                b.refused += 1;
                return std::ptr::null_mut();
            };
            let base = unsafe { std::alloc::alloc(real) };
            if base.is_null() {
                b.refused += 1;
                return std::ptr::null_mut();
            }
            unsafe {
                base.write_bytes(0xFD, f);
                if !cfg!(miri) {
                    base.add(f).write_bytes(0xCB, l.size);
                }
                base.add(f + l.size).write_bytes(0xFD, RED);
                let u = base.add(f);
                b.allocs += 1;
                b.live.insert(u as usize, Block { base, real, size: l.size, align: l.align, owner: self.id });
                u.cast()
            }
        })
    }
    unsafe fn free(&mut self, ptr: *mut ()) {
        B.with(|b| {
            let mut b = b.borrow_mut();
            let Some(k) = b.live.remove(&(ptr as usize)) else {
                let what = if b.freed.contains_key(&(ptr as usize)) { "freed twice" } else { "freed but never allocated" };
                poison(&mut b, "bad-free", format!("{ptr:p} {what}"));
                return;
            };
            if k.owner != self.id {
                let m = format!("block of allocator {} freed through allocator {}", k.owner, self.id);
                poison(&mut b, "wrong-allocator", m);
            }
            if let Some(i) = redzone_ok(&k) {
                poison(&mut b, "redzone", format!("write outside of block {ptr:p} (size {}, align {}) at offset {}", k.size, k.align, i as isize - front(k.align) as isize));
            }
            b.frees += 1;
            if cfg!(miri) {
                std::alloc::dealloc(k.base, k.real)
            } else {
                k.base.add(front(k.align)).write_bytes(0xDD, k.size);
                b.freed.insert(ptr as usize, k);
            }
        })
    }
    unsafe fn realloc(&mut self, ptr: *mut (), prev: Layout, new_size: usize) -> *mut () {
        let known = B.with(|b| {
            let mut b = b.borrow_mut();
            b.reallocs += 1;
            match b.live.get(&(ptr as usize)).map(|k| (k.size, k.align, k.owner)) {
                None => {
                    poison(&mut b, "bad-realloc", format!("{ptr:p} reallocated but not live"));
                    None
                }
                Some((s, a, o)) => {
                    if (s, a) != (prev.size, prev.align) {
                        poison(&mut b, "bad-realloc", format!("realloc describes block (size {s}, align {a}) as (size {}, align {})", prev.size, prev.align));
                    }
                    if o != self.id {
                        poison(&mut b, "wrong-allocator", format!("block of allocator {o} reallocated through {}", self.id));
                    }
                    Some(s)
                }
            }
        });
        let Some(old) = known else { return std::ptr::null_mut() };
        let new = self.alloc(Layout { size: new_size, align: prev.align });
        if !new.is_null() {
            core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), new.cast::<u8>(), old.min(new_size));
            self.free(ptr);
        }
        new
    }
}

/// A large, over-aligned auditing allocator that also verifies its own state at every call.
#[derive(Clone)]
#[repr(C, align(32))]
pub struct FatMon {
    inner: MonAlloc,
    canary: [u64; 9],
}
impl FatMon {
    fn intact(&self) {
        let at = self as *const Self as usize;
        if at % 32 != 0 {
            B.with(|b| poison(&mut b.borrow_mut(), "misaligned-allocator", format!("allocator of alignment 32 found at {at:x}")));
        }
        for (i, c) in self.canary.iter().enumerate() {
            if *c != (self.inner.id as u64) << 8 | i as u64 {
                B.with(|b| poison(&mut b.borrow_mut(), "garbage-allocator", format!("allocator state word {i} is {c:x} (id {})", self.inner.id)));
                return;
            }
        }
    }
}
impl Default for FatMon {
    fn default() -> Self {
        let inner = MonAlloc::new();
        let id = (inner.id as u64) << 8;
        FatMon { inner, canary: core::array::from_fn(|i| id | i as u64) }
    }
}
impl IAlloc for FatMon {
    fn alloc(&mut self, l: Layout) -> *mut () {
        self.intact();
        self.inner.alloc(l)
    }
    unsafe fn free(&mut self, ptr: *mut ()) {
        // the allocator may live in the very block it frees
        let mut me = self.clone();
        me.intact();
        me.inner.free(ptr)
    }
    unsafe fn realloc(&mut self, ptr: *mut (), prev: Layout, new: usize) -> *mut () {
        self.intact();
        self.inner.realloc(ptr, prev, new)
    }
}
/// An auditing allocator that relies on the trait's own reallocation.
#[stabby::stabby]
#[derive(Clone, Default)]
pub struct PlainMon(MonAlloc);
impl IAlloc for PlainMon {
    fn alloc(&mut self, l: Layout) -> *mut () {
        self.0.alloc(l)
    }
    unsafe fn free(&mut self, ptr: *mut ()) {
        self.0.free(ptr)
    }
}
