//! Machinery of the concurrency suites: racing threads, a side-ledger that adds no synchronisation
//! (Relaxed only), a shared payload that detects torn, late and repeated destruction,
//! and a counting allocator usable from any thread.
use crate::{mix, viol, Case, Rng};
use stabby::alloc::{IAlloc, Layout};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- threads
/// What a racing thread gets.
pub struct Tc {
    pub me: usize,
    pub n: usize,
    pub rng: Rng,
    pub hash: u64,
    pub events: u64,
    jitter: u64,
}
impl Tc {
    #[inline]
    pub fn ev(&mut self, v: u64) {
        self.events += 1;
        self.hash = mix(self.hash, v);
    }
    /// Random delay, to vary the interleaving.
    #[inline]
    pub fn jitter(&mut self) {
        match self.rng.below(self.jitter) {
            0 => std::thread::yield_now(),
            #[cfg(not(miri))]
            1 => {
                for _ in 0..self.rng.below(200) {
                    std::hint::spin_loop()
                }
            }
            _ => {}
        }
    }
}
/// Reusable gate without synchronisation: only makes the threads start a round together.
pub struct Gate(AtomicUsize);
impl Gate {
    pub fn new() -> Self {
        Gate(AtomicUsize::new(0))
    }
    pub fn wait(&self, round: usize, n: usize) {
        self.0.fetch_add(1, Relaxed);
        let mut spins = 0u32;
        while self.0.load(Relaxed) < (round + 1) * n && !FAILED.load(Relaxed) {
            spins += 1;
            if cfg!(miri) || spins > 2000 {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
    }
}
static FAILED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Alarm;
impl Drop for Alarm {
    fn drop(&mut self) {
        if std::thread::panicking() {
            FAILED.store(true, Relaxed)
        }
    }
}
/// Runs one closure per thread; a monitor violation in any of them is re-raised here.
pub fn race<R: Send>(c: &mut Case, bodies: Vec<Box<dyn FnOnce(&mut Tc) -> R + Send + '_>>) -> Vec<R> {
    let n = bodies.len();
    let mut out = vec![];
    let mut bad = None;
    let rngs: Vec<Rng> = bodies.iter().map(|_| c.rng.fork()).collect();
    let jitter = 3 + c.rng.below(20);
    FAILED.store(false, Relaxed);
    std::thread::scope(|s| {
        let hs: Vec<_> = bodies
            .into_iter()
            .zip(rngs)
            .enumerate()
            .map(|(me, (f, rng))| {
                s.spawn(move || {
                    let _alarm = Alarm;
                    let mut t = Tc { me, n, rng, hash: me as u64, events: 0, jitter };
                    let r = f(&mut t);
                    (r, t.hash, t.events)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((r, h, e)) => {
                    c.hash = mix(c.hash, h);
                    c.events += e;
                    crate::runner::PROGRESS.fetch_add(1, Relaxed);
                    out.push(r)
                }
                Err(p) => {
                    if bad.as_ref().map_or(true, |b: &Box<dyn std::any::Any + Send>| !b.is::<crate::runner::Violation>()) {
                        bad = Some(p)
                    }
                }
            }
        }
    });
    if let Some(p) = bad {
        if let Some(v) = p.downcast_ref::<crate::runner::Violation>() {
            viol!(&v.sig, "in a racing thread: {}", v.msg)
        }
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
        viol!("thread-panic", "a racing thread panicked: {m}")
    }
    out
}

// ---------------------------------------------------------------- payload
pub const SLOTS: usize = 4;
pub const RECS: usize = 4096;
const MAGIC: u64 = 0x5AFE_0B1E_C7A1_17E5;
const K: u64 = 0x0F1E_2D3C_4B5A_6978;
pub struct Rec {
    state: AtomicU32, // 0 unborn, 1 alive, 2 destroyed
    slots: [AtomicU32; SLOTS],
}
pub static REC: [Rec; RECS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const R: Rec = Rec { state: AtomicU32::new(0), slots: [const { AtomicU32::new(0) }; SLOTS] };
    [R; RECS]
};
static NEXT: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
/// Starts a case.
pub fn reset() {
    for r in REC.iter().take(NEXT.swap(0, Relaxed).min(RECS)) {
        r.state.store(0, Relaxed);
        for s in &r.slots {
            s.store(0, Relaxed)
        }
    }
    BAD.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
}
pub fn state(id: u32) -> u32 {
    REC[id as usize].state.load(Relaxed)
}
pub fn born() -> usize {
    NEXT.load(Relaxed)
}
pub fn room() -> usize {
    RECS.saturating_sub(born())
}
/// A value shared between threads. `a`/`b` are only written by a sole owner; each `slots[t]` only by thread `t`.
pub struct Shared {
    magic: u64,
    pub id: u32,
    a: UnsafeCell<u64>,
    b: UnsafeCell<u64>,
    slots: [UnsafeCell<u32>; SLOTS],
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn new(a: u64) -> Self {
        let id = NEXT.fetch_add(1, Relaxed);
        if id >= RECS {
            panic!("harness: out of records")
        }
        if REC[id].state.swap(1, Relaxed) != 0 {
            panic!("harness: record in use")
        }
        Shared { magic: MAGIC, id: id as u32, a: UnsafeCell::new(a), b: UnsafeCell::new(a ^ K), slots: Default::default() }
    }
    /// Reads the value, checking that it is alive and whole.
    #[track_caller]
    pub fn a(&self) -> u64 {
        if self.magic != MAGIC {
            viol!("dead-value", "a value reached through a live owner has magic {:#x}", self.magic)
        }
        if state(self.id) == 2 {
            viol!("dead-value", "the value {} was destroyed while owned", self.id)
        }
        let (a, b) = unsafe { (*self.a.get(), *self.b.get()) };
        if a ^ b != K {
            viol!("torn-value", "the value {} reads {a:#x} / {b:#x}", self.id)
        }
        a
    }
    /// An access by an owner, unsynchronised with those of the others.
    pub fn touch(&self, t: usize) {
        unsafe { *self.slots[t].get() += 1 }
        REC[self.id as usize].slots[t].fetch_add(1, Relaxed);
    }
    pub fn touches(&self, t: usize) -> u32 {
        unsafe { *self.slots[t].get() }
    }
    /// Only by a sole owner: sees all that previous owners did, and may write anything.
    #[track_caller]
    pub fn alter(&mut self, a: u64) {
        self.a();
        self.audit();
        *self.a.get_mut() = a;
        *self.b.get_mut() = a ^ K;
        let id = self.id as usize;
        for (s, r) in self.slots.iter_mut().zip(&REC[id].slots) {
            *s.get_mut() += 1;
            r.fetch_add(1, Relaxed);
        }
    }
    #[track_caller]
    fn audit(&self) {
        for (t, s) in self.slots.iter().enumerate() {
            let (g, w) = (unsafe { *s.get() }, REC[self.id as usize].slots[t].load(Relaxed));
            if g != w {
                viol!("lost-access", "value {}: thread {t} did {w} accesses, {g} are visible to the last owner", self.id)
            }
        }
    }
}
impl Clone for Shared {
    fn clone(&self) -> Self {
        Shared::new(self.a())
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            BAD.fetch_add(1, Relaxed);
            viol!("double-destruction", "destruction of a value of magic {:#x}", self.magic)
        }
        let was = REC[self.id as usize].state.swap(2, Relaxed);
        if was != 1 {
            viol!("double-destruction", "the value {} was destroyed in state {was}", self.id)
        }
        let (a, b) = (*self.a.get_mut(), *self.b.get_mut());
        if a ^ b != K {
            viol!("torn-value", "the value {} reads {a:#x} / {b:#x} when destroyed", self.id)
        }
        self.audit();
        self.magic = 0xDEAD;
    }
}
/// At the end of a case: everything was destroyed, and all memory given back.
#[track_caller]
pub fn all_gone() {
    for id in 0..born() {
        if state(id as u32) != 2 {
            viol!("leaked-value", "the value {id} of {} was never destroyed", born())
        }
    }
    let l = (LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed));
    if l != (0, 0) {
        viol!("leaked-block", "{} blocks ({} bytes) never went back to the allocator", l.0, l.1)
    }
}

// ---------------------------------------------------------------- allocator
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Counts blocks over all threads; each block is bracketed by a header and a trailer.
#[stabby::stabby]
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CntAlloc;
const HEAD: u64 = 0xA110_CA7E_D000_0001;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    off: usize,
}
fn layout(size: usize, align: usize) -> (std::alloc::Layout, usize) {
    let align = align.max(std::mem::align_of::<Head>());
    let off = std::mem::size_of::<Head>().next_multiple_of(align);
    (std::alloc::Layout::from_size_align(off + size + 8, align).unwrap(), off)
}
impl IAlloc for CntAlloc {
    fn alloc(&mut self, l: Layout) -> *mut () {
        let (r, off) = layout(l.size, l.align);
        unsafe {
            let p = std::alloc::alloc(r);
            if p.is_null() {
                return p.cast();
            }
            let u = p.add(off);
            u.cast::<Head>().sub(1).write(Head { magic: HEAD, size: l.size, align: l.align, off });
            u.add(l.size).cast::<u64>().write_unaligned(HEAD ^ l.size as u64);
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size as i64, Relaxed);
            u.cast()
        }
    }
    unsafe fn free(&mut self, ptr: *mut ()) {
        let u = ptr.cast::<u8>();
        let h = &mut *u.cast::<Head>().sub(1);
        if h.magic != HEAD {
            viol!("bad-release", "release of a block of magic {:#x}", h.magic)
        }
        if u.add(h.size).cast::<u64>().read_unaligned() != HEAD ^ h.size as u64 {
            viol!("overrun", "the end of a {}-byte block was overwritten", h.size)
        }
        let (r, off) = layout(h.size, h.align);
        LIVE.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(h.size as i64, Relaxed);
        h.magic = DEAD;
        std::alloc::dealloc(u.sub(off), r)
    }
}

// ---------------------------------------------------------------- linearizability
/// One operation of a recorded history: `call`/`ret` are stamps of a global clock.
#[derive(Clone, Debug)]
pub struct Ev<O> {
    pub call: u64,
    pub ret: u64,
    pub op: O,
}
/// Wing-Gong-Lowe search: is there an order of the operations, respecting real time, that `step` accepts?
/// `step(state, op)` returns the state after, or None if the result is impossible there.
pub fn linearizable<O, S: Clone + Eq + std::hash::Hash>(h: &[Ev<O>], init: S, step: impl Fn(&S, &O) -> Option<S>) -> bool {
    assert!(h.len() <= 64);
    let all = if h.len() == 64 { u64::MAX } else { (1u64 << h.len()) - 1 };
    let mut seen = std::collections::HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((done, s)) = stack.pop() {
        if done == all {
            return true;
        }
        if !seen.insert((done, s.clone())) {
            continue;
        }
        let min_ret = h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if done >> i & 1 == 0 && e.call <= min_ret {
                if let Some(n) = step(&s, &e.op) {
                    stack.push((done | 1 << i, n))
                }
            }
        }
    }
    false
}
/// A sequentially consistent clock.
pub struct Clock(AtomicU64);
impl Clock {
    pub fn new() -> Self {
        Clock(AtomicU64::new(0))
    }
    pub fn now(&self) -> u64 {
        self.0.fetch_add(1, SeqCst)
    }
}
