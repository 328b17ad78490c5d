//! Futures behind stabby trait objects, and the wakers they receive.
use harness::conc::{race, Tc};
use harness::monalloc::{self, MonAlloc};
use harness::track::{self, Elem, Tracked};
use harness::{must, same, viol, Case, Group};
use stabby::boxed::Box as SBox;
use stabby::future::{DynFuture, DynFutureUnsend, DynFutureUnsync, Future as SFuture, StableWaker};
use stabby_abi::IDeterminantProvider;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

// ---------------------------------------------------------------- counted wakers
/// What a task's waker records.  `live` counts raw handles, the original included.
struct WState {
    live: AtomicI64,
    wakes: AtomicU64,
    bad: AtomicU64,
}
impl WState {
    fn new() -> Arc<WState> {
        Arc::new(WState { live: AtomicI64::new(0), wakes: AtomicU64::new(0), bad: AtomicU64::new(0) })
    }
    fn waker(this: &Arc<WState>) -> Waker {
        this.live.fetch_add(1, Relaxed);
        unsafe { Waker::from_raw(RawWaker::new(Arc::as_ptr(this) as *const (), &WVT)) }
    }
    fn live(&self) -> i64 {
        self.live.load(Relaxed)
    }
    fn wakes(&self) -> u64 {
        self.wakes.load(Relaxed)
    }
    fn used(&self) {
        if self.live.load(Relaxed) <= 0 {
            self.bad.fetch_add(1, Relaxed);
        }
    }
}
static WVT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);
unsafe fn w(p: *const ()) -> &'static WState {
    &*(p as *const WState)
}
unsafe fn w_clone(p: *const ()) -> RawWaker {
    w(p).used();
    w(p).live.fetch_add(1, Relaxed);
    RawWaker::new(p, &WVT)
}
unsafe fn w_wake(p: *const ()) {
    w_wake_by_ref(p);
    w_drop(p)
}
unsafe fn w_wake_by_ref(p: *const ()) {
    w(p).used();
    w(p).wakes.fetch_add(1, Relaxed);
}
unsafe fn w_drop(p: *const ()) {
    w(p).used();
    w(p).live.fetch_sub(1, Relaxed);
}

// ---------------------------------------------------------------- scripted futures
#[derive(Clone, Copy, Debug)]
enum Act {
    /// keeps nothing
    Nothing,
    /// keeps a clone of the waker
    Store,
    /// keeps two clones, one made from the other
    StoreTwice,
    WakeByRef,
    CloneWake,
    CloneDrop,
}
#[derive(Default)]
struct Shared {
    /// waker the driver polls with at the moment
    cur: usize,
    /// clones kept by futures, with the waker they stand for
    stash: Vec<(Waker, usize)>,
    /// wakes each waker must have received
    wakes: Vec<u64>,
    polls: u64,
    done: u64,
}
trait Out: IDeterminantProvider<()> + Sized + 'static {
    fn out(k: u32) -> Self;
    fn is(&self, k: u32) -> bool;
}
macro_rules! outs { ($($t:ty : |$k:ident| $m:expr, |$s:ident| $i:expr;)*) => { $( impl Out for $t { fn out($k: u32) -> Self { $m } fn is(&self, $k: u32) -> bool { let $s = self; $i } } )* } }
outs! {
    u8: |k| k as u8, |s| *s == k as u8;
    (): |_k| (), |_s| true;
    u64: |k| k as u64 * 0x0101_0101, |s| *s == k as u64 * 0x0101_0101;
    bool: |k| k & 1 == 1, |s| *s == (k & 1 == 1);
    core::num::NonZeroU32: |k| core::num::NonZeroU32::new(k + 1).unwrap(), |s| s.get() == k + 1;
    Tracked: |k| <Tracked as Elem>::make(k), |s| s.key() == k;
    stabby::string::String: |k| std::format!("out {k} é").into(), |s| **s == *std::format!("out {k} é");
    SBox<Tracked>: |k| SBox::new(<Tracked as Elem>::make(k)), |s| s.key() == k;
    stabby::vec::Vec<u32>: |k| (0..k % 9).collect(), |s| s.iter().copied().eq(0..k % 9);
    stabby::result::Result<Tracked, u8>: |k| if k & 1 == 0 { stabby::result::Result::Ok(<Tracked as Elem>::make(k)) } else { stabby::result::Result::Err(k as u8) }, |s| s.match_ref(|t| k & 1 == 0 && t.key() == k, |e| k & 1 == 1 && *e == k as u8);
    stabby::option::Option<SBox<Tracked>>: |k| if k & 1 == 0 { stabby::option::Option::Some(SBox::new(<Tracked as Elem>::make(k))) } else { stabby::option::Option::None() }, |s| s.match_ref(|t| k & 1 == 0 && t.key() == k, || k & 1 == 1);
}
struct Script<T> {
    steps: VecDeque<Act>,
    captured: Tracked,
    key: u32,
    out: u32,
    sh: Rc<RefCell<Shared>>,
    at: usize,
    done: bool,
    _t: core::marker::PhantomData<fn() -> T>,
    _pin: core::marker::PhantomPinned,
}
// SAFETY: only ever used by one thread; the suite needs it behind every marker.
unsafe impl<T> Send for Script<T> {}
unsafe impl<T> Sync for Script<T> {}
impl<T: Out> Future for Script<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let this = unsafe { self.get_unchecked_mut() };
        same!("captured-value", this.captured.key(), this.key);
        let here = this as *const Self as usize;
        must!("pinning", this.at == 0 || this.at == here, "the future moved from {:x} to {:x} between two polls", this.at, here);
        this.at = here;
        must!("poll-after-completion", !this.done, "the future was polled again after it completed");
        let mut sh = this.sh.borrow_mut();
        sh.polls += 1;
        let cur = sh.cur;
        let Some(a) = this.steps.pop_front() else {
            sh.done += 1;
            this.done = true;
            return Poll::Ready(T::out(this.out));
        };
        match a {
            Act::Nothing => {}
            Act::Store => sh.stash.push((cx.waker().clone(), cur)),
            Act::StoreTwice => {
                let w = cx.waker().clone();
                sh.stash.push((w.clone(), cur));
                sh.stash.push((w, cur));
            }
            Act::WakeByRef => {
                cx.waker().wake_by_ref();
                sh.wakes[cur] += 1
            }
            Act::CloneWake => {
                cx.waker().clone().wake();
                sh.wakes[cur] += 1
            }
            Act::CloneDrop => drop(cx.waker().clone()),
        }
        Poll::Pending
    }
}
#[stabby::stabby]
pub trait Tag {
    extern "C" fn tag(&self) -> u32;
}
impl<T> Tag for Script<T> {
    extern "C" fn tag(&self) -> u32 {
        self.captured.key()
    }
}
type Std<T> = Pin<std::boxed::Box<dyn Future<Output = T>>>;
/// One wrapped future of `pend` pending polls.
fn script<T: Out>(c: &mut Case, sh: &Rc<RefCell<Shared>>, out: u32) -> (Script<T>, usize) {
    let n = c.rng.below(4) as usize;
    let steps = (0..n).map(|_| *c.rng.pick(&[Act::Nothing, Act::Store, Act::StoreTwice, Act::WakeByRef, Act::CloneWake, Act::CloneDrop])).collect();
    let key = c.rng.below(250) as u32;
    (Script { steps, captured: <Tracked as Elem>::make(key), key, out, sh: sh.clone(), at: 0, done: false, _t: core::marker::PhantomData, _pin: core::marker::PhantomPinned }, n)
}
fn wrap<T: Out>(c: &mut Case, s: Script<T>) -> Std<T> {
    type V0<T> = stabby::vtable!(SFuture<Output = T>);
    macro_rules! d {
        ($v:ty) => {{
            if c.rng.bool() {
                std::boxed::Box::pin(stabby_abi::Dyn::<'static, SBox<()>, $v>::from(SBox::new(s)))
            } else {
                std::boxed::Box::pin(stabby_abi::Dyn::<'static, SBox<(), MonAlloc>, $v>::from(SBox::new_in(s, MonAlloc::new())))
            }
        }};
    }
    match c.rng.below(9) {
        0 => d!(V0<T>),
        1 => d!(stabby::vtable!(SFuture<Output = T> + Send)),
        2 => d!(stabby::vtable!(SFuture<Output = T> + Sync)),
        3 => d!(stabby::vtable!(SFuture<Output = T> + Send + Sync)),
        4 => d!(stabby::vtable!(SFuture<Output = T> + Sync + Send)),
        5 => std::boxed::Box::pin(DynFuture::<'static, T>::from(SBox::new(s))),
        6 => std::boxed::Box::pin(DynFutureUnsync::<'static, T>::from(SBox::new(s))),
        7 => std::boxed::Box::pin(DynFutureUnsend::<'static, T>::from(SBox::new(s))),
        _ => {
            let k = s.key;
            let d = stabby_abi::Dyn::<'static, SBox<()>, stabby::vtable!(Tag + SFuture<Output = T>)>::from(SBox::new(s));
            same!("tag", d.tag(), k);
            std::boxed::Box::pin(d)
        }
    }
}
/// A random tree of futures and async blocks; returns the number of pending polls before completion.
fn tree<T: Out>(c: &mut Case, sh: &Rc<RefCell<Shared>>, out: u32, depth: u32) -> (Std<T>, usize) {
    match if depth == 0 { 0 } else { c.rng.below(4) } {
        0 | 1 => {
            let (s, n) = script::<T>(c, sh, out);
            (wrap(c, s), n)
        }
        2 => {
            // wrapped again: the waker goes through two shims
            let (f, n) = tree::<T>(c, sh, out, depth - 1);
            let cap = <Tracked as Elem>::make(7);
            let d: DynFutureUnsend<'static, T> = SBox::new(async move {
                let r = f.await;
                same!("captured-value", cap.key(), 7);
                r
            }).into();
            (std::boxed::Box::pin(d), n)
        }
        _ => {
            // several awaits in one async block
            let o1 = c.rng.below(200) as u32;
            let (f, n) = tree::<u64>(c, sh, o1, depth - 1);
            let (g, m) = tree::<Tracked>(c, sh, o1 + 1, depth - 1);
            let (h, k) = tree::<T>(c, sh, out, depth - 1);
            let cap = <Tracked as Elem>::make(9);
            let d: DynFutureUnsend<'static, T> = SBox::new(async move {
                let a = f.await;
                must!("output", a.is(o1), "inner future gave another value");
                let b = g.await;
                must!("output", b.is(o1 + 1), "inner future gave another value");
                let r = h.await;
                same!("captured-value", cap.key(), 9);
                r
            }).into();
            (std::boxed::Box::pin(d), n + m + k)
        }
    }
}
/// Random polls, wakes and drops on a handful of futures.
fn history<T: Out>(c: &mut Case) {
    track::reset();
    monalloc::reset();
    let sh = Rc::new(RefCell::new(Shared::default()));
    let mut states: Vec<Arc<WState>> = vec![];
    let mut wakers: Vec<Option<Waker>> = vec![];
    struct F<T> { f: Std<T>, left: usize, out: u32 }
    let mut futs: Vec<F<T>> = vec![];
    let steps = c.scale(40, 14) as u64;
    for _ in 0..c.rng.below(steps) + 5 {
        let op = if futs.is_empty() { 0 } else { c.rng.below(12) };
        c.ev(op);
        match op {
            0 => {
                if futs.len() < 4 {
                    let out = c.rng.below(250) as u32;
                    let (f, n) = tree::<T>(c, &sh, out, 2);
                    futs.push(F { f, left: n, out });
                }
            }
            1..=6 => {
                // poll with some waker
                if wakers.is_empty() || c.rng.chance(1, 4) {
                    let s = WState::new();
                    wakers.push(Some(WState::waker(&s)));
                    states.push(s);
                    sh.borrow_mut().wakes.push(0);
                }
                let live: Vec<usize> = (0..wakers.len()).filter(|i| wakers[*i].is_some()).collect();
                if live.is_empty() { continue; }
                let wi = *c.rng.pick(&live);
                sh.borrow_mut().cur = wi;
                let i = c.rng.idx(futs.len());
                let polls = sh.borrow().polls;
                let before = states[wi].live();
                let stash = sh.borrow().stash.len();
                let w = wakers[wi].as_ref().unwrap();
                let r = futs[i].f.as_mut().poll(&mut Context::from_waker(w));
                same!("poll-count", sh.borrow().polls > polls, true, "the wrapped future was not polled");
                let kept = (sh.borrow().stash.len() - stash) as i64;
                let grown = states[wi].live() - before;
                must!("waker-clones", grown >= (kept > 0) as i64 && grown <= kept, "{kept} clones of the waker were kept, {grown} of the original");
                match r {
                    Poll::Pending => {
                        must!("poll-sequence", futs[i].left > 0, "the future should have completed");
                        futs[i].left -= 1;
                    }
                    Poll::Ready(v) => {
                        must!("poll-sequence", futs[i].left == 0, "the future completed {} polls early", futs[i].left);
                        must!("output", v.is(futs[i].out), "the future gave another output");
                        let f = futs.swap_remove(i);
                        drop(f);
                    }
                }
                c.nontrivial = true;
            }
            7 | 8 => {
                let mut s = sh.borrow_mut();
                if !s.stash.is_empty() {
                    let i = c.rng.idx(s.stash.len());
                    let wi = s.stash[i].1;
                    match c.rng.below(4) {
                        0 => {
                            s.stash[i].0.wake_by_ref();
                            s.wakes[wi] += 1;
                        }
                        1 => {
                            let (w, _) = s.stash.swap_remove(i);
                            w.wake();
                            s.wakes[wi] += 1;
                        }
                        2 => {
                            let w = s.stash[i].0.clone();
                            s.stash.push((w, wi));
                        }
                        _ => {
                            s.stash.swap_remove(i);
                        }
                    }
                }
            }
            9 => {
                // the task goes away; its clones must keep working
                if !wakers.is_empty() {
                    let i = c.rng.idx(wakers.len());
                    wakers[i] = None;
                }
            }
            _ => {
                let i = c.rng.idx(futs.len());
                if c.rng.bool() {
                    drop(futs.swap_remove(i)) // abandoned
                } else {
                    let f = futs.swap_remove(i); // moved
                    futs.insert(0, f);
                }
            }
        }
        check_wakers(&states, &wakers, &sh.borrow());
        track::check();
    }
    drop(futs);
    check_wakers(&states, &wakers, &sh.borrow());
    // the clones outlive the futures
    while let Some((w, wi)) = { let mut s = sh.borrow_mut(); let n = s.stash.len(); (n > 0).then(|| s.stash.swap_remove(c.rng.idx(n))) } {
        if c.rng.bool() {
            w.wake();
            sh.borrow_mut().wakes[wi] += 1;
        } else {
            drop(w);
        }
        check_wakers(&states, &wakers, &sh.borrow());
    }
    wakers.clear();
    for s in &states {
        same!("waker-release", s.live(), 0, "handles of the original waker left after every clone was dropped");
    }
    track::assert_all_dropped("leak");
    monalloc::check_empty("alloc-leak");
}
fn check_wakers(states: &[Arc<WState>], wakers: &[Option<Waker>], sh: &Shared) {
    for (i, s) in states.iter().enumerate() {
        same!("use-of-released-waker", s.bad.load(Relaxed), 0);
        same!("wake-count", s.wakes(), sh.wakes[i], "wakes received by waker {i}");
        let own = wakers[i].is_some() as i64;
        let held = sh.stash.iter().filter(|(_, j)| *j == i).count() as i64;
        must!("waker-release", s.live() >= own + (held > 0) as i64 && s.live() <= own + held, "{held} clones are held, the original has {} handles, {own} of them its owner's", s.live());
    }
}
/// `&mut F` as a trait object, and the stable waker on its own.
fn borrowed(c: &mut Case) {
    track::reset();
    monalloc::reset();
    let sh = Rc::new(RefCell::new(Shared::default()));
    let st = WState::new();
    let w = WState::waker(&st);
    sh.borrow_mut().wakes.push(0);
    {
        let (mut s, n) = script::<Tracked>(c, &sh, 55);
        let p: *mut Script<Tracked> = &mut s;
        let mut left = n;
        loop {
            c.ev(1);
            let mut d = stabby_abi::Dyn::<'static, &'static mut (), stabby::vtable!(SFuture<Output = Tracked>)>::from(unsafe { &mut *p });
            match Pin::new(&mut d).poll(&mut Context::from_waker(&w)) {
                Poll::Pending => { must!("poll-sequence", left > 0, "should have completed"); left -= 1 }
                Poll::Ready(v) => { same!("poll-sequence", left, 0); must!("output", v.is(55), "other output"); break }
            }
        }
        same!("captured-value", s.captured.key(), s.key, "the borrowed future was destroyed");
    }
    {
        // the stable poll function called directly, with a waker shim
        let (mut s, n) = script::<u8>(c, &sh, 44);
        for i in 0..=n {
            let r: Option<u8> = SFuture::poll(&mut s, StableWaker::from(&w)).into();
            same!("poll-sequence", r, (i == n).then_some(44));
        }
    }
    {
        let mut held: Vec<Waker> = vec![];
        let mut wakes = 0;
        StableWaker::<MonAlloc>::from(&w).with_waker(|w1| {
            let before = st.live();
            StableWaker::<MonAlloc>::from(w1).with_waker(|w2| {
                for _ in 0..c.rng.below(8) {
                    match c.rng.below(6) {
                        0 => { w2.wake_by_ref(); wakes += 1 }
                        1 => { w1.wake_by_ref(); wakes += 1 }
                        2 => held.push(w2.clone()),
                        3 => held.push(w1.clone()),
                        4 => { w2.clone().wake(); wakes += 1 }
                        _ => if let Some(h) = held.pop() { let g = h.clone(); held.push(g); if c.rng.bool() { h.wake(); wakes += 1 } },
                    }
                    c.ev(2);
                }
            });
            must!("waker-release", st.live() - before <= held.len() as i64 && (st.live() > before) == !held.is_empty(), "{} clones held, {} handles", held.len(), st.live() - before);
        });
        sh.borrow_mut().wakes[0] += wakes;
        same!("wake-count", st.wakes(), sh.borrow().wakes[0]);
        for h in held {
            if c.rng.bool() { h.wake_by_ref(); sh.borrow_mut().wakes[0] += 1; }
        }
    }
    sh.borrow_mut().stash.drain(..).for_each(|(w, _)| drop(w));
    drop(w);
    same!("wake-count", st.wakes(), sh.borrow().wakes[0]);
    same!("waker-release", st.live(), 0);
    same!("use-of-released-waker", st.bad.load(Relaxed), 0);
    c.nontrivial = true;
    track::assert_all_dropped("leak");
    monalloc::check_empty("alloc-leak");
}
// ---------------------------------------------------------------- MaybeResolved
/// A stable, movable future.
#[stabby::stabby]
struct Count {
    left: u32,
    out: u32,
    cap: Tracked,
}
impl Future for Count {
    type Output = SBox<Tracked>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<SBox<Tracked>> {
        self.cap.key();
        must!("poll-after-completion", self.left != u32::MAX, "polled again after it completed");
        if self.left == 0 {
            self.left = u32::MAX;
            return Poll::Ready(SBox::out(self.out));
        }
        self.left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn maybe_resolved(c: &mut Case) {
    use stabby_abi::future::MaybeResolved;
    track::reset();
    let st = WState::new();
    let w = WState::waker(&st);
    let out = c.rng.below(200) as u32;
    let mut pend = c.rng.below(4) as u32;
    let mut empty = false;
    let mut f: MaybeResolved<SBox<Tracked>, Count> = match c.rng.below(4) {
        0 => { pend = 0; MaybeResolved::Resolved(SBox::out(out)) }
        1 => { empty = true; MaybeResolved::Empty() }
        _ => MaybeResolved::Pending(Count { left: pend, out, cap: <Tracked as Elem>::make(3) }),
    };
    let mut wakes = 0;
    for _ in 0..c.rng.below(7) {
        c.ev(pend as u64 + empty as u64 * 100);
        let r = Pin::new(&mut f).poll(&mut Context::from_waker(&w));
        match r {
            Poll::Ready(v) => {
                must!("poll-sequence", !empty && pend == 0, "completed early or twice");
                must!("output", v.is(out), "other output");
                empty = true;
                same!("resolved-empty", f.match_ref(|_| 0, || 1, |_| 2), 1);
            }
            Poll::Pending => {
                must!("poll-sequence", empty || pend > 0, "should have completed");
                if !empty { pend -= 1; wakes += 1; }
            }
        }
        same!("wake-count", st.wakes(), wakes);
        if c.rng.chance(1, 4) { let g = f; f = g; }
    }
    drop(f);
    drop(w);
    same!("waker-release", st.live(), 0);
    same!("use-of-released-waker", st.bad.load(Relaxed), 0);
    c.nontrivial = true;
    track::assert_all_dropped("leak");
}
// ---------------------------------------------------------------- annotated async functions
mod annotated {
    use super::*;
    #[allow(unused_imports)]
    use stabby::boxed::Box;
    pub struct Yield(pub u32);
    impl Future for Yield {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 == 0 { return Poll::Ready(()); }
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    #[stabby::stabby]
    pub async fn plain(n: u32, t: Tracked) -> Tracked {
        Yield(n).await;
        t
    }
    #[stabby::stabby]
    pub async fn unit(n: u32) {
        Yield(n).await
    }
}
fn annotated_fns(c: &mut Case) {
    track::reset();
    let st = WState::new();
    let w = WState::waker(&st);
    let n = c.rng.below(5) as u32;
    let k = c.rng.below(200) as u32;
    let mut f = annotated::plain(n, <Tracked as Elem>::make(k));
    let mut g = annotated::unit(n);
    fn ss<T: Send + Sync>(_: &T) {}
    ss(&f);
    let stop = c.rng.below(n as u64 + 3) as u32;
    for i in 0..=n {
        c.ev(i as u64);
        if i == stop { break } // abandoned
        let mut cx = Context::from_waker(&w);
        match Pin::new(&mut f).poll(&mut cx) {
            Poll::Pending => must!("poll-sequence", i < n, "should have completed"),
            Poll::Ready(t) => { same!("poll-sequence", i, n); same!("output", t.key(), k) }
        }
        same!("poll-sequence", Pin::new(&mut g).poll(&mut cx).is_ready(), i == n);
    }
    drop(f);
    track::assert_all_dropped("leak");
    drop(g);
    drop(w);
    same!("wake-count", st.wakes(), 2 * stop.min(n) as u64);
    same!("waker-release", st.live(), 0);
    c.nontrivial = true;
}
// ---------------------------------------------------------------- threads
/// Clones of one task's waker used by racing threads while the task is polled and dropped.
fn racing_wakers(c: &mut Case) {
    let tasks = 1 + c.rng.idx(2);
    let states: Vec<Arc<WState>> = (0..tasks).map(|_| WState::new()).collect();
    let mut mail: Vec<(Waker, usize)> = vec![];
    {
        // real futures hand out the clones
        struct Give(Arc<Mutex<Vec<Waker>>>, u32);
        impl Future for Give {
            type Output = u8;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u8> {
                if self.1 == 0 { return Poll::Ready(3); }
                self.1 -= 1;
                self.0.lock().unwrap().push(cx.waker().clone());
                Poll::Pending
            }
        }
        for (i, s) in states.iter().enumerate() {
            let w = WState::waker(s);
            let out = Arc::new(Mutex::new(vec![]));
            let n = 1 + c.rng.below(3) as u32;
            let mut f: DynFuture<'static, u8> = SBox::new(Give(out.clone(), n)).into();
            for _ in 0..n { must!("poll-sequence", Pin::new(&mut f).poll(&mut Context::from_waker(&w)).is_pending(), "completed early"); }
            if c.rng.bool() { same!("poll-sequence", Pin::new(&mut f).poll(&mut Context::from_waker(&w)), Poll::Ready(3)); }
            mail.extend(out.lock().unwrap().drain(..).map(|w| (w, i)));
        }
    }
    let n = 2 + c.rng.idx(3);
    let want: Vec<AtomicU64> = states.iter().map(|_| AtomicU64::new(0)).collect();
    // every thread shares some clones by reference and owns some
    let mut owned: Vec<Vec<(Waker, usize)>> = (0..n).map(|_| vec![]).collect();
    for (w, i) in &mail {
        for o in owned.iter_mut() {
            if c.rng.chance(2, 3) { o.push((w.clone(), *i)) }
        }
    }
    let steps = c.scale(60, 10);
    let gate = harness::conc::Gate::new();
    {
        let (mail, want, gate) = (&mail, &want, &gate);
        let bodies: Vec<std::boxed::Box<dyn FnOnce(&mut Tc) + Send + '_>> = owned
            .into_iter()
            .map(|mut own| {
                std::boxed::Box::new(move |t: &mut Tc| {
                    gate.wait(0, t.n);
                    for _ in 0..steps {
                        t.jitter();
                        let op = t.rng.below(7);
                        t.ev(op);
                        let mine = !own.is_empty() && t.rng.bool();
                        match op {
                            0 | 1 if mine => { let i = t.rng.idx(own.len()); own[i].0.wake_by_ref(); want[own[i].1].fetch_add(1, Relaxed); }
                            0 | 1 => { let (w, i) = t.rng.pick(mail); w.wake_by_ref(); want[*i].fetch_add(1, Relaxed); }
                            2 if mine => { let i = t.rng.idx(own.len()); let c = (own[i].0.clone(), own[i].1); own.push(c) }
                            2 | 3 => { let (w, i) = t.rng.pick(mail); own.push((w.clone(), *i)) }
                            4 if mine => { let i = t.rng.idx(own.len()); let (w, i) = own.swap_remove(i); w.wake(); want[i].fetch_add(1, Relaxed); }
                            5 if mine => { let i = t.rng.idx(own.len()); own.swap_remove(i); }
                            _ => if own.len() >= 2 { let (a, b) = (t.rng.idx(own.len()), t.rng.idx(own.len())); must!("will-wake", !own[a].0.will_wake(&own[b].0) || own[a].1 == own[b].1, "wakers of two tasks claim to wake the same"); },
                        }
                        if own.len() > 10 { own.truncate(4) }
                    }
                }) as std::boxed::Box<dyn FnOnce(&mut Tc) + Send + '_>
            })
            .collect();
        race(c, bodies);
    }
    for (i, s) in states.iter().enumerate() {
        same!("use-of-released-waker", s.bad.load(Relaxed), 0);
        same!("wake-count", s.wakes(), want[i].load(Relaxed));
        let held = mail.iter().filter(|(_, j)| *j == i).count() as i64;
        must!("waker-release", s.live() >= (held > 0) as i64 && s.live() <= held, "{held} clones are held, the original has {} handles", s.live());
    }
    drop(mail);
    for s in &states {
        same!("waker-release", s.live(), 0, "handles left of a waker nobody holds");
        same!("use-of-released-waker", s.bad.load(Relaxed), 0);
    }
    c.nontrivial = true;
}
/// A cell another thread fills; the future resolves then.
struct Shot<T> {
    slot: Mutex<(Option<T>, Option<Waker>)>,
}
struct Wait<T>(Arc<Shot<T>>);
impl<T> Future for Wait<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut s = self.0.slot.lock().unwrap();
        match s.0.take() {
            Some(t) => Poll::Ready(t),
            None => {
                s.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct TaskState {
    woken: AtomicUsize,
}
impl Wake for TaskState {
    fn wake(self: Arc<Self>) {
        self.woken.fetch_add(1, SeqCst);
    }
}
/// Tasks that only make progress when woken, fed by racing threads: none may be left behind.
fn executor(c: &mut Case) {
    let n = 2 + c.rng.idx(3);
    let m = c.scale(6, 3);
    let shots: Vec<Arc<Shot<stabby::string::String>>> = (0..n * m).map(|_| Arc::new(Shot { slot: Mutex::new((None, None)) })).collect();
    struct Task { f: Std<u64>, st: Arc<TaskState>, w: Waker, done: bool, abandoned: bool }
    let mut tasks: Vec<Task> = vec![];
    for i in 0..n {
        let mine: Vec<_> = (0..m).map(|j| shots[j * n + i].clone()).collect();
        let nested = c.rng.bool();
        let body = async move {
            let mut sum = 0u64;
            for s in mine {
                let f: DynFuture<'static, stabby::string::String> = SBox::new(Wait(s)).into();
                let v = if nested {
                    let g: DynFutureUnsync<'static, stabby::string::String> = SBox::new(async move { f.await }).into();
                    g.await
                } else {
                    f.await
                };
                sum += v.parse::<u64>().unwrap();
            }
            sum
        };
        let st = Arc::new(TaskState { woken: AtomicUsize::new(1) });
        let w = Waker::from(st.clone());
        let d: DynFutureUnsync<'static, u64> = SBox::new(body).into();
        tasks.push(Task { f: std::boxed::Box::pin(d), st, w, done: false, abandoned: c.rng.chance(1, 8) });
    }
    let feeders = 1 + c.rng.idx(2);
    let gate = harness::conc::Gate::new();
    let finished = AtomicUsize::new(0);
    let (shots, gate, finished) = (&shots, &gate, &finished);
    let tasks = Mutex::new(tasks.drain(..).map(|t| SendIt(t)).collect::<Vec<_>>());
    struct SendIt<T>(T);
    // SAFETY: handed to one thread, and read again after it ended.
    unsafe impl<T> Send for SendIt<T> {}
    let tasks = &tasks;
    let mut bodies: Vec<std::boxed::Box<dyn FnOnce(&mut Tc) + Send + '_>> = vec![];
    for fi in 0..feeders {
        bodies.push(std::boxed::Box::new(move |t: &mut Tc| {
            gate.wait(0, t.n);
            let mut order: Vec<usize> = (0..shots.len()).filter(|i| i % feeders == fi).collect();
            for i in (1..order.len()).rev() { let j = t.rng.idx(i + 1); order.swap(i, j) }
            for i in order {
                t.jitter();
                let w = {
                    let mut s = shots[i].slot.lock().unwrap();
                    s.0 = Some(std::format!("{}", i + 1).into());
                    s.1.take()
                };
                t.ev(i as u64);
                if let Some(w) = w {
                    match t.rng.below(3) {
                        0 => w.wake(),
                        1 => w.wake_by_ref(),
                        _ => { let v = w.clone(); drop(w); v.wake() }
                    }
                }
            }
            finished.fetch_add(1, SeqCst);
        }));
    }
    bodies.push(std::boxed::Box::new(move |t: &mut Tc| {
        gate.wait(0, t.n);
        let mut tasks = tasks.lock().unwrap();
        loop {
            // read before the scan: a wake that came before the end of its feeder must be seen by this scan
            let last = finished.load(SeqCst) == feeders;
            let mut any = false;
            for (i, SendIt(task)) in tasks.iter_mut().enumerate() {
                if task.done || task.st.woken.swap(0, SeqCst) == 0 { continue }
                any = true;
                t.ev(i as u64);
                if task.abandoned && t.rng.chance(1, 3) {
                    task.f = std::boxed::Box::pin(async { 0 });
                    task.done = true;
                    continue;
                }
                match task.f.as_mut().poll(&mut Context::from_waker(&task.w)) {
                    Poll::Ready(v) => {
                        same!("output", v, (0..m as u64).map(|j| j * n as u64 + i as u64 + 1).sum::<u64>());
                        task.done = true;
                    }
                    Poll::Pending => {}
                }
            }
            if !any {
                if last { break }
                std::thread::yield_now();
            }
        }
        for (i, SendIt(task)) in tasks.iter().enumerate() {
            must!("lost-wakeup", task.done, "task {i} is pending although everything it waits for happened and no wake is left");
        }
    }));
    race(c, bodies);
    let mut tasks = tasks.lock().unwrap();
    for s in shots { s.slot.lock().unwrap().1 = None }
    for SendIt(task) in tasks.drain(..) {
        let Task { f, st, w, .. } = task;
        drop(f);
        drop(w);
        same!("waker-release", Arc::strong_count(&st), 1, "clones of a task's waker left after everything holding one is gone");
    }
    c.nontrivial = true;
}
fn main() {
    let groups: &[Group] = &[
        ("out-u8", 1, history::<u8>),
        ("out-unit", 1, history::<()>),
        ("out-u64", 1, history::<u64>),
        ("out-bool", 1, history::<bool>),
        ("out-nonzero", 1, history::<core::num::NonZeroU32>),
        ("out-tracked", 2, history::<Tracked>),
        ("out-string", 1, history::<stabby::string::String>),
        ("out-box", 2, history::<SBox<Tracked>>),
        ("out-vec", 1, history::<stabby::vec::Vec<u32>>),
        ("out-result", 1, history::<stabby::result::Result<Tracked, u8>>),
        ("out-option-box", 1, history::<stabby::option::Option<SBox<Tracked>>>),
        ("borrowed", 3, borrowed),
        ("maybe-resolved", 2, maybe_resolved),
        ("annotated", 1, annotated_fns),
        ("racing-wakers", 8, racing_wakers),
        ("executor", 8, executor),
    ];
    harness::run_suite(groups, &[]);
}
