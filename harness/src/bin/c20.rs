//! Thread-safety markers are never stronger than the contents allow.
//!
//! For every composed type, the compiler is asked whether the library calls it transferable or shareable;
//! where it does, a value of it is transferred or shared, and contents that must not be are watched for it.
#![recursion_limit = "512"]
#![allow(dead_code, clippy::type_complexity)]
use harness::{must, viol, Case, Group};
use stabby::alloc::{IAlloc, Layout};
use stabby::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby::dynptr;
use stabby::sync::{Arc as SArc, ArcSlice, Weak as SWeak, WeakSlice};
use std::any::Any;
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, AtomicU8, AtomicUsize, Ordering::Relaxed};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

// ------------------------------------------------------------------ the monitor
const RECS: usize = 512;
struct Rec {
    flavour: AtomicU8, // 1: transferable, 2: shareable
    home: AtomicU8,
    last: AtomicU8,     // the last thread that accessed it
    switches: AtomicU8, // how often that changed
    away: AtomicU8,     // whether another thread than its first accessed it
    altered: AtomicU8,  // whether another thread than its first accessed it exclusively
}
static REC: [Rec; RECS] = [const {
    Rec { flavour: AtomicU8::new(0), home: AtomicU8::new(0), last: AtomicU8::new(0), switches: AtomicU8::new(0), away: AtomicU8::new(0), altered: AtomicU8::new(0) }
}; RECS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static SEEN: AtomicU32 = AtomicU32::new(0);
thread_local! { static ME: Cell<u8> = const { Cell::new(0) }; }
fn me() -> u8 {
    ME.with(|m| m.get())
}
fn born(flavour: u8) -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    assert!(id < RECS, "harness: out of records");
    let r = &REC[id];
    r.flavour.store(flavour, Relaxed);
    r.home.store(me(), Relaxed);
    r.last.store(me(), Relaxed);
    r.switches.store(0, Relaxed);
    r.away.store(0, Relaxed);
    r.altered.store(0, Relaxed);
    id as u32
}
fn saw(id: u32) {
    SEEN.fetch_add(1, Relaxed);
    let r = &REC[id as usize];
    if r.last.swap(me(), Relaxed) != me() {
        r.switches.fetch_add(1, Relaxed);
    }
    if r.home.load(Relaxed) != me() {
        r.away.store(1, Relaxed)
    }
}
fn alters(id: u32) {
    saw(id);
    let r = &REC[id as usize];
    if r.home.load(Relaxed) != me() {
        r.altered.store(1, Relaxed)
    }
}
/// What happened to the values of this case that mustn't.
fn judge(what: &str, moved: bool) {
    for (id, r) in REC.iter().enumerate().take(NEXT.load(Relaxed)) {
        let (f, switches) = (r.flavour.load(Relaxed), r.switches.load(Relaxed));
        let away = r.away.load(Relaxed) != 0;
        if f == 0 && away {
            viol!("marker", "{what}: value {id}, which is neither transferable nor shareable, was accessed by another thread")
        }
        if f == 2 && r.altered.load(Relaxed) != 0 {
            viol!("marker", "{what}: value {id}, which isn't transferable, was altered or destroyed by another thread")
        }
        // A transferred value stays where it went.
        if f == 1 && switches > moved as u8 {
            viol!("marker", "{what}: value {id}, which isn't shareable, was accessed by two threads in turn ({switches} changes)")
        }
    }
}

// ------------------------------------------------------------------ contents of every kind
pub trait Pay: Clone + Ord + Default + 'static {
    const F: u8;
    const NAME: &'static str;
    fn see(&self);
    fn alter(&mut self);
}
macro_rules! pay { ($($n:ident $al:ident $f:literal;)*) => { $(
    #[stabby::stabby]
    pub struct $n { id: u32, not: *mut () }
    impl Default for $n { fn default() -> Self { $n { id: born($f), not: std::ptr::null_mut() } } }
    impl Clone for $n { fn clone(&self) -> Self { self.see(); Self::default() } }
    impl Drop for $n { fn drop(&mut self) { alters(self.id) } }
    impl Pay for $n {
        const F: u8 = $f;
        const NAME: &'static str = stringify!($n);
        fn see(&self) { saw(self.id) }
        fn alter(&mut self) { alters(self.id) }
    }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.cmp(o).is_eq() } }
    impl Eq for $n {}
    impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for $n { fn cmp(&self, o: &Self) -> std::cmp::Ordering { saw(self.id); saw(o.id); self.id.cmp(&o.id) } }
    impl Tr for $n {
        extern "C" fn look(&self) { saw(self.id) }
        extern "C" fn change(&mut self) { alters(self.id) }
    }
    impl Tr2 for $n { extern "C" fn look2(&self) { saw(self.id) } }
    impl std::future::Future for $n {
        type Output = ();
        fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
            alters(self.id);
            std::task::Poll::Pending
        }
    }
    impl Iterator for $n {
        type Item = u32;
        fn next(&mut self) -> Option<u32> {
            alters(self.id);
            None
        }
    }
    /// An allocator that must not be transferred or shared in the same way.
    #[stabby::stabby]
    pub struct $al { id: u32, not: *mut () }
    impl Default for $al { fn default() -> Self { $al { id: born($f), not: std::ptr::null_mut() } } }
    impl Clone for $al { fn clone(&self) -> Self { saw(self.id); Self::default() } }
    impl IAlloc for $al {
        fn alloc(&mut self, l: Layout) -> *mut () {
            alters(self.id);
            if l.size == 0 { return std::ptr::null_mut() }
            unsafe {
                let p = std::alloc::alloc(std::alloc::Layout::from_size_align(l.size + 64, 64).unwrap());
                p.cast::<usize>().write(l.size);
                p.add(64).cast()
            }
        }
        unsafe fn free(&mut self, p: *mut ()) {
            alters(self.id);
            let p = p.cast::<u8>().sub(64);
            let n = p.cast::<usize>().read();
            std::alloc::dealloc(p, std::alloc::Layout::from_size_align(n + 64, 64).unwrap())
        }
    }
)* } }
pay! { Both ABoth 3; OnlySend AOnlySend 1; OnlySync AOnlySync 2; Neither ANeither 0; }
unsafe impl Send for Both {}
unsafe impl Sync for Both {}
unsafe impl Send for OnlySend {}
unsafe impl Sync for OnlySync {}
unsafe impl Send for ABoth {}
unsafe impl Sync for ABoth {}
unsafe impl Send for AOnlySend {}
unsafe impl Sync for AOnlySync {}
#[stabby::stabby]
pub trait Tr {
    extern "C" fn look(&self);
    extern "C" fn change(&mut self);
}
#[stabby::stabby]
pub trait Tr2 {
    extern "C" fn look2(&self);
}
// declared with the macros
#[stabby::stabby]
pub struct Wrap<T> {
    a: u8,
    t: T,
}
#[stabby::stabby]
#[repr(stabby)]
pub enum Compact<T: stabby::IStable>
where
    T: stabby::abi::IDeterminantProvider<u8>,
{
    A(T),
    B(u8),
}
#[stabby::stabby]
#[repr(u8)]
pub enum Tagged<T> {
    A(T),
    B,
}
#[stabby::stabby]
pub union Un<T> {
    a: std::mem::ManuallyDrop<T>,
    b: u8,
}

// ------------------------------------------------------------------ what the library claims
struct Probe<T: ?Sized>(PhantomData<T>);
trait Unmarked {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T: ?Sized> Unmarked for Probe<T> {}
struct ProbeY<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Unmarked for ProbeY<T> {}
impl<T: ?Sized + Send> Probe<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: ?Sized + Sync> ProbeY<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! claims {
    ($t:ty) => {
        (Probe::<$t>(PhantomData).send(), ProbeY::<$t>(PhantomData).sync())
    };
}
/// Turns a value into a trait object if the library accepts it.
struct Conv<P, D>(PhantomData<(P, D)>);
impl<P: Into<D>, D> Conv<P, D> {
    fn conv(&self, p: P) -> Result<D, P> {
        Ok(p.into())
    }
}
trait NoConv<P, D> {
    fn conv(&self, p: P) -> Result<D, P>;
}
impl<P, D> NoConv<P, D> for Conv<P, D> {
    fn conv(&self, p: P) -> Result<D, P> {
        Err(p)
    }
}
/// Upcasts if there is such an upcast.
struct Up<A, B>(PhantomData<(A, B)>);
impl<A: stabby::abi::IntoSuperTrait<B>, B> Up<A, B> {
    fn up(&self, a: A) -> Result<B, A> {
        Ok(stabby::abi::IntoSuperTrait::into_super(a))
    }
}
trait NoUp<A, B> {
    fn up(&self, a: A) -> Result<B, A>;
}
impl<A, B> NoUp<A, B> for Up<A, B> {
    fn up(&self, a: A) -> Result<B, A> {
        Err(a)
    }
}

// ------------------------------------------------------------------ transfers
/// A further handle: called to use it, dropped to give it up.
type Handle = Box<dyn FnMut()>;
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn get(self) -> T {
        self.0
    }
}
struct Drive<T> {
    /// a value, and what it borrows from
    make: fn() -> (Box<dyn Any>, T),
    see: fn(&T),
    /// exclusive access
    alter: fn(&mut T),
    /// another handle on the same contents
    dup: Option<fn(&T) -> Handle>,
    /// what else can be done through a shared reference
    via: Option<fn(&T)>,
    /// what the value borrows from may go before it
    early: bool,
}
/// A helper thread with steps that alternate strictly with the main thread's.
fn with_helper<R: Send>(work: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        s.spawn(move || {
            ME.with(|m| m.set(1));
            work()
        })
        .join()
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}
fn transfer<T>(c: &mut Case, name: &str, d: &Drive<T>) {
    let (own, t) = (d.make)();
    let mut own = Some(own);
    let mut mine = d.dup.map(|f| f(&t));
    let t = Carry(t);
    let see = d.see;
    let t = with_helper(move || {
        let t = t.get();
        see(&t);
        Carry(t)
    });
    if let Some(h) = &mut mine {
        h()
    }
    let first = c.rng.bool();
    if first {
        mine = None;
        if d.early {
            own = None
        }
    }
    let (alter, quiet) = (d.alter, c.rng.bool());
    with_helper(move || {
        let mut t = t.get();
        if !quiet {
            see(&t);
            alter(&mut t)
        }
        drop(t)
    });
    if let Some(h) = &mut mine {
        h()
    }
    drop(mine);
    if d.early {
        own = None
    }
    // What it was borrowed from is whole again.
    judge(&format!("{name} moved to another thread"), true);
    drop(own);
}
fn share<T>(c: &mut Case, name: &str, d: &Drive<T>) {
    let (own, t) = (d.make)();
    let mut own = Some(own);
    let r = Carry(&t as *const T);
    let (see, dup, via) = (d.see, d.dup, d.via);
    let theirs = with_helper(move || {
        let t = unsafe { &*r.get() };
        see(t);
        if let Some(v) = via {
            v(t)
        }
        Carry(dup.map(|f| {
            let mut h = f(t);
            h();
            h
        }))
    });
    (d.see)(&t);
    let first = c.rng.bool();
    if first {
        if d.early {
            own = None
        }
        let mut t = t;
        if c.rng.bool() {
            (d.alter)(&mut t)
        }
        drop(t);
        with_helper(move || drop(theirs.get()));
    } else {
        with_helper(move || drop(theirs.get()));
        drop(t);
    }
    judge(&format!("{name} lent to another thread"), false);
    drop(own);
}
type Entry = (String, (bool, bool), Box<dyn Fn(&mut Case) + Sync + Send>);
fn entry<T: 'static>(name: String, claims: (bool, bool), d: Drive<T>) -> Entry {
    let n = name.clone();
    let d = Carry(d);
    (
        name,
        claims,
        Box::new(move |c| {
            let d = &d;
            let d = &d.0;
            NEXT.store(0, Relaxed);
            c.log(|| format!("{n} {claims:?}"));
            if claims.0 {
                transfer(c, &n, d);
            }
            NEXT.store(0, Relaxed);
            if claims.1 {
                share(c, &n, d);
            }
if claims.0 || claims.1 {
                c.ev(harness::fnv(n.as_bytes()) ^ (claims.0 as u64) << 1 ^ claims.1 as u64 ^ (SEEN.swap(0, Relaxed) as u64) << 2);
            }
        }),
    )
}
unsafe impl<T> Sync for Carry<T> {}
fn none() -> Box<dyn Any> {
    Box::new(())
}
/// One composed type for each kind of contents.  `P` and `A` stand for contents and allocator.
macro_rules! each {
    ($v:ident; $name:literal <$P:ident, $A:ident> $t:ty, make $make:expr, see $see:expr, alter $alter:expr $(, dup $dup:expr)? $(, via $via:expr)? $(, early $early:expr)?) => {
        each!(@one $v; $name; $P $A; Both ABoth; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
        each!(@one $v; $name; $P $A; OnlySend ABoth; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
        each!(@one $v; $name; $P $A; OnlySync ABoth; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
        each!(@one $v; $name; $P $A; Neither ABoth; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
    };
    // also for each kind of allocator
    ($v:ident; alloc $name:literal <$P:ident, $A:ident> $t:ty, make $make:expr, see $see:expr, alter $alter:expr $(, dup $dup:expr)? $(, via $via:expr)? $(, early $early:expr)?) => {
        each!($v; $name <$P, $A> $t, make $make, see $see, alter $alter $(, dup $dup)? $(, via $via)? $(, early $early)?);
        each!(@one $v; $name; $P $A; Both AOnlySend; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
        each!(@one $v; $name; $P $A; Both AOnlySync; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
        each!(@one $v; $name; $P $A; Both ANeither; $t, $make, $see, $alter, [$($dup)?], [$($via)?], [$($early)?]);
    };
    (@one $v:ident; $name:literal; $P:ident $A:ident; $p:ident $a:ident; $t:ty, $make:expr, $see:expr, $alter:expr, [$($dup:expr)?], [$($via:expr)?], [$($early:expr)?]) => {{
        #[allow(unused)]
        type $P = $p;
        #[allow(unused)]
        type $A = $a;
        #[allow(unused_mut, unused_assignments)]
        let mut dup: Option<fn(&$t) -> Handle> = None;
        $(dup = Some($dup);)?
        #[allow(unused_mut, unused_assignments)]
        let mut via: Option<fn(&$t)> = None;
        $(via = Some($via);)?
        #[allow(unused_mut, unused_assignments)]
        let mut early = false;
        $(early = $early;)?
        let d = Drive::<$t> { make: $make, see: $see, alter: $alter, dup, via, early };
        $v.push(entry(format!("{} of {} in {}", $name, stringify!($p), stringify!($a)), claims!($t), d));
    }};
}
fn owners() -> Vec<Entry> {
    let mut v = vec![];
    each!(v; "value" <P, A> P, make || (none(), P::default()), see |t| t.see(), alter |t| t.alter(), via |t| drop(t.clone()));
    each!(v; alloc "box" <P, A> SBox<P, A>, make || (none(), SBox::new_in(P::default(), A::default())), see |t| t.see(), alter |t| t.alter(), via |t| drop(t.clone()));
    each!(v; alloc "boxed slice" <P, A> BoxedSlice<P, A>, make || (none(), {
        let mut v = stabby::alloc::vec::Vec::<P, A>::new_in(A::default());
        v.push(P::default());
        v.into()
    }), see |t| t.as_slice()[0].see(), alter |t| t.as_slice_mut()[0].alter());
    each!(v; alloc "vec" <P, A> stabby::alloc::vec::Vec<P, A>, make || (none(), {
        let mut v = stabby::alloc::vec::Vec::new_in(A::default());
        v.push(P::default());
        v
    }), see |t| t[0].see(), alter |t| { t[0].alter(); t.push(P::default()) }, via |t| drop(t.clone()));
    each!(v; alloc "empty vec" <P, A> stabby::alloc::vec::Vec<P, A>, make || (none(), stabby::alloc::vec::Vec::new_in(A::default())), see |_| (), alter |t| t.push(P::default()), via |t| drop(t.clone()));
    each!(v; alloc "single or vec" <P, A> stabby::alloc::single_or_vec::SingleOrVec<P, A>, make || (none(), {
        let mut v = stabby::alloc::single_or_vec::SingleOrVec::new_in(A::default());
        v.push(P::default());
        v
    }), see |t| t[0].see(), alter |t| t.push(P::default()), via |t| drop(t.clone()));
    each!(v; alloc "string" <P, A> stabby::alloc::string::String<A>, make || (none(), {
        let mut s = stabby::alloc::string::String::new_in(A::default());
        s += "text";
        s
    }), see |t| assert!(!t.as_str().is_empty()), alter |t| *t += "more", via |t| drop(t.clone()));
    each!(v; alloc "boxed str" <P, A> BoxedStr<A>, make || (none(), {
        let mut s = stabby::alloc::string::String::new_in(A::default());
        s += "text";
        s.into()
    }), see |t| assert!(!t.as_str().is_empty()), alter |_| ());
    // shared owners
    each!(v; alloc "arc" <P, A> SArc<P, A>, make || (none(), SArc::new_in(P::default(), A::default())), see |t| t.see(), alter |t| if let Some(t) = SArc::get_mut(t) { t.alter() },
        dup |t| { let t = t.clone(); Box::new(move || t.see()) });
    each!(v; alloc "weak" <P, A> SWeak<P, A>, make || {
        let a = SArc::<P, A>::new_in(P::default(), A::default());
        let w = SArc::downgrade(&a);
        (Box::new(a), w)
    }, see |t| if let Some(t) = t.upgrade() { t.see() }, alter |_| (),
        dup |t| { let (w, t) = (t.clone(), t.upgrade()); Box::new(move || { if let Some(t) = &t { t.see() } let _ = w.upgrade(); }) }, early true);
    each!(v; alloc "arc slice" <P, A> ArcSlice<P, A>, make || (none(), {
        let mut v = stabby::alloc::vec::Vec::<P, A>::new_in(A::default());
        v.push(P::default());
        v.into()
    }), see |t| t.as_slice()[0].see(), alter |_| (), dup |t| { let t = t.clone(); Box::new(move || t.as_slice()[0].see()) });
    each!(v; alloc "weak slice" <P, A> WeakSlice<P, A>, make || {
        let mut v = stabby::alloc::vec::Vec::<P, A>::new_in(A::default());
        v.push(P::default());
        let a: ArcSlice<P, A> = v.into();
        let w = WeakSlice::from(&a);
        (Box::new(a), w)
    }, see |t| if let Some(t) = t.upgrade() { t.as_slice()[0].see() }, alter |_| (),
        dup |t| { let t = t.upgrade(); Box::new(move || if let Some(t) = &t { t.as_slice()[0].see() }) }, early true);
    each!(v; alloc "arc str" <P, A> stabby::alloc::string::ArcStr<A>, make || (none(), {
        let mut s = stabby::alloc::string::String::new_in(A::default());
        s += "text";
        s.into()
    }), see |t| assert!(!t.as_str().is_empty()), alter |_| (), dup |t| { let t = t.clone(); Box::new(move || assert!(!t.as_str().is_empty())) });
    each!(v; alloc "atomic arc" <P, A> stabby::abi::alloc::sync::AtomicArc<P, A>, make || (none(), stabby::abi::alloc::sync::AtomicArc::new(Some(SArc::new_in(P::default(), A::default())))),
        see |t| if let Some(t) = t.load(std::sync::atomic::Ordering::SeqCst) { t.see() }, alter |_| (),
        dup |t| { let t = t.load(std::sync::atomic::Ordering::SeqCst); Box::new(move || if let Some(t) = &t { t.see() }) });
    each!(v; alloc "arc set" <P, A> stabby::collections::arc_btree::ArcBTreeSet<P, A>, make || (none(), {
        let mut s = stabby::collections::arc_btree::ArcBTreeSet::<P, A>::new_in(A::default());
        s.insert(P::default());
        s
    }), see |t| drop(t.get(&P::default())), alter |t| drop(t.insert(P::default())), dup |t| { let t = t.clone(); Box::new(move || drop(t.get(&P::default()))) });
    each!(v; alloc "arc map" <P, A> stabby::collections::arc_btree::ArcBTreeMap<u8, P, A, 5>, make || (none(), {
        let mut s = stabby::collections::arc_btree::ArcBTreeMap::<_, _, A, 5>::new_in(Default::default());
        s.insert(1, P::default());
        s
    }), see |t| if let Some(p) = t.get(&1) { p.see() }, alter |t| drop(t.insert(2, P::default())), dup |t| { let t = t.clone(); Box::new(move || if let Some(p) = t.get(&1) { p.see() }) });
    each!(v; alloc "arc map's keys" <P, A> stabby::collections::arc_btree::ArcBTreeMap<P, u8, A, 5>, make || (none(), {
        let mut s = stabby::collections::arc_btree::ArcBTreeMap::<_, _, A, 5>::new_in(Default::default());
        s.insert(P::default(), 1);
        s
    }), see |t| drop(t.get(&P::default()).is_some()), alter |t| drop(t.insert(P::default(), 2)), dup |t| { let t = t.clone(); Box::new(move || drop(t.get(&P::default()).is_some())) });
    each!(v; "atomic set" <P, A> stabby::collections::arc_btree::AtomicArcBTreeSet<P, false, 5>, make || (none(), {
        let s = stabby::collections::arc_btree::AtomicArcBTreeSet::new();
        s.edit(|mut s| { s.insert(P::default()); s });
        s
    }), see |t| t.get(&P::default(), |t| if let Some(t) = t { t.see() }), alter |t| t.edit(|mut s| { s.insert(P::default()); s }),
        via |t| { t.edit(|mut s| { s.insert(P::default()); s }); });
    each!(v; alloc "weak str" <P, A> stabby::alloc::string::WeakStr<A>, make || {
        let mut s = stabby::alloc::string::String::new_in(A::default());
        s += "text";
        let a: stabby::alloc::string::ArcStr<A> = s.into();
        let w = stabby::alloc::string::WeakStr::from(&a);
        (Box::new(a), w)
    }, see |t| drop(t.upgrade().is_some()), alter |_| (),
        dup |t| { let t = t.upgrade(); Box::new(move || drop(t.is_some())) }, early true);
    v
}
/// Frees what was borrowed.
struct Own<T>(*mut T);
impl<T> Drop for Own<T> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) })
    }
}
fn lend<T: 'static, U>(t: T, f: impl FnOnce(&'static mut T) -> U) -> (Box<dyn Any>, U) {
    let r = Box::into_raw(Box::new(t));
    let u = f(unsafe { &mut *r });
    (Box::new(Own(r)), u)
}
fn stretch<T: ?Sized>(t: &T) -> &'static T {
    unsafe { &*(t as *const T) }
}
type SOption<T> = stabby::option::Option<T>;
type SResult<T, E> = stabby::result::Result<T, E>;
extern "C" fn checker<P: Pay>(_: &stabby::abi::report::TypeReport) -> Option<P> {
    Some(P::default())
}
extern "C" fn report() -> &'static stabby::abi::report::TypeReport {
    <u8 as stabby::IStable>::REPORT
}
extern "C" fn canary() {}
fn sums() -> Vec<Entry> {
    let mut v = vec![];
    each!(v; "option" <P, A> SOption<P>, make || (none(), SOption::Some(P::default())), see |t| t.match_ref(|t| t.see(), || ()), alter |t| t.match_mut(|mut t| t.alter(), || ()), via |t| drop(t.clone()));
    each!(v; "ok" <P, A> SResult<P, u8>, make || (none(), SResult::Ok(P::default())), see |t| t.match_ref(|t| t.see(), |_| ()), alter |t| t.match_mut(|mut t| t.alter(), |_| ()), via |t| drop(t.clone()));
    each!(v; "err" <P, A> SResult<u8, P>, make || (none(), SResult::Err(P::default())), see |t| t.match_ref(|_| (), |t| t.see()), alter |t| t.match_mut(|_| (), |mut t| t.alter()), via |t| drop(t.clone()));
    each!(v; "either" <P, A> SResult<SResult<u8, P>, P>, make || (none(), SResult::Ok(SResult::Err(P::default()))), see |t| t.match_ref(|t| t.match_ref(|_| (), |t| t.see()), |t| t.see()), alter |_| ());
    each!(v; alloc "optional box" <P, A> SOption<SBox<P, A>>, make || (none(), SOption::Some(SBox::new_in(P::default(), A::default()))), see |t| t.match_ref(|t| t.see(), || ()), alter |t| t.match_mut(|mut t| t.alter(), || ()), via |t| drop(t.clone()));
    each!(v; alloc "optional arc" <P, A> SOption<SArc<P, A>>, make || (none(), SOption::Some(SArc::new_in(P::default(), A::default()))), see |t| t.match_ref(|t| t.see(), || ()), alter |_| (),
        dup |t| { let t = t.clone(); Box::new(move || t.match_ref(|t| t.see(), || ())) });
    each!(v; "tuple" <P, A> stabby::abi::Tuple<u8, P>, make || (none(), stabby::abi::Tuple(1u8, P::default())), see |t| t.1.see(), alter |t| t.1.alter());
    each!(v; "struct" <P, A> Wrap<P>, make || (none(), Wrap { a: 1, t: P::default() }), see |t| t.t.see(), alter |t| t.t.alter());
    each!(v; "compact enum" <P, A> Compact<P>, make || (none(), Compact::A(P::default())), see |t| t.match_ref(|t| t.see(), |_| ()), alter |t| t.match_mut(|mut t| t.alter(), |_| ()));
    each!(v; "tagged enum" <P, A> Tagged<P>, make || (none(), Tagged::A(P::default())), see |t| if let Tagged::A(t) = t { t.see() }, alter |t| if let Tagged::A(t) = t { t.alter() });
    each!(v; "union" <P, A> Un<P>, make || (none(), Un { a: std::mem::ManuallyDrop::new(P::default()) }), see |t| unsafe { t.a.see() }, alter |t| unsafe { std::mem::ManuallyDrop::drop(&mut t.a) });
    each!(v; "stand-in" <P, A> stabby::abi::StableLike<P, P>, make || (none(), stabby::abi::StableLike::new(P::default())), see |t| t.as_ref().see(), alter |t| unsafe { t.as_mut_unchecked().alter() });
    each!(v; "import" <P, A> stabby::abi::checked_import::CheckedImport<P>, make || (none(), stabby::abi::checked_import::CheckedImport::new(checker::<P>, report, report())), see |t| t.see(), alter |_| ());
    each!(v; "canaried import" <P, A> stabby::abi::checked_import::CanariedImport<P>, make || (none(), stabby::abi::checked_import::CanariedImport::new(P::default(), canary)), see |t| t.see(), alter |_| ());
    v
}
fn borrows() -> Vec<Entry> {
    let mut v = vec![];
    each!(v; "slice" <P, A> stabby::slice::Slice<'static, P>, make || lend([P::default()], |t| stabby::slice::Slice::new(t)), see |t| t[0].see(), alter |_| (),
        dup |t| { let t = *t; Box::new(move || t[0].see()) });
    each!(v; "exclusive slice" <P, A> stabby::slice::SliceMut<'static, P>, make || lend([P::default()], |t| (&mut t[..]).into()), see |t| t[0].see(), alter |t| t[0].alter());
    each!(v; "draining" <P, A> stabby::abi::alloc::vec::Drain<'static, P, A>, make || {
        let mut v = stabby::alloc::vec::Vec::<P, A>::new_in(A::default());
        v.push(P::default());
        lend(v, |v| v.drain(..))
    }, see |_| (), alter |t| drop(t.next()));
    each!(v; "draining from both ends" <P, A> stabby::abi::alloc::vec::DoubleEndedDrain<'static, P, A>, make || {
        let mut v = stabby::alloc::vec::Vec::<P, A>::new_in(A::default());
        v.push(P::default());
        lend(v, |v| v.drain(..).double_ended())
    }, see |_| (), alter |t| drop(t.next_back()));
    each!(v; alloc "consuming" <P, A> stabby::abi::alloc::vec::IntoIter<P, A>, make || {
        let mut v = stabby::alloc::vec::Vec::<P, A>::new_in(A::default());
        v.push(P::default());
        (none(), v.into_iter())
    }, see |_| (), alter |t| drop(t.next()));
    each!(v; "ok guard" <P, A> stabby::result::OkGuard<'static, P, u8>, make || lend(SResult::<P, u8>::Ok(P::default()), |t| t.ok_mut().unwrap()), see |t| t.see(), alter |t| t.alter());
    each!(v; "err guard" <P, A> stabby::result::ErrGuard<'static, u8, P>, make || lend(SResult::<u8, P>::Err(P::default()), |t| t.err_mut().unwrap()), see |t| t.see(), alter |t| t.alter());
    each!(v; "single slice guard" <P, A> stabby::abi::alloc::single_or_vec::SliceGuardMut<'static, P, A>, make || {
        let mut v = stabby::alloc::single_or_vec::SingleOrVec::<P, A>::new_in(A::default());
        v.push(P::default());
        lend(v, |v| v.as_slice_mut())
    }, see |t| t[0].see(), alter |t| t[0].alter());
    each!(v; "slice guard" <P, A> stabby::abi::alloc::single_or_vec::SliceGuardMut<'static, P, A>, make || {
        let mut v = stabby::alloc::single_or_vec::SingleOrVec::<P, A>::new_in(A::default());
        v.push(P::default());
        v.push(P::default());
        lend(v, |v| v.as_slice_mut())
    }, see |t| t[1].see(), alter |t| t[1].alter());
    v
}

// ------------------------------------------------------------------ trait objects
fn conv<P, D>(_: &P) -> Conv<P, D> {
    Conv(PhantomData)
}
/// Every kind of contents that the library accepts as `$d`.
macro_rules! objects {
    ($v:ident; $name:literal <$P:ident> $d:ty, from $make:expr, see $see:expr, alter $alter:expr $(, dup $dup:expr)?) => {
        objects!(@one $v; $name $P Both; $d, $make, $see, $alter, [$($dup)?]);
        objects!(@one $v; $name $P OnlySend; $d, $make, $see, $alter, [$($dup)?]);
        objects!(@one $v; $name $P OnlySync; $d, $make, $see, $alter, [$($dup)?]);
        objects!(@one $v; $name $P Neither; $d, $make, $see, $alter, [$($dup)?]);
    };
    (@one $v:ident; $name:literal $P:ident $p:ident; $d:ty, $make:expr, $see:expr, $alter:expr, [$($dup:expr)?]) => {{
        type $P = $p;
        NEXT.store(0, Relaxed);
        let (own, p) = ($make)();
        let taken = conv::<_, $d>(&p).conv(p).is_ok();
        drop(own);
        if taken {
            #[allow(unused_mut, unused_assignments)]
            let mut dup: Option<fn(&$d) -> Handle> = None;
            $(dup = Some($dup);)?
            let d = Drive::<$d> {
                make: || {
                    let (own, p) = ($make)();
                    let c = conv::<_, $d>(&p);
                    (own, c.conv(p).ok().unwrap())
                },
                see: $see, alter: $alter, dup, via: None, early: false,
            };
            $v.push(entry(format!("{} of {} as {}", $name, stringify!($p), stringify!($d)), claims!($d), d));
        }
    }};
}
fn objects() -> Vec<Entry> {
    let mut v = vec![];
    macro_rules! marked {
        ($m:ident $($args:tt)*) => { $m!([] $($args)*); $m!([+ Send] $($args)*); $m!([+ Sync] $($args)*); $m!([+ Send + Sync] $($args)*); $m!([+ Sync + Send] $($args)*); };
    }
    macro_rules! boxed { ([$($m:tt)*]) => {
        objects!(v; "box" <P> dynptr!(SBox<dyn Tr $($m)*>), from || (none(), SBox::new(P::default())), see |t| t.look(), alter |t| t.change());
        objects!(v; "box" <P> dynptr!(SBox<dyn Tr + Tr2 $($m)*>), from || (none(), SBox::new(P::default())), see |t| t.look2(), alter |t| t.change());
    } }
    marked!(boxed);
    macro_rules! counted { ([$($m:tt)*]) => {
        objects!(v; "arc" <P> dynptr!(SArc<dyn Tr $($m)*>), from || (none(), SArc::new(P::default())), see |t| t.look(), alter |t| if let Some(mut t) = t.try_as_mut() { t.change() },
            dup |t| { let t = t.clone(); Box::new(move || t.look()) });
    } }
    marked!(counted);
    macro_rules! exclusive { ([$($m:tt)*]) => {
        objects!(v; "&mut" <P> stabby::abi::Dyn<'static, &'static mut (), stabby::vtable!(Tr $($m)*)>, from || lend(P::default(), |t| t), see |t| t.look(), alter |t| t.change());
    } }
    marked!(exclusive);
    macro_rules! shared { ([$($m:tt)*]) => {
        objects!(v; "&" <P> stabby::abi::DynRef<'static, stabby::vtable!(Tr $($m)*)>, from || lend(P::default(), |t| &*t), see |t| t.look(), alter |_| (), dup |t| { let t = *t; Box::new(move || t.look()) });
    } }
    marked!(shared);
    // weak owners are made from strong ones
    macro_rules! weak { ([$($m:tt)*]) => {
        weak!(@one Both $($m)*); weak!(@one OnlySend $($m)*); weak!(@one OnlySync $($m)*); weak!(@one Neither $($m)*);
    }; (@one $p:ident $($m:tt)*) => {{
        type D = dynptr!(SArc<dyn Tr $($m)*>);
        type W = dynptr!(SWeak<dyn Tr $($m)*>);
        NEXT.store(0, Relaxed);
        let a = SArc::new($p::default());
        if conv::<_, D>(&a).conv(a).is_ok() {
            let d = Drive::<W> {
                make: || {
                    let a = SArc::new($p::default());
                    let c = conv::<_, D>(&a);
                    let d: D = c.conv(a).ok().unwrap();
                    let w = W::from(stretch(&d));
                    (Box::new(d), w)
                },
                see: |t| if let Some(t) = Option::from(t.clone().upgrade()) { let t: D = t; t.look() },
                alter: |_| (),
                dup: Some(|t| { let t: Option<D> = t.clone().upgrade().into(); Box::new(move || if let Some(t) = &t { t.look() }) }),
                via: None,
                early: true,
            };
            v.push(entry(format!("weak of {} as {}", stringify!($p), stringify!(dyn Tr $($m)*)), claims!(W), d));
        }
    }} }
    marked!(weak);
    v
}
fn upcasts() -> Vec<Entry> {
    let mut v = vec![];
    macro_rules! cast {
        (@one $p:ident; $a:ty => $b:ty; $make:expr, $dup:expr) => {{
            type P = $p;
            NEXT.store(0, Relaxed);
            let (own, p): (Box<dyn Any>, _) = ($make)(P::default());
            if let Ok(a) = conv::<_, $a>(&p).conv(p) {
                let taken = Up::<$a, $b>(PhantomData).up(a).is_ok();
                drop(own);
                if taken {
                    let d = Drive::<$b> {
                        make: || {
                            let (own, p): (Box<dyn Any>, _) = ($make)(P::default());
                            let c = conv::<_, $a>(&p);
                            let a = c.conv(p).ok().unwrap();
                            (own, Up::<$a, $b>(PhantomData).up(a).ok().unwrap())
                        },
                        see: |t| t.look(), alter: |_| (), dup: $dup, via: None, early: false,
                    };
                    v.push(entry(format!("{} as {} as {}", stringify!($p), stringify!($a), stringify!($b)), claims!($b), d));
                }
            }
        }};
        (@from [$($a:tt)*] [$($b:tt)*]) => {
            cast!(@p Both [$($a)*] [$($b)*]);
            cast!(@p OnlySend [$($a)*] [$($b)*]);
            cast!(@p OnlySync [$($a)*] [$($b)*]);
            cast!(@p Neither [$($a)*] [$($b)*]);
        };
        (@p $p:ident [$($a:tt)*] [$($b:tt)*]) => {
            cast!(@one $p; dynptr!(SBox<dyn Tr $($a)*>) => dynptr!(SBox<dyn Tr $($b)*>); |p: P| (none(), SBox::new(p)), None);
            cast!(@one $p; stabby::abi::DynRef<'static, stabby::vtable!(Tr $($a)*)> => stabby::abi::DynRef<'static, stabby::vtable!(Tr $($b)*)>; |p: P| lend(p, |p| &*p), Some(|t| { let t = *t; Box::new(move || t.look()) }));
        };
        ($($a:tt)*) => {
            cast!(@from [$($a)*] []); cast!(@from [$($a)*] [+ Send]); cast!(@from [$($a)*] [+ Sync]); cast!(@from [$($a)*] [+ Send + Sync]); cast!(@from [$($a)*] [+ Sync + Send]);
        };
    }
    macro_rules! both { ($($a:tt)*) => { cast!($($a)*); cast!(+ Tr2 $($a)*); } }
    both!();
    both!(+ Send);
    both!(+ Sync);
    both!(+ Send + Sync);
    both!(+ Sync + Send);
    v
}
fn seer<P: Pay>() -> impl Fn() {
    let p = P::default();
    move || p.see()
}
fn alterer<P: Pay>() -> impl FnMut() {
    let mut p = P::default();
    move || p.alter()
}
fn dropper<P: Pay>() -> impl FnOnce() {
    let p = P::default();
    move || drop(p)
}
fn callables() -> Vec<Entry> {
    use stabby::abi::closure::*;
    let mut v = vec![];
    macro_rules! marked {
        ($m:ident) => { $m!([]); $m!([+ Send]); $m!([+ Sync]); $m!([+ Send + Sync]); };
    }
    macro_rules! f { ([$($m:tt)*]) => {
        objects!(v; "closure" <P> dynptr!(SBox<dyn Fn() -> () $($m)*>), from || (none(), SBox::new(seer::<P>())), see |t| t.call(), alter |_| ());
        objects!(v; "closure" <P> dynptr!(SArc<dyn Fn() -> () $($m)*>), from || (none(), SArc::new(seer::<P>())), see |t| t.call(), alter |_| (), dup |t| { let t = t.clone(); Box::new(move || t.call()) });
        objects!(v; "closure" <P> dynptr!(SBox<dyn FnMut() -> () $($m)*>), from || (none(), SBox::new(alterer::<P>())), see |_| (), alter |t| t.call_mut());
        objects!(v; "closure" <P> dynptr!(SBox<dyn FnOnce() -> () $($m)*>), from || (none(), SBox::new(dropper::<P>())), see |_| (), alter |_| ());
        objects!(v; "iterator" <P> dynptr!(SBox<dyn stabby::abi::iter::Iterator<Item = u32> $($m)*>), from || (none(), SBox::new(P::default())), see |_| (), alter |t| drop(stabby::abi::iter::IteratorDynMut::next(t)));
        objects!(v; "future" <P> dynptr!(SBox<dyn stabby::future::Future<Output = ()> $($m)*>), from || (none(), SBox::new(P::default())), see |_| (), alter |t| poll(t));
    } }
    marked!(f);
    objects!(v; "future" <P> stabby::future::DynFuture<'static, ()>, from || (none(), SBox::new(P::default())), see |_| (), alter |t| poll(t));
    objects!(v; "future" <P> stabby::future::DynFutureUnsync<'static, ()>, from || (none(), SBox::new(P::default())), see |_| (), alter |t| poll(t));
    objects!(v; "future" <P> stabby::future::DynFutureUnsend<'static, ()>, from || (none(), SBox::new(P::default())), see |_| (), alter |t| poll(t));
    v
}
fn poll(f: &mut (impl std::future::Future<Output = ()> + Unpin)) {
    let _ = std::pin::Pin::new(f).poll(&mut std::task::Context::from_waker(std::task::Waker::noop()));
}
fn main() {
    must!("harness", claims!(Box<Both>) == (true, true));
    must!("harness", claims!(Box<Neither>) == (false, false));
    must!("harness", claims!(std::rc::Rc<Both>) == (false, false));
    must!("harness", claims!(Box<OnlySend>) == (true, false) && claims!(Box<OnlySync>) == (false, true));
    macro_rules! group {
        ($n:ident) => {
            (stringify!($n), 1, |c| {
                static T: std::sync::OnceLock<Vec<Entry>> = std::sync::OnceLock::new();
                let t = T.get_or_init($n);
                (t[c.idx as usize % t.len()].2)(c)
            })
        };
    }
    let groups: &[Group] = &[group!(owners), group!(sums), group!(borrows), group!(objects), group!(upcasts), group!(callables)];
    harness::run_suite(groups, &[]);
}
