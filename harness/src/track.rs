//! Uniquely identified values whose destruction is recorded (per thread).
use std::cell::{Cell, RefCell};
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dropped,
}
#[derive(Default)]
pub struct Ledger {
    pub st: Vec<u8>, // 1 live 2 dropped
    pub live: usize,
    pub drops: u64,
    pub made: u64,
}
thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
    static PANIC_DROP: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC_CLONE: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC_CMP: Cell<u64> = const { Cell::new(u64::MAX) };
    static EPOCH: Cell<u32> = const { Cell::new(1) };
    static POISONED: RefCell<Option<(String,String)>> = const { RefCell::new(None) };
}
/// Starts a fresh ledger; values of earlier ledgers must not be touched any more.
pub fn reset() {
    L.with(|l| *l.borrow_mut() = Ledger::default());
    EPOCH.with(|e| e.set(e.get().wrapping_add(1)));
    PANIC_DROP.with(|c| c.set(u64::MAX));
    PANIC_CLONE.with(|c| c.set(u64::MAX));
    PANIC_CMP.with(|c| c.set(u64::MAX));
    POISONED.with(|c| *c.borrow_mut() = None);
}
pub fn live() -> usize {
    L.with(|l| l.borrow().live)
}
pub fn drops() -> u64 {
    L.with(|l| l.borrow().drops)
}
pub fn made() -> u64 {
    L.with(|l| l.borrow().made)
}
pub fn is_live(id: u32) -> bool {
    L.with(|l| l.borrow().st.get(id as usize) == Some(&1))
}
/// A violation noted inside a destructor (where panicking is unwise) surfaces here.
pub fn check() {
    if let Some((s, m)) = POISONED.with(|c| c.borrow_mut().take()) {
        crate::runner::violation(&s, m)
    }
}
/// Checks that nothing tracked is alive.
pub fn assert_all_dropped(sig: &str) {
    check();
    let n = live();
    if n != 0 {
        let ids = L.with(|l| l.borrow().st.iter().enumerate().filter(|(_, s)| **s == 1).map(|(i, _)| i).take(10).collect::<Vec<_>>());
        crate::viol!(sig, "{n} value(s) never destroyed, ids {ids:?}")
    }
}
/// The n-th destructor call from now panics (after having recorded the destruction).
pub fn panic_on_drop(n: u64) {
    PANIC_DROP.with(|c| c.set(n))
}
pub fn panic_on_clone(n: u64) {
    PANIC_CLONE.with(|c| c.set(n))
}
pub fn panic_on_cmp(n: u64) {
    PANIC_CMP.with(|c| c.set(n))
}
pub fn disarm() {
    PANIC_DROP.with(|c| c.set(u64::MAX));
    PANIC_CLONE.with(|c| c.set(u64::MAX));
    PANIC_CMP.with(|c| c.set(u64::MAX));
}
fn tick(c: &'static std::thread::LocalKey<Cell<u64>>) -> bool {
    c.with(|c| {
        let v = c.get();
        if v == u64::MAX {
            return false;
        }
        if v == 0 {
            c.set(u64::MAX);
            return true;
        }
        c.set(v - 1);
        false
    })
}
/// Counts as one comparison call.
pub fn maybe_panic_cmp() {
    if tick(&PANIC_CMP) {
        panic!("injected comparison panic")
    }
}
fn issue() -> u32 {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.st.push(1);
        l.live += 1;
        l.made += 1;
        (l.st.len() - 1) as u32
    })
}
fn note_poison(sig: &str, msg: String) {
    println!("NOTE {sig}: {msg}");
    POISONED.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some((sig.to_string(), msg))
        }
    })
}
const MAGIC: u32 = 0x5AFE_B1BE;
/// The core of every tracked element.
#[stabby::stabby]
pub struct Token {
    pub id: u32,
    pub magic: u32,
    pub val: u32,
    pub epoch: u32,
}
impl Token {
    pub fn new(val: u32) -> Self {
        Token {
            id: issue(),
            magic: MAGIC,
            val,
            epoch: EPOCH.with(|e| e.get()),
        }
    }
    #[track_caller]
    pub fn touch(&self) -> u32 {
        if self.magic != MAGIC || self.epoch != EPOCH.with(|e| e.get()) {
            crate::viol!("garbage-value", "read a value that was never stored here: magic {:x} epoch {} val {}", self.magic, self.epoch, self.val)
        }
        if !is_live(self.id) {
            crate::viol!("use-after-drop", "value id {} (val {}) read after its destruction", self.id, self.val)
        }
        self.val
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        let v = self.touch();
        if tick(&PANIC_CLONE) {
            panic!("injected clone panic")
        }
        Token::new(v)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        if self.magic != MAGIC || self.epoch != EPOCH.with(|e| e.get()) {
            note_poison("garbage-drop", format!("destructor ran on memory that holds no live value: magic {:x} id {}", self.magic, self.id));
            return;
        }
        let ok = L.with(|l| {
            let mut l = l.borrow_mut();
            let i = self.id as usize;
            if l.st.get(i) != Some(&1) {
                return false;
            }
            l.st[i] = 2;
            l.live -= 1;
            l.drops += 1;
            true
        });
        if !ok {
            note_poison("double-drop", format!("value id {} (val {}) destroyed twice", self.id, self.val));
            return;
        }
        if !std::thread::panicking() && tick(&PANIC_DROP) {
            panic!("injected drop panic")
        }
    }
}
/// Element kinds the container suites are instantiated with.
pub trait Elem: Clone + Ord + core::fmt::Debug + core::hash::Hash + 'static {
    const NAME: &'static str;
    /// Every key maps to the same value for zero-sized types.
    const DISTINCT: bool = true;
    fn make(k: u32) -> Self;
    fn key(&self) -> u32;
    fn set(&mut self, k: u32) {
        *self = Self::make(k)
    }
}
macro_rules! prim {
    ($t:ty, $n:literal, $m:expr, $k:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $n;
            fn make(k: u32) -> Self {
                ($m)(k)
            }
            fn key(&self) -> u32 {
                ($k)(self)
            }
        }
    };
}
// keys are below 251 in every suite so that u8 can carry them
prim!(u8, "u8", |k| k as u8, |s: &u8| *s as u32);
prim!(u16, "u16", |k| (k as u16) * 257, |s: &u16| { assert_eq!(*s % 257, 0, "torn u16"); (*s / 257) as u32 });
prim!(u32, "u32", |k| k, |s: &u32| *s);
prim!(u64, "u64", |k| k as u64 * 0x0101_0101_0101_0101, |s: &u64| { if *s % 0x0101_0101_0101_0101 != 0 { crate::viol!("torn-value", "torn u64 {:x}", s) } (*s / 0x0101_0101_0101_0101) as u32 });
prim!(u128, "u128", |k| k as u128 * 0x0101_0101_0101_0101_0101_0101_0101_0101, |s: &u128| *s as u8 as u32);
prim!([u8; 3], "u8x3", |k| [k as u8; 3], |s: &[u8; 3]| { if s[0] != s[1] || s[1] != s[2] { crate::viol!("torn-value", "torn [u8;3] {:?}", s) } s[0] as u32 });
prim!(std::boxed::Box<u32>, "StdBox", |k| std::boxed::Box::new(k), |s: &std::boxed::Box<u32>| **s);
prim!(BoxElem, "Box", |k| BoxElem(stabby::boxed::Box::new_in(Tracked::make(k), crate::monalloc::MonAlloc::new())), |s: &BoxElem| s.0.key());
/// A stabby box (of a tracked value, in audited memory) as an element; only combine it with another allocator than MonAlloc.
#[stabby::stabby]
#[derive(Clone)]
pub struct BoxElem(pub stabby::boxed::Box<Tracked, crate::monalloc::MonAlloc>);
impl PartialEq for BoxElem { fn eq(&self, o: &Self) -> bool { *self.0 == *o.0 } }
impl Eq for BoxElem {}
impl PartialOrd for BoxElem { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for BoxElem { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&*o.0) } }
impl core::hash::Hash for BoxElem { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl core::fmt::Debug for BoxElem { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "#{}", self.0.key()) } }

macro_rules! tracked {
    ($(#[$a:meta])* $n:ident, $name:literal, $pad:ty, $p:expr, $check:expr) => {
        $(#[$a])*
        #[derive(Clone)]
        pub struct $n { pub t: Token, pub pad: $pad }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.cmp(o).is_eq() } }
        impl Eq for $n {}
        impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $n { fn cmp(&self, o: &Self) -> core::cmp::Ordering {
            if tick(&PANIC_CMP) { panic!("injected comparison panic") }
            self.key().cmp(&o.key()) } }
        impl core::hash::Hash for $n { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.key().hash(h) } }
        impl core::fmt::Debug for $n { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "#{}", self.key()) } }
        impl Elem for $n {
            const NAME: &'static str = $name;
            fn make(k: u32) -> Self { $n { t: Token::new(k), pad: ($p)(k) } }
            fn key(&self) -> u32 {
                let k = self.t.touch();
                if core::ptr::from_ref(self) as usize % core::mem::align_of::<Self>() != 0 {
                    crate::viol!("misaligned", "value of alignment {} found at {:p}", core::mem::align_of::<Self>(), self)
                }
                if !($check)(&self.pad, k) { crate::viol!("torn-value", "padding of value {} was overwritten", k) }
                k
            }
            fn set(&mut self, k: u32) { self.key(); self.t.val = k; self.pad = ($p)(k); }
        }
    };
}
tracked!(#[stabby::stabby] Tracked, "Tracked", (), |_| (), |_: &(), _| true);
tracked!(#[stabby::stabby] TrackedWide, "TrackedWide", u64, |k| (k as u64) << 32 | 0x77, |p: &u64, k| *p == ((k as u64) << 32 | 0x77));
tracked!(#[derive()] TrackedBig, "TrackedBig", [u8; 100], |k| [k as u8; 100], |p: &[u8; 100], k| p.iter().all(|b| *b == k as u8));
tracked!(#[repr(C, align(64))] TrackedAligned, "TrackedAligned64", [u8; 48], |k| [k as u8; 48], |p: &[u8; 48], k| p.iter().all(|b| *b == k as u8));
tracked!(#[repr(C, align(16))] TrackedAligned16, "TrackedAligned16", [u8; 16], |k| [k as u8; 16], |p: &[u8; 16], k| p.iter().all(|b| *b == k as u8));
// Zero-sized element with a destructor: only counts can be checked.
thread_local! { static ZST_LIVE: Cell<i64> = const { Cell::new(0) }; }
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Zst(());
impl Zst {
    pub fn live() -> i64 {
        ZST_LIVE.with(|c| c.get())
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::make(0)
    }
}
impl core::fmt::Debug for Zst {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "#0")
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_LIVE.with(|c| c.set(c.get() - 1))
    }
}
impl Elem for Zst {
    const NAME: &'static str = "Zst";
    const DISTINCT: bool = false;
    fn make(_: u32) -> Self {
        ZST_LIVE.with(|c| c.set(c.get() + 1));
        Zst(())
    }
    fn key(&self) -> u32 {
        0
    }
}
impl Elem for () {
    const NAME: &'static str = "unit";
    const DISTINCT: bool = false;
    fn make(_: u32) -> Self {}
    fn key(&self) -> u32 {
        0
    }
}
