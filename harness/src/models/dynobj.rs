//! Histories over trait objects: every method of every concrete type records the call
//! (type, address, method, arguments); the driver knows which record each call must leave.
use super::AllocKind;
use crate::monalloc::{self, FatMon, MonAlloc};
use crate::track::{self, Elem, Token, Tracked};
use crate::{expect_panic, fnv, mix, must, same, viol, Case};
use core::hash::{Hash, Hasher};
use stabby::alloc::allocators::RustAlloc;
use stabby::boxed::Box as SBox;
use stabby::sync::{Arc, Weak};
use stabby_abi::vtable::{HasDropVt, IConstConstructor, TransitiveDeref};
use stabby_abi::{Dyn, DynRef, IPtr, IPtrMut, IPtrOwned};
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- call records
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Rec {
    k: u64,
    addr: usize,
    m: u32,
    arg: u64,
}
thread_local! { static LOG: RefCell<std::vec::Vec<Rec>> = const { RefCell::new(std::vec::Vec::new()) }; }
fn rec<T: Conc>(this: &T, m: u32, arg: u64) -> u64 {
    this.touch();
    LOG.with(|l| l.borrow_mut().push(Rec { k: T::K, addr: this as *const T as usize, m, arg }));
    answer(T::K, m, arg, this.st())
}
/// What method `m` of type `k` answers in state `st`.
fn answer(k: u64, m: u32, arg: u64, st: u64) -> u64 {
    mix(mix(mix(k, m as u64), arg), st)
}
/// Checks that the calls since the last check were exactly one call of `m` on the modelled object.
#[track_caller]
fn one_call(m: &Model, id: u32, arg: u64) {
    let l = LOG.with(|l| core::mem::take(&mut *l.borrow_mut()));
    if l.len() != 1 {
        viol!("dispatch-count", "one call of method {id} ran {} implementations: {l:?}", l.len())
    }
    let want = Rec { k: KS[m.k], addr: m.addr, m: id, arg };
    if l[0].k != want.k { viol!("dispatch-type", "the implementation of another type ran: {:?}, want {want:?}", l[0]) }
    if l[0].m != want.m { viol!("dispatch-method", "another method ran: {:?}, want {want:?}", l[0]) }
    if l[0].addr != want.addr { viol!("dispatch-value", "the method ran on another value: {:?}, want {want:?}", l[0]) }
    if l[0].arg != want.arg { viol!("dispatch-args", "the method received other arguments: {:?}, want {want:?}", l[0]) }
}
pub struct Model {
    k: usize,
    key: u32,
    state: u64,
    addr: usize,
    strong: usize,
    weak: usize,
}
impl Model {
    fn ans(&self, m: u32, arg: u64) -> u64 {
        answer(KS[self.k], m, arg, self.state)
    }
}

// ---------------------------------------------------------------- concrete types
pub trait Conc: Sized + 'static {
    const K: u64;
    fn make(key: u32, st: u64) -> Self;
    fn st(&self) -> u64;
    fn stm(&mut self) -> &mut u64;
    fn key(&self) -> u32;
    fn touch(&self);
}
macro_rules! concs {
    ($($i:literal $k:literal $(#[$a:meta])* $n:ident { $($f:ident : $t:ty = $e:expr),* })*) => {
        $(
            $(#[$a])*
            #[stabby::stabby]
            pub struct $n { $(pub $f: $t,)* }
            impl Conc for $n {
                const K: u64 = $k;
                fn make(key: u32, st: u64) -> Self {
                    let mut this = $n { $($f: ($e)(key),)* };
                    this.s = st;
                    this
                }
                fn st(&self) -> u64 { self.s }
                fn stm(&mut self) -> &mut u64 { &mut self.s }
                fn key(&self) -> u32 { self.t.key() }
                fn touch(&self) { self.t.key(); $(let _: &$t = &self.$f;)* }
            }
        )*
    };
}
concs! {
    0 0xA0 T0 { s: u64 = |_| 0, t: Tracked = <Tracked as Elem>::make }
    1 0xB1 T1 { t: Tracked = <Tracked as Elem>::make, pad: [u64; 9] = |k| [k as u64; 9], s: u64 = |_| 0 }
    2 0xC2 T2 { t: track::TrackedWide = <track::TrackedWide as Elem>::make, s: u64 = |_| 0 }
}
/// Two instances of one generic type must not be confused.
#[stabby::stabby]
pub struct W<X> {
    pub x: X,
    pub t: Tracked,
    pub s: u64,
}
impl<X: Default + Copy + 'static> Conc for W<X> {
    const K: u64 = 0xD0 + core::mem::size_of::<X>() as u64;
    fn make(key: u32, st: u64) -> Self {
        W { x: X::default(), t: <Tracked as Elem>::make(key), s: st }
    }
    fn st(&self) -> u64 { self.s }
    fn stm(&mut self) -> &mut u64 { &mut self.s }
    fn key(&self) -> u32 { self.t.key() }
    fn touch(&self) { self.t.key(); }
}
/// A bare primitive: nothing to drop, no tracking.
impl Conc for u64 {
    const K: u64 = 0xE5;
    fn make(_: u32, st: u64) -> Self { st }
    fn st(&self) -> u64 { *self }
    fn stm(&mut self) -> &mut u64 { self }
    fn key(&self) -> u32 { 0 }
    fn touch(&self) {}
}
pub const NK: usize = 6;
const KS: [u64; NK] = [T0::K, T1::K, T2::K, W::<u8>::K, W::<u32>::K, u64::K];
macro_rules! with_k {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = T0; $e }
            1 => { type $t = T1; $e }
            2 => { type $t = T2; $e }
            3 => { type $t = W<u8>; $e }
            4 => { type $t = W<u32>; $e }
            _ => { type $t = u64; $e }
        }
    };
}
pub trait AllConc<'a>: IConstConstructor<'a, T0> + IConstConstructor<'a, T1> + IConstConstructor<'a, T2> + IConstConstructor<'a, W<u8>> + IConstConstructor<'a, W<u32>> + IConstConstructor<'a, u64> {}
impl<'a, V: IConstConstructor<'a, T0> + IConstConstructor<'a, T1> + IConstConstructor<'a, T2> + IConstConstructor<'a, W<u8>> + IConstConstructor<'a, W<u32>> + IConstConstructor<'a, u64>> AllConc<'a> for V {}

// ---------------------------------------------------------------- traits
#[stabby::stabby]
pub trait A {
    extern "C" fn a(&self, x: u64) -> u64;
    extern "C" fn a_set(&mut self, x: u64) -> u64;
}
impl<T: Conc> A for T {
    extern "C" fn a(&self, x: u64) -> u64 { rec(self, 1, x) }
    extern "C" fn a_set(&mut self, x: u64) -> u64 {
        let r = rec(self, 2, x);
        *self.stm() = x;
        r
    }
}
fn call_a<N, D: ADyn<N>>(c: &mut Case, d: &D, m: &Model) {
    let x = c.rng.next();
    let r = d.a(x);
    one_call(m, 1, x);
    same!("result", r, m.ans(1, x));
}
fn mut_a<N, D: ADynMut<N>>(c: &mut Case, d: &mut D, m: &mut Model) {
    let x = c.rng.next();
    let r = d.a_set(x);
    one_call(m, 2, x);
    same!("result", r, m.ans(2, x));
    m.state = x;
}
/// Same method name as in `A`.
#[stabby::stabby]
pub trait A2 {
    extern "C" fn a(&self, x: u64) -> u64;
    extern "C" fn only2(&self) -> u8;
}
impl<T: Conc> A2 for T {
    extern "C" fn a(&self, x: u64) -> u64 { rec(self, 3, x) }
    extern "C" fn only2(&self) -> u8 { rec(self, 4, 0) as u8 }
}
fn call_a2<N, D: A2Dyn<N>>(c: &mut Case, d: &D, m: &Model) {
    let x = c.rng.next();
    let r = d.a(x);
    one_call(m, 3, x);
    same!("result", r, m.ans(3, x));
    let r = d.only2();
    one_call(m, 4, 0);
    same!("result", r, m.ans(4, 0) as u8);
}
#[stabby::stabby]
pub trait B {
    extern "C" fn b<'a>(&'a self, with: &'a u64, own: bool) -> &'a u64;
    extern "C" fn b_own(&self) -> &u64;
    extern "C" fn b_mut<'a>(&'a mut self) -> &'a mut u64;
}
static OWN: [u64; NK] = [10, 11, 12, 13, 14, 15];
impl<T: Conc> B for T {
    extern "C" fn b<'a>(&'a self, with: &'a u64, own: bool) -> &'a u64 {
        rec(self, 5, *with);
        if own { &OWN[KS.iter().position(|k| *k == T::K).unwrap()] } else { with }
    }
    extern "C" fn b_own(&self) -> &u64 {
        rec(self, 6, 0);
        &OWN[KS.iter().position(|k| *k == T::K).unwrap()]
    }
    extern "C" fn b_mut<'a>(&'a mut self) -> &'a mut u64 {
        rec(self, 7, 0);
        self.stm()
    }
}
fn call_b<N, D: BDyn<N>>(c: &mut Case, d: &D, m: &Model) {
    let x = c.rng.next();
    let own = c.rng.bool();
    let r = d.b(&x, own);
    one_call(m, 5, x);
    must!("returned-reference", core::ptr::eq(r, if own { &OWN[m.k] } else { &x }), "method b returned a reference to something else");
    let r = d.b_own();
    one_call(m, 6, 0);
    must!("returned-reference", core::ptr::eq(r, &OWN[m.k]), "method b_own returned a reference to something else");
}
fn mut_b<N, D: BDynMut<N>>(c: &mut Case, d: &mut D, m: &mut Model) {
    let r = d.b_mut();
    one_call(m, 7, 0);
    same!("state", *r, m.state);
    m.state = c.rng.next();
    *r = m.state;
}
pub trait Arg: Sized {
    type O;
    fn arg(c: &mut Case) -> Self;
    fn h(&self) -> u64;
    fn out(self, r: u64) -> Self::O;
    fn oh(o: &Self::O) -> u64;
    /// hash of what `out` gives for the argument with hash `h`
    fn expect(h: u64, r: u64) -> u64;
}
impl Arg for u32 {
    type O = u64;
    fn arg(c: &mut Case) -> Self { c.rng.next() as u32 }
    fn h(&self) -> u64 { *self as u64 }
    fn out(self, r: u64) -> u64 { r ^ self as u64 }
    fn oh(o: &u64) -> u64 { *o }
    fn expect(h: u64, r: u64) -> u64 { r ^ h }
}
impl Arg for Tracked {
    type O = stabby::result::Result<Tracked, u8>;
    fn arg(c: &mut Case) -> Self { <Tracked as Elem>::make(c.rng.below(200) as u32) }
    fn h(&self) -> u64 { self.key() as u64 }
    fn out(self, r: u64) -> Self::O {
        if r & 1 == 0 { stabby::result::Result::Ok(self) } else { stabby::result::Result::Err(r as u8) }
    }
    fn oh(o: &Self::O) -> u64 { o.match_ref(|t| t.key() as u64, |e| 1000 + *e as u64) }
    fn expect(h: u64, r: u64) -> u64 { if r & 1 == 0 { h } else { 1000 + (r as u8) as u64 } }
}
#[stabby::stabby]
pub trait G<X> {
    type Out;
    extern "C" fn g(&self, t: X) -> Self::Out;
    extern "C" fn g_mut(&mut self, o: Self::Out, t: X) -> Self::Out;
}
impl<T: Conc, X: Arg> G<X> for T {
    type Out = X::O;
    extern "C" fn g(&self, t: X) -> X::O {
        let r = rec(self, 8, t.h());
        t.out(r)
    }
    extern "C" fn g_mut(&mut self, o: X::O, t: X) -> X::O {
        let r = rec(self, 9, mix(X::oh(&o), t.h()));
        *self.stm() = r;
        t.out(r)
    }
}
fn call_g<X: Arg, N, D: GDyn<N, X::O, X, Out = X::O>>(c: &mut Case, d: &D, m: &Model) {
    let x = X::arg(c);
    let h = x.h();
    let r = d.g(x);
    one_call(m, 8, h);
    same!("result", X::oh(&r), X::expect(h, m.ans(8, h)));
}
fn mut_g<X: Arg, N, D: GDynMut<N, X::O, X, Out = X::O>>(c: &mut Case, d: &mut D, m: &mut Model) {
    let x = X::arg(c);
    let h = x.h();
    let o = X::arg(c).out(c.rng.next());
    let oh = X::oh(&o);
    let r = d.g_mut(o, x);
    one_call(m, 9, mix(oh, h));
    same!("result", X::oh(&r), X::expect(h, m.ans(9, mix(oh, h))));
    m.state = m.ans(9, mix(oh, h));
}
#[stabby::stabby]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Big {
    pub a: u64,
    pub b: f64,
    pub c: [u8; 5],
    pub d: u16,
    pub e: u64,
}
impl Big {
    fn make(c: &mut Case) -> Big {
        Big { a: c.rng.next(), b: c.rng.next() as f64, c: [c.rng.next() as u8; 5], d: c.rng.next() as u16, e: c.rng.next() }
    }
    fn h(&self) -> u64 {
        mix(mix(mix(mix(self.a, self.b.to_bits()), fnv(&self.c)), self.d as u64), self.e)
    }
}
type DynA = Dyn<'static, SBox<(), MonAlloc>, stabby::vtable!(A)>;
#[stabby::stabby]
pub trait Many {
    extern "C" fn m_prims(&self, a: u8, b: i8, c: u16, d: i64, e: f32, f: f64, g: bool, h: u128) -> u64;
    extern "C" fn m_big(&self, b: Big) -> Big;
    extern "C" fn m_opt(&mut self, o: stabby::option::Option<Tracked>) -> stabby::option::Option<Tracked>;
    extern "C" fn m_str<'a>(&self, s: stabby::str::Str<'a>, t: stabby::slice::Slice<'a, u32>) -> stabby::str::Str<'a>;
    extern "C" fn m_vec(&mut self, v: stabby::vec::Vec<Tracked>) -> stabby::vec::Vec<Tracked>;
    extern "C" fn m_unit(&self);
    extern "C" fn m_fn(&self, f: extern "C" fn(u64) -> u64, x: u64) -> u64;
    unsafe extern "C" fn m_unsafe(&self, p: *const u64) -> u64;
    extern "system" fn m_sys(&self, x: u8) -> u16;
    extern "C-unwind" fn m_unw(&mut self, x: u64) -> u64;
    extern "C" fn m_arr(&self, a: [u8; 7], n: u8) -> [u8; 7];
    extern "C" fn m_slice_mut<'a>(&self, s: stabby::slice::SliceMut<'a, u32>);
    extern "C" fn m_dyn(&mut self, d: DynA) -> DynA;
    extern "C" fn m_mutref<'a>(&self, x: &'a mut u64, y: &mut u8);
}
extern "C" fn thrice(x: u64) -> u64 { x.wrapping_mul(3) }
extern "C" fn plus7(x: u64) -> u64 { x.wrapping_add(7) }
#[allow(clippy::too_many_arguments)]
fn prims(a: u8, b: i8, c: u16, d: i64, e: f32, f: f64, g: bool, h: u128) -> u64 {
    [a as u64, b as u64, c as u64, d as u64, e.to_bits() as u64, f.to_bits(), g as u64, h as u64, (h >> 64) as u64].iter().fold(1, |x, y| mix(x, *y))
}
fn opt_h(o: &stabby::option::Option<Tracked>) -> u64 { o.match_ref(|t| t.key() as u64, || 999) }
impl<T: Conc> Many for T {
    extern "C" fn m_prims(&self, a: u8, b: i8, c: u16, d: i64, e: f32, f: f64, g: bool, h: u128) -> u64 {
        rec(self, 10, prims(a, b, c, d, e, f, g, h))
    }
    extern "C" fn m_big(&self, b: Big) -> Big {
        let r = rec(self, 11, b.h());
        Big { a: b.e, b: b.b, c: b.c, d: !b.d, e: r }
    }
    extern "C" fn m_opt(&mut self, o: stabby::option::Option<Tracked>) -> stabby::option::Option<Tracked> {
        let r = rec(self, 12, opt_h(&o));
        *self.stm() = r;
        match Option::from(o) {
            Some(_) if r & 1 == 0 => stabby::option::Option::None(),
            Some(t) => stabby::option::Option::Some(t),
            None => stabby::option::Option::Some(<Tracked as Elem>::make(r as u8 as u32)),
        }
    }
    extern "C" fn m_str<'a>(&self, s: stabby::str::Str<'a>, t: stabby::slice::Slice<'a, u32>) -> stabby::str::Str<'a> {
        rec(self, 13, t.iter().fold(fnv(s.as_bytes()), |h, x| mix(h, *x as u64)));
        let i = s.char_indices().nth(1).map_or(s.len(), |x| x.0);
        let s: &'a str = s.into();
        s[i..].into()
    }
    extern "C" fn m_vec(&mut self, v: stabby::vec::Vec<Tracked>) -> stabby::vec::Vec<Tracked> {
        rec(self, 14, v.iter().fold(7, |h, x| mix(h, x.key() as u64)));
        { let mut v: std::vec::Vec<Tracked> = v.into_iter().collect(); v.reverse(); v.into_iter().collect() }
    }
    extern "C" fn m_unit(&self) { rec(self, 15, 0); }
    extern "C" fn m_fn(&self, f: extern "C" fn(u64) -> u64, x: u64) -> u64 { let r = rec(self, 16, x); f(r) }
    unsafe extern "C" fn m_unsafe(&self, p: *const u64) -> u64 { rec(self, 17, *p) }
    extern "system" fn m_sys(&self, x: u8) -> u16 { rec(self, 18, x as u64) as u16 }
    extern "C-unwind" fn m_unw(&mut self, x: u64) -> u64 {
        let r = rec(self, 19, x);
        *self.stm() = x;
        if x & 1 == 1 { panic!("method panic") }
        r
    }
    extern "C" fn m_arr(&self, mut a: [u8; 7], n: u8) -> [u8; 7] {
        rec(self, 20, fnv(&a) ^ n as u64);
        a.rotate_left(n as usize % 7);
        a
    }
    extern "C" fn m_slice_mut<'a>(&self, mut s: stabby::slice::SliceMut<'a, u32>) {
        rec(self, 21, s.len() as u64);
        for x in s.iter_mut() { *x = x.wrapping_add(T::K as u32) }
    }
    extern "C" fn m_dyn(&mut self, d: DynA) -> DynA {
        // nested dispatch on the argument; removed from the record and folded into ours
        let r = d.a(5);
        let inner = LOG.with(|l| l.borrow_mut().pop()).expect("the nested call ran nothing");
        rec(self, 22, mix(r, inner.k));
        d
    }
    extern "C" fn m_mutref<'a>(&self, x: &'a mut u64, y: &mut u8) {
        *x = rec(self, 23, *x ^ *y as u64);
        *y = y.wrapping_add(1);
    }
}
fn call_many<N, D: ManyDyn<N>>(c: &mut Case, d: &D, m: &Model) {
    match c.rng.below(10) {
        0 | 1 => {
            let (a, b, cc, dd, e, f, g, h) = (c.rng.next() as u8, c.rng.next() as i8, c.rng.next() as u16, c.rng.next() as i64, c.rng.next() as f32, c.rng.next() as f64, c.rng.bool(), (c.rng.next() as u128) << 64 | c.rng.next() as u128);
            let r = d.m_prims(a, b, cc, dd, e, f, g, h);
            let arg = prims(a, b, cc, dd, e, f, g, h);
            one_call(m, 10, arg);
            same!("result", r, m.ans(10, arg));
        }
        2 => {
            let b = Big::make(c);
            let r = d.m_big(b);
            one_call(m, 11, b.h());
            same!("result", r, Big { a: b.e, b: b.b, c: b.c, d: !b.d, e: m.ans(11, b.h()) });
        }
        3 => {
            let s = ["", "a", "éàü", "🦀 crab", "plain text"][c.rng.below(5) as usize];
            let t: std::vec::Vec<u32> = (0..c.rng.below(5)).map(|_| c.rng.next() as u32).collect();
            let r = d.m_str(s.into(), t.as_slice().into());
            one_call(m, 13, t.iter().fold(fnv(s.as_bytes()), |h, x| mix(h, *x as u64)));
            let i = s.char_indices().nth(1).map_or(s.len(), |x| x.0);
            must!("returned-reference", core::ptr::eq::<str>(&*r, &s[i..]) || s[i..].is_empty() && r.is_empty(), "method m_str returned {:?}", &*r);
        }
        4 => {
            d.m_unit();
            one_call(m, 15, 0);
        }
        5 => {
            let x = c.rng.next();
            let f = if c.rng.bool() { thrice as extern "C" fn(u64) -> u64 } else { plus7 };
            let r = d.m_fn(f, x);
            one_call(m, 16, x);
            same!("result", r, f(m.ans(16, x)));
        }
        6 => {
            let x = c.rng.next();
            let r = unsafe { d.m_unsafe(&x) };
            one_call(m, 17, x);
            same!("result", r, m.ans(17, x));
            let r = d.m_sys(x as u8);
            one_call(m, 18, x as u8 as u64);
            same!("result", r, m.ans(18, x as u8 as u64) as u16);
        }
        7 => {
            let mut a = [0u8; 7];
            a.iter_mut().for_each(|x| *x = c.rng.next() as u8);
            let n = c.rng.next() as u8;
            let r = d.m_arr(a, n);
            one_call(m, 20, fnv(&a) ^ n as u64);
            a.rotate_left(n as usize % 7);
            same!("result", r, a);
        }
        8 => {
            let mut t: std::vec::Vec<u32> = (0..c.rng.below(6)).map(|_| c.rng.next() as u32).collect();
            let want: std::vec::Vec<u32> = t.iter().map(|x| x.wrapping_add(KS[m.k] as u32)).collect();
            d.m_slice_mut(t.as_mut_slice().into());
            one_call(m, 21, t.len() as u64);
            same!("result", t, want);
        }
        _ => {
            let (x0, y0) = (c.rng.next(), c.rng.next() as u8);
            let (mut x, mut y) = (x0, y0);
            d.m_mutref(&mut x, &mut y);
            one_call(m, 23, x0 ^ y0 as u64);
            same!("result", (x, y), (m.ans(23, x0 ^ y0 as u64), y0.wrapping_add(1)));
        }
    }
}
fn mut_many<N, D: ManyDynMut<N>>(c: &mut Case, d: &mut D, m: &mut Model) {
    match c.rng.below(5) {
        0 | 1 => {
            let o = if c.rng.bool() { stabby::option::Option::Some(<Tracked as Elem>::make(c.rng.below(200) as u32)) } else { stabby::option::Option::None() };
            let h = opt_h(&o);
            let r = d.m_opt(o);
            one_call(m, 12, h);
            let a = m.ans(12, h);
            m.state = a;
            same!("result", opt_h(&r), if h == 999 { a as u8 as u64 } else if a & 1 == 0 { 999 } else { h });
        }
        2 => {
            let keys: std::vec::Vec<u32> = (0..c.rng.below(6)).map(|_| c.rng.below(200) as u32).collect();
            let v: stabby::vec::Vec<Tracked> = keys.iter().map(|k| <Tracked as Elem>::make(*k)).collect();
            let r = d.m_vec(v);
            one_call(m, 14, keys.iter().fold(7, |h, x| mix(h, *x as u64)));
            same!("result", r.iter().map(|t| t.key()).collect::<std::vec::Vec<_>>(), keys.iter().rev().copied().collect::<std::vec::Vec<_>>());
        }
        3 => {
            let x = c.rng.next();
            let r = expect_panic(|| d.m_unw(x));
            one_call(m, 19, x);
            let a = m.ans(19, x);
            m.state = x;
            match r {
                Ok(r) if x & 1 == 0 => same!("result", r, a),
                Err(e) if x & 1 == 1 => must!("panic", e.contains("method panic"), "unexpected panic {e}"),
                r => viol!("panic", "x {x}: {r:?}"),
            }
        }
        _ => {
            let k = c.rng.below(NK as u64) as usize;
            let s = c.rng.next();
            let (o, im) = Pk::mk::<stabby::vtable!(A)>(k, 3, s);
            let addr = im.addr;
            let r = d.m_dyn(o);
            one_call(m, 22, mix(answer(KS[k], 1, 5, s), KS[k]));
            same!("address", data_ptr(&r), addr);
            let mut im = im;
            im.addr = addr;
            call_a(c, &r, &im);
        }
    }
}
/// An empty trait.
#[stabby::stabby]
pub trait Marker {}
impl<T: Conc> Marker for T {}

fn call_any<N, D: stabby_abi::vtable::AnyDyn<N>>(_c: &mut Case, d: &D, m: &Model) {
    use stabby_abi::IStable;
    with_k!(m.k, T => {
        same!("any-id", d.id(), <T as IStable>::ID);
        must!("any-report", d.report() == <T as IStable>::REPORT, "report of {:?}", d.report());
    })
}

// ---------------------------------------------------------------- method tables
fn data_ptr<P: IPtrOwned + IPtr, V: HasDropVt + Copy>(d: &Dyn<'_, P, V>) -> usize {
    d.as_ref().ptr() as *const () as usize
}
fn vhash<V: Hash>(v: &V) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
pub trait Vt: HasDropVt + Copy + PartialEq + Hash + core::fmt::Debug + 'static + AllConc<'static> + stabby::IStable {
    fn ref_calls(c: &mut Case, d: &DynRef<'_, Self>, m: &Model);
    fn dyn_calls<P: IPtrOwned + IPtr>(c: &mut Case, d: &Dyn<'_, P, Self>, m: &Model);
    fn mut_calls<P: IPtrOwned + IPtrMut>(c: &mut Case, d: &mut Dyn<'_, P, Self>, m: &mut Model);
    fn up<P: Pk>(c: &mut Case, d: Dyn<'static, P, Self>, m: Rc<RefCell<Model>>) -> Box<dyn Obj>;
    /// downcasting through reports (only with `Any`)
    fn stable_down<P: IPtrOwned + IPtr>(_: &Dyn<'static, P, Self>, _: &Model) {}
    fn stable_down_mut<P: IPtrOwned + IPtrMut>(_: &mut Dyn<'static, P, Self>, _: &Model) {}
    fn stable_down_ref(_: &DynRef<'_, Self>, _: &Model) {}
    fn up_ref(_: &mut Case, _: DynRef<'_, Self>, _: &Model) {}
    fn up_mut(_: &mut Case, _: Dyn<'_, &mut (), Self>, _: &mut Model) {}
}
fn stable_down<P: IPtrOwned + IPtr, V, N>(d: &Dyn<'static, P, V>, m: &Model)
where
    V: HasDropVt + Copy + AllConc<'static> + TransitiveDeref<stabby_abi::vtable::StabbyVtableAny, N>,
{
    for k in 0..NK {
        with_k!(k, T => match d.stable_downcast_ref::<T, N>() {
            Some(r) => { must!("downcast", k == m.k, "an object made from type {} was downcast to type {}", m.k, k); same!("downcast-address", r as *const T as usize, m.addr); same!("state", r.st(), m.state); same!("key", Conc::key(r), if m.k == 5 { 0 } else { m.key }); }
            None => must!("downcast", k != m.k, "downcast to the original type {} refused", m.k),
        })
    }
}
fn stable_down_mut<P: IPtrOwned + IPtrMut, V, N>(d: &mut Dyn<'static, P, V>, m: &Model)
where
    V: HasDropVt + Copy + AllConc<'static> + TransitiveDeref<stabby_abi::vtable::StabbyVtableAny, N>,
{
    for k in 0..NK {
        with_k!(k, T => match d.stable_downcast_mut::<T, N>() {
            Some(r) => { must!("downcast", k == m.k, "an object made from type {} was mutably downcast to type {}", m.k, k); same!("downcast-address", r as *const T as usize, m.addr); }
            None => must!("downcast", k != m.k, "mutable downcast to the original type {} refused", m.k),
        })
    }
}
fn stable_down_ref<V, N>(d: &DynRef<'_, V>, m: &Model)
where
    V: HasDropVt + Copy + 'static + TransitiveDeref<stabby_abi::vtable::StabbyVtableAny, N>,
{
    for k in 0..NK {
        with_k!(k, T => match d.stable_downcast::<T, N>() {
            Some(r) => { must!("downcast", k == m.k, "an object made from type {} was downcast by reference to type {}", m.k, k); same!("downcast-address", r as *const T as usize, m.addr); }
            None => must!("downcast", k != m.k, "downcast by reference to the original type {} refused", m.k),
        })
    }
}
/// The function addresses a table holds.
fn words<V>(v: &V) -> &[usize] {
    // SAFETY: tables are made of function pointers only.
    unsafe { core::slice::from_raw_parts(v as *const V as *const usize, core::mem::size_of::<V>() / core::mem::size_of::<usize>()) }
}
/// Downcasting through method-table equality: succeeds exactly when the tables hold the same functions,
/// hence (but for functions that the compiler merged or duplicated) for the original type.
fn table_down<P: IPtrOwned + IPtr, V: Vt>(d: &Dyn<'static, P, V>, m: &Model) {
    if cfg!(miri) {
        return; // function addresses are not stable
    }
    for k in 0..NK {
        with_k!(k, T => {
            let v = <V as IConstConstructor<'static, T>>::vtable();
            let eq = words(v) == words(d.vtable());
            same!("table-eq", v == d.vtable(), eq, "types {k} and {}", m.k);
            if eq { same!("table-hash", vhash(v), vhash(d.vtable())); }
            let r = unsafe { d.downcast_ref::<T>() };
            same!("table-downcast", r.map(|r| r as *const T as usize), eq.then_some(m.addr), "types {k} and {}", m.k);
            // every method of these types is its own function, whose type is part of what it does
            must!("table-type", k == m.k || !eq || core::mem::size_of::<V>() <= 8, "types {k} and {} share a table", m.k);
        })
    }
}
macro_rules! vts {
    ($($n:ident [$($tr:tt)*] : $def:ty = { $($dy:tt)* } ups [$($up:ty),*];)*) => {
        /// `vtable!` names the table its argument describes.
        #[allow(dead_code)]
        fn vtable_macro() { $( let _: core::marker::PhantomData<$n> = core::marker::PhantomData::<stabby::vtable!($($dy)*)>; )* }
        $(
            pub type $n = $def;
            impl Vt for $n {
                fn ref_calls(c: &mut Case, d: &DynRef<'_, Self>, m: &Model) { $( vts!(@ref $tr, c, d, m); )* let _ = (c, d, m); }
                fn dyn_calls<P: IPtrOwned + IPtr>(c: &mut Case, d: &Dyn<'_, P, Self>, m: &Model) { $( vts!(@ref $tr, c, d, m); )* let _ = (c, d, m); }
                fn mut_calls<P: IPtrOwned + IPtrMut>(c: &mut Case, d: &mut Dyn<'_, P, Self>, m: &mut Model) { $( vts!(@mut $tr, c, d, m); )* let _ = (c, d, m); }
                #[allow(unused_mut, unused_assignments, unused_variables)]
                fn up<P: Pk>(c: &mut Case, d: Dyn<'static, P, Self>, m: Rc<RefCell<Model>>) -> Box<dyn Obj> {
                    let n = 0 $(+ { let _: Option<$up> = None; 1 })*;
                    if n == 0 { return Box::new(O { d, m }); }
                    let mut pick = c.rng.below(n);
                    $( if pick == 0 { return Box::new(O { d: d.into_super::<Dyn<'static, P, $up>>(), m }); } pick -= 1; )*
                    unreachable!()
                }
                $( vts!(@any $tr); )*
                #[allow(unused_variables)]
                fn up_ref(c: &mut Case, d: DynRef<'_, Self>, m: &Model) {
                    $( { let s: DynRef<'_, $up> = d.into_super(); <$up as Vt>::ref_calls(c, &s, m); <$up as Vt>::stable_down_ref(&s, m); if c.rng.bool() { <$up as Vt>::up_ref(c, s, m); } } )*
                }
                #[allow(unused_variables, unused_mut, unused_assignments)]
                fn up_mut(c: &mut Case, d: Dyn<'_, &mut (), Self>, m: &mut Model) {
                    let n = 0 $(+ { let _: Option<$up> = None; 1 })*;
                    if n == 0 { return; }
                    let mut pick = c.rng.below(n);
                    $( if pick == 0 { let mut s: Dyn<'_, &mut (), $up> = d.into_super(); <$up as Vt>::mut_calls(c, &mut s, m); <$up as Vt>::dyn_calls(c, &s, m); return <$up as Vt>::up_mut(c, s, m); } pick -= 1; )*
                }
            }
        )*
    };
    (@ref A, $c:ident, $d:ident, $m:ident) => { call_a($c, $d, $m) };
    (@ref A2, $c:ident, $d:ident, $m:ident) => { call_a2($c, $d, $m) };
    (@ref B, $c:ident, $d:ident, $m:ident) => { call_b($c, $d, $m) };
    (@ref Gu, $c:ident, $d:ident, $m:ident) => { call_g::<u32, _, _>($c, $d, $m) };
    (@ref Gt, $c:ident, $d:ident, $m:ident) => { call_g::<Tracked, _, _>($c, $d, $m) };
    (@ref Many, $c:ident, $d:ident, $m:ident) => { call_many($c, $d, $m) };
    (@ref Any, $c:ident, $d:ident, $m:ident) => { call_any($c, $d, $m) };
    (@ref Marker, $c:ident, $d:ident, $m:ident) => { };
    (@mut A, $c:ident, $d:ident, $m:ident) => { mut_a($c, $d, $m) };
    (@mut B, $c:ident, $d:ident, $m:ident) => { mut_b($c, $d, $m) };
    (@mut Gu, $c:ident, $d:ident, $m:ident) => { mut_g::<u32, _, _>($c, $d, $m) };
    (@mut Gt, $c:ident, $d:ident, $m:ident) => { mut_g::<Tracked, _, _>($c, $d, $m) };
    (@mut Many, $c:ident, $d:ident, $m:ident) => { mut_many($c, $d, $m) };
    (@mut $o:ident, $c:ident, $d:ident, $m:ident) => { };
    (@any Any) => {
        fn stable_down<P: IPtrOwned + IPtr>(d: &Dyn<'static, P, Self>, m: &Model) { stable_down(d, m) }
        fn stable_down_mut<P: IPtrOwned + IPtrMut>(d: &mut Dyn<'static, P, Self>, m: &Model) { stable_down_mut(d, m) }
        fn stable_down_ref(d: &DynRef<'_, Self>, m: &Model) { stable_down_ref(d, m) }
    };
    (@any $o:ident) => { };
}
use stabby_abi::vtable::{VTable, VtDrop, VtSend, VtSync};
type RT = stabby::result::Result<Tracked, u8>;
impl Vt for VtDrop {
    fn ref_calls(_: &mut Case, _: &DynRef<'_, Self>, _: &Model) {}
    fn dyn_calls<P: IPtrOwned + IPtr>(_: &mut Case, _: &Dyn<'_, P, Self>, _: &Model) {}
    fn mut_calls<P: IPtrOwned + IPtrMut>(_: &mut Case, _: &mut Dyn<'_, P, Self>, _: &mut Model) {}
    fn up<P: Pk>(_: &mut Case, d: Dyn<'static, P, Self>, m: Rc<RefCell<Model>>) -> Box<dyn Obj> { Box::new(O { d, m }) }
}
type TA<T = VtDrop> = VTable<StabbyVtableA, T>;
type TA2<T = VtDrop> = VTable<StabbyVtableA2, T>;
type TB<T = VtDrop> = VTable<StabbyVtableB, T>;
type TM<T = VtDrop> = VTable<StabbyVtableMany, T>;
type TMk<T = VtDrop> = VTable<StabbyVtableMarker, T>;
type TGu<T = VtDrop> = VTable<StabbyVtableG<u64, u32>, T>;
type TGt<T = VtDrop> = VTable<StabbyVtableG<RT, Tracked>, T>;
type TAny<T = VtDrop> = VTable<stabby_abi::vtable::StabbyVtableAny, T>;
vts! {
    VA [A]: TA = { A } ups [VtDrop];
    VAB [A B]: TB<TA> = { A + B } ups [VA];
    VB [B]: TB = { B } ups [VtDrop];
    VBA [A B]: TA<TB> = { B + A } ups [VB];
    VAA2 [A2]: TA2<TA> = { A + A2 } ups [VA];
    VABG [A B Gu]: TGu<TB<TA>> = { A + B + G<u32, Out = u64> } ups [VAB];
    VABGM [A B Gu Many]: TM<TGu<TB<TA>>> = { A + B + G<u32, Out = u64> + Many } ups [VABG];
    VMG [Many Gt]: TGt<TM> = { Many + G<Tracked, Out = RT> } ups [V5];
    VMGG [Many Gt Gu]: TGu<TGt<TM>> = { Many + G<Tracked, Out = RT> + G<u32, Out = u64> } ups [VMG];
    VMGGS [Many Gt Gu]: TGu<TGt<TM<VtSend<VtDrop>>>> = { Send + Many + G<Tracked, Out = RT> + G<u32, Out = u64> } ups [TGt<TM<VtSend<VtDrop>>>];
    VMGGY [Many Gt Gu]: TGu<TGt<VtSync<TM>>> = { Many + Sync + G<Tracked, Out = RT> + G<u32, Out = u64> } ups [TGt<VtSync<TM>>];
    VMGGSS [Many Gt Gu]: VtSync<VtSend<TGu<TGt<TM>>>> = { Many + G<Tracked, Out = RT> + G<u32, Out = u64> + Send + Sync } ups [VMGG, VMG, VtSync<VtSend<VMG>>];
    VAnyA [Any A]: TA<TAny> = { stabby::Any + A } ups [V3];
    VAAny [Any A]: TAny<TA> = { A + stabby::Any } ups [VA];
    VBAnyM [Any B Many]: VtSend<TM<TAny<TB>>> = { B + stabby::Any + Many + Send } ups [TM<TAny<TB>>, VBAny, VtSend<VBAny>];
    VBAny [Any B]: TAny<TB> = { B + stabby::Any } ups [VB];
    VAnyGAY [Any Gu A B Marker]: TB<TA<VtSync<TGu<TMk<TAny>>>>> = { stabby::Any + Marker + G<u32, Out = u64> + Sync + A + B } ups [TA<VtSync<TGu<TMk<TAny>>>>];
    V1 [Gu Marker Any]: TGu<TMk<TAny>> = { stabby::Any + Marker + G<u32, Out = u64> } ups [TMk<TAny>];
    V2 [Marker Any]: TMk<TAny> = { stabby::Any + Marker } ups [TAny];
    V3 [Any]: TAny = { stabby::Any } ups [VtDrop];
    V4 [Any Gu A]: TA<VtSync<TGu<TMk<TAny>>>> = { stabby::Any + Marker + G<u32, Out = u64> + Sync + A } ups [VtSync<TGu<TMk<TAny>>>];
    V5 [Many]: TM = { Many } ups [VtDrop];
    V6 [Many]: TM<VtSend<VtDrop>> = { Send + Many } ups [VtSend<VtDrop>];
    V7 [Many Gt]: TGt<TM<VtSend<VtDrop>>> = { Send + Many + G<Tracked, Out = RT> } ups [TM<VtSend<VtDrop>>];
    V8 [Many Gt]: TGt<VtSync<TM>> = { Many + Sync + G<Tracked, Out = RT> } ups [VtSync<TM>];
    V9 [Many Any B]: TM<TAny<TB>> = { B + stabby::Any + Many } ups [VBAny];
}
macro_rules! wrap_vt {
    ($($n:ty => $i:ty, [$($any:ident)?], [$($up:ty),*];)*) => { $(
        impl Vt for $n {
            fn ref_calls(c: &mut Case, d: &DynRef<'_, Self>, m: &Model) { let s: DynRef<'_, $i> = (*d).into_super(); <$i as Vt>::ref_calls(c, &s, m) }
            fn dyn_calls<P: IPtrOwned + IPtr>(c: &mut Case, d: &Dyn<'_, P, Self>, m: &Model) { Self::ref_calls(c, &d.as_ref(), m) }
            fn mut_calls<P: IPtrOwned + IPtrMut>(c: &mut Case, d: &mut Dyn<'_, P, Self>, m: &mut Model) { let mut s: Dyn<'_, &mut (), $i> = d.as_mut().into_super(); <$i as Vt>::mut_calls(c, &mut s, m) }
            #[allow(unused_assignments)]
            fn up<P: Pk>(c: &mut Case, d: Dyn<'static, P, Self>, m: Rc<RefCell<Model>>) -> Box<dyn Obj> {
                let mut pick = c.rng.below(0 $(+ { let _: Option<$up> = None; 1 })*);
                $( if pick == 0 { return Box::new(O { d: d.into_super::<Dyn<'static, P, $up>>(), m }); } pick -= 1; )*
                unreachable!()
            }
            $( vts!(@any $any); )?
        }
    )* };
}
wrap_vt! {
    VtSend<VMG> => VMG, [], [VMG];
    VtSync<VtSend<VMG>> => VMG, [], [VMG, VtSend<VMG>];
    VtSend<VBAny> => VBAny, [Any], [VBAny];
    VtSync<V1> => V1, [Any], [V1];
    VtSync<V5> => V5, [], [V5];
    VtSend<VtDrop> => VtDrop, [], [VtDrop];
}

// ---------------------------------------------------------------- pointers
pub trait Pk: IPtrOwned + IPtr + Sized + 'static {
    const SHARED: bool;
    fn mk<V: Vt>(k: usize, key: u32, st: u64) -> (Dyn<'static, Self, V>, Model);
    fn muts<V: Vt>(c: &mut Case, d: &mut Dyn<'static, Self, V>, m: &mut Model);
    fn dup<V: Vt>(d: &Dyn<'static, Self, V>) -> Option<Dyn<'static, Self, V>>;
    fn weak<V: Vt>(_c: &mut Case, _d: &Dyn<'static, Self, V>, _m: &Rc<RefCell<Model>>) -> Option<Box<dyn WObj>> { None }
}
fn model(k: usize, key: u32, state: u64, addr: usize) -> Model {
    Model { k, key, state, addr, strong: 1, weak: 0 }
}
impl<Al: AllocKind> Pk for SBox<(), Al> {
    const SHARED: bool = false;
    fn mk<V: Vt>(k: usize, key: u32, st: u64) -> (Dyn<'static, Self, V>, Model) {
        with_k!(k, T => {
            let b = SBox::new_in(<T as Conc>::make(key, st), Al::default());
            let addr = &*b as *const T as usize;
            (Dyn::from(b), model(k, key, st, addr))
        })
    }
    fn muts<V: Vt>(c: &mut Case, d: &mut Dyn<'static, Self, V>, m: &mut Model) {
        V::stable_down_mut(d, m);
        V::mut_calls(c, d, m);
        {
            let mut e = d.as_mut();
            same!("as_mut-address", data_ptr(&e), m.addr);
            V::mut_calls(c, &mut e, m);
            V::dyn_calls(c, &e, m);
            let mut f = e.as_mut();
            V::mut_calls(c, &mut f, m);
            V::up_mut(c, f, m);
        }
        match d.try_as_mut() {
            Some(mut e) => V::mut_calls(c, &mut e, m),
            None => viol!("try_as_mut", "refused on a box"),
        }
    }
    fn dup<V: Vt>(_: &Dyn<'static, Self, V>) -> Option<Dyn<'static, Self, V>> { None }
}
impl<Al: AllocKind> Pk for Arc<(), Al> {
    const SHARED: bool = true;
    fn mk<V: Vt>(k: usize, key: u32, st: u64) -> (Dyn<'static, Self, V>, Model) {
        with_k!(k, T => {
            let b = Arc::new_in(<T as Conc>::make(key, st), Al::default());
            let addr = &*b as *const T as usize;
            (Dyn::from(b), model(k, key, st, addr))
        })
    }
    fn muts<V: Vt>(c: &mut Case, d: &mut Dyn<'static, Self, V>, m: &mut Model) {
        let uniq = m.strong == 1 && m.weak == 0;
        match d.try_as_mut() {
            Some(mut e) => {
                must!("try_as_mut", uniq, "mutable access granted with {} strong and {} weak owners", m.strong, m.weak);
                same!("as_mut-address", data_ptr(&e), m.addr);
                V::mut_calls(c, &mut e, m);
                V::dyn_calls(c, &e, m);
                V::up_mut(c, e, m);
            }
            None => must!("try_as_mut", !uniq, "mutable access refused to the only owner"),
        }
    }
    fn dup<V: Vt>(d: &Dyn<'static, Self, V>) -> Option<Dyn<'static, Self, V>> { Some(d.clone()) }
    fn weak<V: Vt>(_c: &mut Case, d: &Dyn<'static, Self, V>, m: &Rc<RefCell<Model>>) -> Option<Box<dyn WObj>> {
        // SAFETY: the borrow in the signature is not needed by a weak pointer; the suite keeps every count alive itself.
        let d: &'static Dyn<'static, Self, V> = unsafe { core::mem::transmute(d) };
        let w: Dyn<'static, Weak<(), Al>, V> = Dyn::from(d);
        m.borrow_mut().weak += 1;
        Some(Box::new(Wk { d: w, m: m.clone() }))
    }
}

// ---------------------------------------------------------------- pool objects
pub trait Obj {
    fn check(&self, c: &mut Case);
    fn calls(&mut self, c: &mut Case);
    fn up(self: Box<Self>, c: &mut Case) -> Box<dyn Obj>;
    fn dup(&self) -> Option<Box<dyn Obj>>;
    fn weak(&self, c: &mut Case) -> Option<Box<dyn WObj>>;
    fn gone(self: Box<Self>);
}
pub struct O<P: Pk, V: Vt> {
    d: Dyn<'static, P, V>,
    m: Rc<RefCell<Model>>,
}
impl<P: Pk, V: Vt> Obj for O<P, V> {
    fn check(&self, c: &mut Case) {
        let m = self.m.borrow();
        same!("address", data_ptr(&self.d), m.addr);
        V::dyn_calls(c, &self.d, &m);
        V::ref_calls(c, &self.d.as_ref(), &m);
        let copied = self.d.as_ref();
        let again = copied;
        V::ref_calls(c, &again, &m);
        V::stable_down(&self.d, &m);
        V::stable_down_ref(&again, &m);
        V::up_ref(c, again, &m);
        table_down(&self.d, &m);
    }
    fn calls(&mut self, c: &mut Case) {
        let mut m = self.m.borrow_mut();
        P::muts(c, &mut self.d, &mut m);
    }
    fn up(self: Box<Self>, c: &mut Case) -> Box<dyn Obj> {
        let O { d, m } = *self;
        V::up(c, d, m)
    }
    fn dup(&self) -> Option<Box<dyn Obj>> {
        let d = P::dup(&self.d)?;
        self.m.borrow_mut().strong += 1;
        Some(Box::new(O { d, m: self.m.clone() }))
    }
    fn weak(&self, c: &mut Case) -> Option<Box<dyn WObj>> {
        P::weak(c, &self.d, &self.m)
    }
    fn gone(self: Box<Self>) {
        let O { d, m } = *self;
        let mut m = m.borrow_mut();
        let before = track::drops();
        drop(d);
        m.strong -= 1;
        let want = (m.strong == 0 && m.k != 5) as u64;
        same!("drop-count", track::drops() - before, want, "values destroyed by dropping one of {} owners", m.strong + 1);
    }
}
pub trait WObj {
    fn upgrade(&self, c: &mut Case) -> Option<Box<dyn Obj>>;
    fn dup(&self) -> Box<dyn WObj>;
    fn gone(self: Box<Self>);
}
struct Wk<Al: AllocKind, V: Vt> {
    d: Dyn<'static, Weak<(), Al>, V>,
    m: Rc<RefCell<Model>>,
}
impl<Al: AllocKind, V: Vt> WObj for Wk<Al, V> {
    fn upgrade(&self, _: &mut Case) -> Option<Box<dyn Obj>> {
        let alive = self.m.borrow().strong > 0;
        let r: Option<Dyn<'static, Arc<(), Al>, V>> = self.d.clone().upgrade().into();
        same!("upgrade", r.is_some(), alive);
        let d = r?;
        same!("address", data_ptr(&d), self.m.borrow().addr);
        self.m.borrow_mut().strong += 1;
        Some(Box::new(O { d, m: self.m.clone() }))
    }
    fn dup(&self) -> Box<dyn WObj> {
        self.m.borrow_mut().weak += 1;
        Box::new(Wk { d: self.d.clone(), m: self.m.clone() })
    }
    fn gone(self: Box<Self>) {
        let before = track::drops();
        self.m.borrow_mut().weak -= 1;
        drop(self.d);
        same!("drop-count", track::drops() - before, 0, "a weak reference destroyed the value");
    }
}
/// Random histories over a pool of objects.
pub fn history(c: &mut Case, make: &[fn(&mut Case) -> Box<dyn Obj>]) {
    track::reset();
    monalloc::reset();
    LOG.with(|l| l.borrow_mut().clear());
    let mut pool: std::vec::Vec<Box<dyn Obj>> = std::vec::Vec::new();
    let mut weaks: std::vec::Vec<Box<dyn WObj>> = std::vec::Vec::new();
    let steps = c.scale(30, 10);
    for _ in 0..c.rng.below(steps as u64) + 4 {
        let op = if pool.is_empty() { 0 } else { c.rng.below(12) };
        c.ev(op);
        let i = c.rng.below(pool.len().max(1) as u64) as usize;
        match op {
            0 | 1 if pool.len() < 12 => {
                let f = make[c.rng.below(make.len() as u64) as usize];
                let o = f(c);
                pool.push(o);
            }
            2..=4 => pool[i].check(c),
            5 | 6 => pool[i].calls(c),
            7 => {
                let o = pool.swap_remove(i);
                let before = track::drops();
                let o = o.up(c);
                same!("upcast-drops", track::drops(), before);
                pool.push(o);
            }
            8 if pool.len() < 16 => {
                if let Some(o) = pool[i].dup() {
                    pool.push(o)
                }
            }
            9 => {
                if weaks.len() < 8 {
                    if let Some(w) = pool[i].weak(c) {
                        weaks.push(w)
                    }
                }
                if !weaks.is_empty() {
                    let j = c.rng.below(weaks.len() as u64) as usize;
                    match c.rng.below(5) {
                        0 => { let w = weaks[j].dup(); weaks.push(w) }
                        1 => weaks.swap_remove(j).gone(),
                        _ => if let Some(o) = weaks[j].upgrade(c) { pool.push(o) },
                    }
                }
            }
            10 | 11 => {
                // the pool moves: objects must not depend on where their handle lives
                let o = pool.swap_remove(i);
                if c.rng.bool() { pool.insert(0, o) } else { o.gone() }
            }
            _ => {}
        }
        track::check();
        c.nontrivial = true;
    }
    while !pool.is_empty() {
        let i = c.rng.below(pool.len() as u64) as usize;
        pool[i].check(c);
        pool.swap_remove(i).gone();
        if c.rng.chance(1, 3) && !weaks.is_empty() {
            let j = c.rng.below(weaks.len() as u64) as usize;
            if let Some(o) = weaks[j].upgrade(c) { o.gone() }
        }
    }
    for w in &weaks {
        must!("upgrade", w.upgrade(c).is_none(), "a dead value was upgraded");
    }
    for w in weaks { w.gone() }
    track::assert_all_dropped("leak");
    monalloc::check_empty("alloc-leak");
}
fn new_obj<P: Pk, V: Vt>(c: &mut Case) -> Box<dyn Obj> {
    let k = c.rng.below(NK as u64) as usize;
    let key = c.rng.below(250) as u32;
    let st = c.rng.next();
    let made = track::made();
    let (d, m) = P::mk::<V>(k, key, st);
    same!("made", track::made() - made, (k != 5) as u64);
    Box::new(O { d, m: Rc::new(RefCell::new(m)) })
}
/// Objects of one family of tables over one kind of pointer.
pub fn owned<P: Pk>(c: &mut Case) {
    history(c, &[
        new_obj::<P, VABGM>, new_obj::<P, VBA>, new_obj::<P, VAA2>, new_obj::<P, VMGGS>, new_obj::<P, VMGGY>, new_obj::<P, VMGGSS>,
        new_obj::<P, VAnyA>, new_obj::<P, VAAny>, new_obj::<P, VBAnyM>, new_obj::<P, VAnyGAY>,
    ])
}
pub fn any_only<P: Pk>(c: &mut Case) {
    history(c, &[new_obj::<P, VAnyA>, new_obj::<P, VAAny>, new_obj::<P, VBAnyM>, new_obj::<P, VAnyGAY>])
}
/// Objects of every pointer kind in the same pool.
pub fn mixed(c: &mut Case) {
    type BR = SBox<(), RustAlloc>;
    type AM = Arc<(), MonAlloc>;
    type BM = SBox<(), MonAlloc>;
    type AF = Arc<(), FatMon>;
    history(c, &[
        new_obj::<BR, VABGM>, new_obj::<AM, VABGM>, new_obj::<BM, VMGGS>, new_obj::<AF, VMGGSS>, new_obj::<AM, VAAny>, new_obj::<BM, VBAnyM>,
        new_obj::<AF, VAnyGAY>, new_obj::<BR, VAA2>, new_obj::<AM, VBA>, new_obj::<BM, VMGGY>,
    ])
}
/// `&T` and `&mut T` as trait objects: no ownership, writes reach the original.
pub fn borrowed<V: Vt>(c: &mut Case) {
    track::reset();
    monalloc::reset();
    LOG.with(|l| l.borrow_mut().clear());
    let k = c.rng.below(NK as u64) as usize;
    let (key, st) = (c.rng.below(250) as u32, c.rng.next());
    c.ev(k as u64);
    with_k!(k, T => {
        let b = std::boxed::Box::into_raw(std::boxed::Box::new(<T as Conc>::make(key, st)));
        let mut m = model(k, key, st, b as usize);
        for _ in 0..c.rng.below(4) + 1 {
            if c.rng.bool() {
                // SAFETY: the value is alive until the end of the case, and not mutated through anything else.
                let d = DynRef::<'static, V>::from(unsafe { &*b });
                same!("address", d.ptr() as *const () as usize, m.addr);
                V::ref_calls(c, &d, &m);
                V::stable_down_ref(&d, &m);
                V::up_ref(c, d, &m);
                if !cfg!(miri) && core::mem::size_of::<V>() > 8 {
                    let eq = words(<V as IConstConstructor<'static, T>>::vtable()) == words(d.vtable());
                    same!("table-downcast", unsafe { d.downcast::<T>() }.map(|r| r as *const T as usize), eq.then_some(m.addr));
                    must!("table-downcast", k == 5 || unsafe { d.downcast::<u64>() }.is_none(), "downcast of a reference to another type succeeded");
                }
                c.ev(1);
            } else {
                // SAFETY: as above, and unique for the life of `d`.
                let mut d = Dyn::<'static, &'static mut (), V>::from(unsafe { &mut *b });
                same!("address", data_ptr(&d), m.addr);
                V::mut_calls(c, &mut d, &mut m);
                V::dyn_calls(c, &d, &m);
                V::ref_calls(c, &d.as_ref(), &m);
                V::stable_down_mut(&mut d, &m);
                V::stable_down(&d, &m);
                table_down(&d, &m);
                V::up_mut(c, d.as_mut(), &mut m);
                match d.try_as_mut() {
                    Some(mut e) => V::mut_calls(c, &mut e, &mut m),
                    None => viol!("try_as_mut", "refused on a mutable reference"),
                }
                drop(d);
                c.ev(2);
            }
            same!("borrow-drops", track::live(), (k != 5) as usize, "dropping a borrowed trait object must not destroy the value");
            // SAFETY: no trait object is alive.
            let v: &T = unsafe { &*b };
            v.touch();
            same!("state", Conc::st(v), m.state);
            c.nontrivial = true;
        }
        // SAFETY: made by into_raw above.
        drop(unsafe { std::boxed::Box::from_raw(b) });
    });
    track::assert_all_dropped("leak");
    monalloc::check_empty("alloc-leak");
}
