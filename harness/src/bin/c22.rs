//! Type-level numbers, masks and forbidden values against ordinary arithmetic; claims of plain data against what types hold.
#![recursion_limit = "512"]
#![allow(clippy::type_complexity)]
use harness::{must, same, Case, Group};
use stabby::abi as stabby_abi;
use stabby_abi::istable::{ForbiddenRange, IBitMask, IForbiddenValues, ISaturatingAdd, Or, SaturatingAddValue, Saturator};
use stabby_abi::typenum2::unsigned::*;
use stabby_abi::{Array, End, IDeterminantProvider, IStable, Tuple};
use std::any::{type_name, TypeId};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

mod cases {
    use super::*;
    use stabby_abi::typenum2::unsigned::typenames as t;
    use stabby_macros::tyeval;
    include!("../models/algebra_cases.rs");
}
pub type X<M> = <M as IBitMask>::ExtractBit;
fn v<T: IUnsigned>() -> u128 {
    T::U128
}
fn tid<T: 'static>() -> TypeId {
    TypeId::of::<T>()
}
/// A computed number: its value, its identity, and how the compiler writes it.
#[derive(Clone, Copy)]
struct N(u128, TypeId, &'static str);
fn num_of<T: IUnsigned + 'static>() -> N {
    same!("conversions", (T::USIZE, T::U64, T::U32, T::U16, T::U8), (T::U128 as usize, T::U128 as u64, T::U128 as u32, T::U128 as u16, T::U128 as u8), "{}", type_name::<T>());
    N(T::U128, tid::<T>(), type_name::<T>())
}
pub type Name = [N; 4];
fn n<A: IUnsigned + 'static, B: IUnsigned + 'static, C: IUnsigned + 'static, D: IUnsigned + 'static>() -> Name {
    [num_of::<A>(), num_of::<B>(), num_of::<C>(), num_of::<D>()]
}
fn id<T: IUnsigned + 'static>() -> (u128, TypeId) {
    (v::<T>(), tid::<T>())
}
fn same<A: IUnsigned + 'static, B: IUnsigned + 'static>() -> (u128, TypeId, TypeId) {
    (v::<A>(), tid::<A>(), tid::<B>())
}
pub struct Pair {
    a: u128,
    b: u128,
    nums: [(&'static str, N); 7],
    bools: [(&'static str, TypeId, bool); 6],
    cmp: TypeId,
}
fn bit<M: IBitMask>() -> (usize, u128) {
    (<M::ExtractedBitByteOffset as IUnsigned>::USIZE, <M::ExtractedBitMask as IUnsigned>::U128)
}
fn bl<B: IBit + 'static>() -> (TypeId, bool) {
    (tid::<B>(), B::BOOL)
}
fn pair<A: IUnsigned + 'static, B: IUnsigned + 'static>() -> Pair {
    let b = |name, (i, b)| (name, i, b);
    Pair {
        a: A::U128,
        b: B::U128,
        nums: [
            ("and", num_of::<A::BitAnd<B>>()),
            ("or", num_of::<A::BitOr<B>>()),
            ("add", num_of::<A::Add<B>>()),
            ("distance", num_of::<A::AbsSub<B>>()),
            ("min", num_of::<A::Min<B>>()),
            ("max", num_of::<A::Max<B>>()),
            ("truncate", num_of::<A::Truncate<B>>()),
        ],
        bools: [
            b("==", bl::<A::Equal<B>>()),
            b("!=", bl::<A::NotEqual<B>>()),
            b(">", bl::<A::Greater<B>>()),
            b(">=", bl::<A::GreaterOrEq<B>>()),
            b("<", bl::<A::Smaller<B>>()),
            b("<=", bl::<A::SmallerOrEq<B>>()),
        ],
        cmp: tid::<A::Cmp<B>>(),
    }
}
pub struct Pow {
    a: u128,
    p: u128,
    q: u128,
    modulo: [N; 2],
    next: N,
    divide: N,
    log: N,
    min: N,
    max: N,
}
fn pow<A: IUnsigned + 'static, P: IPowerOf2 + 'static, Q: IPowerOf2 + 'static>() -> Pow {
    Pow {
        a: A::U128,
        p: P::U128,
        q: Q::U128,
        modulo: [num_of::<A::Mod<P>>(), num_of::<P::Modulate<A>>()],
        next: num_of::<A::NextMultipleOf<P>>(),
        divide: num_of::<P::Divide<A>>(),
        log: num_of::<P::Log2>(),
        min: num_of::<<P as IPowerOf2>::Min<Q>>(),
        max: num_of::<<P as IPowerOf2>::Max<Q>>(),
    }
}
pub type Mul = (u128, u128, N);
fn mul<A: IUnsigned + 'static, B: IUnsigned + 'static>() -> Mul {
    (A::U128, B::U128, num_of::<A::Mul<B>>())
}
pub type One = (u128, N, N, N);
fn one<A: IUnsigned + 'static>() -> One {
    (A::U128, num_of::<A>(), num_of::<A::Increment>(), num_of::<A::NextPow2>())
}
pub type NZ = (u128, N, N);
fn nz<A: NonZero + 'static>() -> NZ {
    (A::U128, num_of::<A::Decrement>(), num_of::<A::NonZero>())
}
pub struct Pad {
    n: u128,
    size: usize,
    align: usize,
    claimed: (usize, usize, usize),
    unused: BTreeMap<usize, u128>,
}
fn pad<A: IUnsigned>() -> Pad {
    Pad {
        n: A::U128,
        size: size_of::<A::Padding>(),
        align: align_of::<A::Padding>(),
        claimed: (<<A::Padding as IStable>::Size as IUnsigned>::USIZE, <A::Padding as IStable>::size(), <A::Padding as IStable>::align()),
        unused: entries::<<A::Padding as IStable>::UnusedBits>().1,
    }
}
pub struct Arr {
    name: &'static str,
    n: usize,
    got: (usize, usize),
    claimed: (usize, usize),
    want: (usize, usize),
}
fn arr<A: IUnsigned, T: IStable, const K: usize>() -> Arr {
    Arr {
        name: type_name::<T>(),
        n: A::USIZE,
        got: (size_of::<A::Array<T>>(), align_of::<A::Array<T>>()),
        claimed: (<A::Array<T> as IStable>::size(), <A::Array<T> as IStable>::align()),
        want: (size_of::<[T; K]>(), align_of::<[T; K]>()),
    }
}
pub type Al = (u128, u128, N, usize, usize);
fn al<A: Alignment + 'static, B: Alignment + 'static>() -> Al {
    (A::U128, B::U128, num_of::<<A as Alignment>::Max<B>>(), size_of::<A::AsUint>(), align_of::<A::AsUint>())
}
/// What a mask lists at run time: (offsets in order, bits of each byte)
fn entries<M: IBitMask>() -> (Vec<(usize, u128)>, BTreeMap<usize, u128>) {
    let s = format!("{:?}", M::TUPLE);
    let ns: Vec<u128> = s.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let l: Vec<_> = ns.chunks(2).map(|c| (c[0] as usize, c[1])).collect();
    let mut m = BTreeMap::new();
    for (o, b) in &l {
        *m.entry(*o).or_insert(0) |= b;
    }
    (l, m)
}
pub struct Mask {
    listed: Vec<(usize, u128)>,
    merged: BTreeMap<usize, u128>,
    bytes: Vec<u128>,
    free: Vec<bool>,
}
fn mask<M: IBitMask>() -> Mask {
    let (listed, merged) = entries::<M>();
    macro_rules! at { ($($u:ident)*) => { (vec![$(<M::ByteAt<typenames::$u> as IUnsigned>::U128),*], vec![$(<M::HasFreeByteAt<typenames::$u> as IBit>::BOOL),*]) } }
    let (bytes, free) = at!(U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23);
    Mask { listed, merged, bytes, free }
}
fn is_end<M: 'static>() -> bool {
    tid::<M>() == tid::<End>()
}
fn forbidden<F: IForbiddenValues>(p: *const u8) -> bool {
    unsafe { F::is_invalid(p) }
}
/// The entries of a selected forbidden value.
pub trait Show {
    fn show() -> Option<Vec<(usize, u128)>>;
}
impl Show for End {
    fn show() -> Option<Vec<(usize, u128)>> {
        Some(vec![])
    }
}
impl Show for Saturator {
    fn show() -> Option<Vec<(usize, u128)>> {
        None
    }
}
impl<O: IUnsigned, V: IUnsigned, R: Show> Show for Array<O, V, R> {
    fn show() -> Option<Vec<(usize, u128)>> {
        let mut r = R::show()?;
        r.push((O::USIZE, V::U128));
        Some(r)
    }
}
fn select<S: Show>() -> Option<Vec<(usize, u128)>> {
    S::show().filter(|s| !s.is_empty())
}
fn num<T: IUnsigned>() -> u128 {
    T::U128
}
fn boolean<B: IBit>() -> u128 {
    B::BOOL as u128
}

/// The identities of the named numbers.
fn ids() -> &'static HashMap<u128, TypeId> {
    static I: OnceLock<HashMap<u128, TypeId>> = OnceLock::new();
    I.get_or_init(|| cases::IDS.iter().chain([]).map(|f| f()).collect())
}
/// A computed number has the right value, and is the very type that bears that value's name.
#[track_caller]
fn num_is(c: &mut Case, sig: &str, got: N, want: u128, what: impl Fn() -> String) {
    c.ev(got.0 as u64);
    must!(sig, got.0 == want, "{}: got {}, want {want}", what(), got.0);
    if want <= 1000 {
        // the names themselves are compared with literal digits by another case
        must!("not-canonical", ids()[&want] == got.1, "{}: {} is {want}, but not U{want}", what(), got.2);
    } else if let Some((_, d)) = got.2.split_once("UTerm, ") {
        let d = d.split('>').next().unwrap_or("");
        must!("not-canonical", !d.ends_with("B0"), "{}: {} has a leading zero", what(), got.2);
    }
}
fn some<T>(c: &mut Case, l: &'static [T], many: usize) -> Vec<&'static T> {
    (0..c.scale(many, many / 20 + 1)).map(|_| &l[c.rng.below(l.len() as u64) as usize]).collect()
}
fn pairs(c: &mut Case) {
    for f in some(c, cases::PAIRS, 150) {
        let Pair { a, b, nums, bools, cmp } = f();
        let low = if b >= 128 { a } else { a & ((1u128 << b) - 1) };
        let want = [a & b, a | b, a + b, a.abs_diff(b), a.min(b), a.max(b), low];
        for ((name, got), want) in nums.into_iter().zip(want) {
            num_is(c, "arithmetic", got, want, || format!("{a} {name} {b}"));
        }
        let want = [a == b, a != b, a > b, a >= b, a < b, a <= b];
        for ((name, i, got), want) in bools.into_iter().zip(want) {
            c.ev(got as u64);
            must!("comparison", got == want && (i == tid::<B1>()) == want && (i == tid::<B0>()) != want, "{a} {name} {b}: got {got}");
        }
        let want = match a.cmp(&b) {
            std::cmp::Ordering::Less => tid::<Lesser>(),
            std::cmp::Ordering::Equal => tid::<Equal>(),
            std::cmp::Ordering::Greater => tid::<Greater>(),
        };
        must!("comparison", cmp == want, "comparing {a} and {b}");
    }
}
fn names(c: &mut Case) {
    for f in some(c, cases::NAMES, 60) {
        let [a, b, x, l] = f();
        let digits = a.2.matches("B1").count() + a.2.matches("B0").count();
        must!("name", a.0 == l.0 && b.0 == l.0 && x.0 == l.0 && a.1 == l.1 && b.1 == l.1 && x.1 == l.1, "names of {}", l.0);
        must!("name", digits as u32 == 128 - a.0.leading_zeros() || !a.2.contains("UTerm"), "{} is written {}", a.0, a.2);
        c.ev(a.0 as u64);
    }
    for k in 0..c.scale(200, 8) {
        let i = c.rng.below(1001) as usize;
        let (v, _) = cases::IDS[i]();
        same!("name", v, i as u128, "U{i}, {k}");
    }
    for _ in 0..c.scale(60, 3) {
        let i = c.rng.below(39) as usize;
        let (v, a, b) = cases::TENS[i]();
        must!("name", v == 10u128.pow(i as u32) && a == b, "U10pow{i} is {v}");
        let i = c.rng.below(128) as usize;
        let (v, a, b) = cases::TWOS[i]();
        must!("name", v == 1u128 << i && a == b, "U2pow{i} is {v}");
        c.ev(i as u64);
    }
}
fn powers(c: &mut Case) {
    for f in some(c, cases::POWERS, 120) {
        let Pow { a, p, q, modulo, next, divide, log, min, max } = f();
        for m in modulo {
            num_is(c, "modulo", m, a % p, || format!("{a} % {p}"));
        }
        num_is(c, "multiple", next, a.next_multiple_of(p), || format!("{a} to a multiple of {p}"));
        num_is(c, "divide", divide, a / p, || format!("{a} / {p}"));
        num_is(c, "log", log, p.trailing_zeros() as u128, || format!("log {p}"));
        num_is(c, "power-min", min, p.min(q), || format!("min of {p} and {q}"));
        num_is(c, "power-max", max, p.max(q), || format!("max of {p} and {q}"));
    }
    for f in some(c, cases::MULS, 80) {
        let (a, b, m) = f();
        num_is(c, "multiply", m, a * b, || format!("{a} * {b}"));
    }
    for f in some(c, cases::ONES, 60) {
        let (a, me, inc, bits) = f();
        num_is(c, "itself", me, a, || format!("{a}"));
        num_is(c, "increment", inc, a + 1, || format!("{a} + 1"));
        num_is(c, "bits", bits, (128 - a.leading_zeros()) as u128, || format!("bits of {a}"));
    }
    for f in some(c, cases::NONZERO, 60) {
        let (a, dec, me) = f();
        num_is(c, "decrement", dec, a - 1, || format!("{a} - 1"));
        num_is(c, "non-zero", me, a, || format!("{a} as non-zero"));
    }
}
fn layouts(c: &mut Case) {
    for f in some(c, cases::PADS, 20) {
        let Pad { n, size, align, claimed, unused } = f();
        let n = n as usize;
        must!("padding", size == n && align == 1 && claimed == (n, n, 1), "padding of {n}: {size}, aligned to {align}, claimed {claimed:?}");
        must!("padding", (0..n).all(|i| unused.get(&i) == Some(&255)) && unused.len() == n, "padding of {n} leaves {unused:?} unused");
        c.ev(n as u64);
    }
    for f in some(c, cases::ARRAYS, 40) {
        let Arr { name, n, got, claimed, want } = f();
        must!("array", got == want && claimed == want, "{n} times {name}: got {got:?}, claimed {claimed:?}, want {want:?}");
        c.ev(n as u64);
    }
    for f in some(c, cases::ALIGNS, 60) {
        let (a, b, max, size, align) = f();
        num_is(c, "alignment", max, a.max(b), || format!("alignment {a} or {b}"));
        must!("alignment", size as u128 == a && align as u128 == a, "the integer of alignment {a} takes {size} aligned to {align}");
    }
}
fn masks(c: &mut Case) {
    for (name, f, model) in some(c, cases::MASKS, 60) {
        let Mask { listed, merged, bytes, free } = f();
        let model: BTreeMap<usize, u128> = model.iter().copied().collect();
        must!("mask", merged == model, "{name} lists {listed:?}, want {model:?}");
        for (i, b) in bytes.iter().enumerate() {
            let want = model.get(&i).copied().unwrap_or(0);
            must!("mask-byte", *b == want, "{name}: byte {i} is {b}, want {want}");
            must!("mask-free", free[i] == (want == 255), "{name}: whether byte {i} ({want}) is free");
            c.ev(*b as u64 + i as u64);
        }
    }
    for (name, steps, end, model) in some(c, cases::CHAINS, 20) {
        let mut left: BTreeMap<usize, u128> = model.iter().copied().collect();
        for (k, s) in steps.iter().enumerate() {
            let (o, b) = s();
            c.ev(b as u64 + o as u64);
            must!("extract", b.count_ones() == 1, "{name}: bit {k} is {b}");
            let m = left.get_mut(&o);
            must!("extract", m.as_ref().is_some_and(|m| **m & b != 0), "{name}: bit {k} is {b} of byte {o}, which is not left");
            *m.unwrap() &= !b;
        }
        must!("extract", left.values().all(|v| *v == 0) && end(), "{name}: bits left after all were taken");
    }
}
fn matches(model: &[&[(usize, u8, u8)]], m: &[u8]) -> bool {
    model.iter().any(|a| a.iter().all(|(o, lo, hi)| (*lo..=*hi).contains(&m[*o])))
}
/// Bytes that often come close to a forbidden value.
fn memory(c: &mut Case, model: &[&[(usize, u8, u8)]]) -> [u8; 24] {
    let mut m = [0u8; 24];
    for b in &mut m {
        *b = if c.rng.below(2) == 0 { c.rng.next() as u8 } else { [0, 1, 2, 3, 127, 128, 254, 255][c.rng.below(8) as usize] };
    }
    if !model.is_empty() && c.rng.below(4) != 0 {
        let a = model[c.rng.below(model.len() as u64) as usize];
        for (o, lo, hi) in a {
            m[*o] = lo + (c.rng.below((*hi - *lo) as u64 + 1)) as u8;
        }
        if c.rng.below(3) == 0 {
            let (o, lo, hi) = a[c.rng.below(a.len() as u64) as usize];
            m[o] = [lo.wrapping_sub(1), hi.wrapping_add(1)][c.rng.below(2) as usize];
        }
    }
    m
}
fn forbiddens(c: &mut Case) {
    for (name, f, model) in some(c, cases::FORBIDDEN, 60) {
        for _ in 0..4 {
            let m = memory(c, model);
            // only the bytes the values are about exist
            let len = model.iter().flat_map(|a| a.iter().map(|(o, _, _)| o + 1)).max().unwrap_or(0);
            let b: Box<[u8]> = m[..len].into();
            let want = matches(model, &m);
            let got = f(b.as_ptr());
            c.ev(want as u64 * 2 + got as u64);
            must!("forbidden", got == want, "{name}: {b:?} is {}among {model:?}, but the answer is {got}", if want { "" } else { "not " });
        }
    }
    for (name, f, set, mask, model) in some(c, cases::SELECT, 30) {
        let free = |o: usize| mask.iter().any(|(i, v)| *i == o && *v == 255);
        let possible = model.iter().any(|a| !a.is_empty() && a.iter().all(|(o, _, _)| free(*o)));
        let got = f();
        c.ev(possible as u64);
        match &got {
            None => must!("select", !possible, "{name}: nothing was selected"),
            Some(s) => {
                must!("select", s.iter().all(|(o, b)| free(*o) && *b < 256), "{name}: {s:?} is not within the mask");
                let mut m = [0u8; 24];
                for b in &mut m {
                    *b = c.rng.next() as u8;
                }
                for (o, b) in s {
                    m[*o] = *b as u8;
                }
                must!("select", matches(model, &m) && set(m.as_ptr()), "{name}: {s:?} is not forbidden");
            }
        }
    }
}
fn expressions(c: &mut Case) {
    for (text, f, want) in some(c, cases::EXPRESSIONS, 60) {
        let got = f();
        c.ev(got as u64);
        must!("expression", got == *want, "{text}: got {got}, want {want}");
    }
    fn val<T: ISaturatingAdd>() -> usize {
        match T::VALUE {
            SaturatingAddValue::B0 => 0,
            SaturatingAddValue::B1 => 1,
            SaturatingAddValue::Saturator => 2,
        }
    }
    macro_rules! sat { ($($a:ident)*) => { $(
        same!("saturating", val::<<$a as ISaturatingAdd>::SaturatingAddB1>(), (val::<$a>() + 1).min(2));
        sat!(@ $a B0); sat!(@ $a B1); sat!(@ $a Saturator);
    )* };
    (@ $a:ident $b:ident) => { same!("saturating", val::<<$a as ISaturatingAdd>::SaturatingAdd<$b>>(), (val::<$a>() + val::<$b>()).min(2)); } }
    sat!(B0 B1 Saturator);
    macro_rules! bits { ($($a:ident $b:ident),*) => { $(
        let (a, b) = (<$a as IBit>::BOOL, <$b as IBit>::BOOL);
        let got = [<<$a as IBit>::And<$b> as IBit>::BOOL, <<$a as IBit>::Or<$b> as IBit>::BOOL, <<$a as IBit>::Nand<$b> as IBit>::BOOL, <<$a as IBit>::Xor<$b> as IBit>::BOOL, <<$a as IBit>::Equals<$b> as IBit>::BOOL, <<$a as IBit>::Not as IBit>::BOOL];
        same!("bits", got, [a & b, a | b, !(a & b), a ^ b, a == b, !a], "{a} {b}");
        bits!(@ $a $b B0);
        bits!(@ $a $b B1);
    )* };
    (@ $a:ident $b:ident $c:ident) => {
        let (a, b, k) = (<$a as IBit>::BOOL as i8, <$b as IBit>::BOOL as i8, <$c as IBit>::BOOL as i8);
        let got = [<<$a as IBit>::AdderSum<$b, $c> as IBit>::BOOL, <<$a as IBit>::AdderCarry<$b, $c> as IBit>::BOOL, <<$a as IBit>::SuberSum<$b, $c> as IBit>::BOOL, <<$a as IBit>::SuberCarry<$b, $c> as IBit>::BOOL];
        same!("bits", got, [(a + b + k) % 2 == 1, a + b + k > 1, (a - b - k) % 2 != 0, a - b - k < 0], "{a} {b} {k}");
    } }
    bits!(B0 B0, B0 B1, B1 B0, B1 B1);
}
// ----------------------------------------------------------------- plain data
mod ty {
    use super::*;
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub struct S3<A, B, C>(pub A, pub B, pub C);
    #[stabby::stabby]
    #[repr(align(32))]
    #[derive(Clone, Copy)]
    pub struct Al<A> {
        pub a: u8,
        pub b: A,
    }
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub struct R<'a, A> {
        pub a: u32,
        pub b: &'a A,
    }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum E3<A: IStable, B: IStable, C: IStable>
    where
        A: IDeterminantProvider<B>,
        stabby::result::Result<A, B>: IDeterminantProvider<C>,
    {
        A(A),
        B(B),
        C(C),
    }
    #[stabby::stabby]
    #[repr(u8)]
    #[derive(Clone, Copy)]
    pub enum T3<A, B> {
        N,
        A(A),
        B(B),
    }
    #[stabby::stabby]
    #[repr(u16)]
    #[derive(Clone, Copy)]
    pub enum Tags {
        A = 1,
        B = 7,
    }
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub union U2 {
        pub a: u8,
        pub b: u64,
    }
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub union U2a {
        pub a: *const u8,
        pub b: u64,
    }
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub union U2b {
        pub a: [u64; 3],
        pub b: S3<u8, u8, *const u8>,
    }
    #[stabby::stabby]
    pub trait Tr {
        extern "C" fn t(&self) -> u8;
    }
}
use stabby_abi::istable::{IPod, NotPod};
struct Plain<T>(std::marker::PhantomData<T>);
trait NotPlain {
    const POD: Option<fn() -> u64> = None;
}
impl<T> NotPlain for T {}
impl<T: IPod> Plain<T> {
    const POD: Option<fn() -> u64> = Some(T::identifier);
}
struct Copyable<T>(std::marker::PhantomData<T>);
trait NotCopyable {
    const COPY: bool = false;
}
impl<T> NotCopyable for T {}
impl<T: Copy> Copyable<T> {
    const COPY: bool = true;
}
struct Claim {
    name: &'static str,
    pointers: bool,
    claimed: bool,
    pod: Option<fn() -> u64>,
    copy: bool,
    id: u64,
}
macro_rules! claims {
    ($($t:ty),* $(,)?) => { [$(Claim {
        name: stringify!($t),
        pointers: false,
        claimed: <<$t as IStable>::ContainsIndirections as IBit>::BOOL,
        pod: Plain::<$t>::POD,
        copy: Copyable::<$t>::COPY,
        id: <$t as IStable>::ID,
    }),*] };
}
type P<'a> = &'a u16;
/// Types without, and with, a pointer somewhere inside.
fn without() -> Vec<Claim> {
    use core::num::*;
    use core::sync::atomic::*;
    use stabby::option::Option as SO;
    use stabby::result::Result as SR;
    use stabby_abi::num::*;
    claims!(
        (), u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, bool, core::cmp::Ordering, core::marker::PhantomPinned,
        NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32, NonZeroU64, NonZeroI64, NonZeroU128, NonZeroI128, NonZeroUsize, NonZeroIsize,
        AtomicBool, AtomicU8, AtomicI8, AtomicU16, AtomicI16, AtomicU32, AtomicI32, AtomicU64, AtomicI64, AtomicUsize, AtomicIsize,
        NonMaxU8, NonMaxU64, NonXI16<5>, stabby::time::Duration,
        core::mem::ManuallyDrop<u32>, core::mem::MaybeUninit<u32>, core::cell::UnsafeCell<u32>, [u8; 0], [u8; 1], [u16; 7], [[NonZeroU8; 2]; 3],
        Tuple<u8, u64>, stabby_abi::tuple::Tuple3<u8, (), bool>, stabby_abi::tuple::Tuple5<u8, u16, u32, u64, u128>,
        Option<NonZeroU8>, Result<(), NonZeroU16>, SO<u8>, SO<NonZeroU32>, SO<Tuple<u8, u64>>, SR<u8, u16>, SR<(), ()>, SR<SO<u8>, SR<u8, f64>>,
        ty::S3<u8, u16, u32>, ty::S3<(), SO<bool>, [u8; 3]>, ty::Al<u64>, ty::E3<u8, u16, u32>, ty::E3<NonZeroU8, (), bool>, ty::T3<u8, f32>, ty::Tags, ty::U2, ty::Al<ty::T3<(), ty::Tags>>,
        Align32, Align4096, <typenames::U7 as IUnsigned>::Padding, <typenames::U5 as IUnsignedBase>::Array<u16>, stabby_abi::StableIf<u8, u16>,
    )
    .into()
}
fn with<'a>() -> Vec<Claim> {
    use core::ptr::NonNull;
    use stabby::option::Option as SO;
    use stabby::result::Result as SR;
    let mut v: Vec<Claim> = claims!(
        &'a u8, &'a mut u8, *const u8, *mut u8, NonNull<u8>, core::sync::atomic::AtomicPtr<u8>, &'a (), *const (), core::pin::Pin<P<'a>>,
        extern "C" fn(), extern "C" fn() -> u8, extern "C" fn(u8), extern "C" fn(u8, u16) -> u8, unsafe extern "C" fn(u8) -> u8, extern "C-unwind" fn(u8) -> u8, unsafe extern "C-unwind" fn(),
        Option<P<'a>>, Option<extern "C" fn(u8)>, Option<NonNull<u8>>, Result<P<'a>, ()>, Result<(), NonNull<u8>>,
        stabby::str::Str<'a>, stabby::slice::Slice<'a, u8>, stabby::slice::SliceMut<'a, u8>, stabby::string::String, stabby::vec::Vec<u8>, stabby::boxed::Box<u8>, stabby::boxed::BoxedSlice<u8>, stabby::sync::Arc<u8>, stabby::sync::Weak<u8>, stabby::sync::ArcSlice<u8>,
        stabby::boxed::Box<()>, stabby::vec::Vec<()>, stabby::sync::Arc<()>,
        core::mem::ManuallyDrop<P<'a>>, core::mem::MaybeUninit<P<'a>>, core::cell::UnsafeCell<P<'a>>, [P<'a>; 1], [P<'a>; 2], [[P<'a>; 1]; 3],
        NotPod<u8>, NotPod<P<'a>>,
        Tuple<P<'a>, u8>, Tuple<u8, P<'a>>, stabby_abi::tuple::Tuple3<u8, (), P<'a>>, stabby_abi::tuple::Tuple5<u8, u16, P<'a>, u64, u128>, stabby_abi::tuple::Tuple5<P<'a>, u16, (), u64, u128>, stabby_abi::tuple::Tuple4<u8, u8, u8, P<'a>>,
        SO<P<'a>>, SO<SO<P<'a>>>, SO<Tuple<u8, P<'a>>>, SO<*const u8>, SR<P<'a>, u8>, SR<u8, P<'a>>, SR<P<'a>, P<'a>>, SR<(), P<'a>>, SR<P<'a>, ()>, SR<SR<u8, *const u8>, u64>, SR<u64, SR<u8, *const u8>>, SR<bool, [P<'a>; 2]>,
        ty::S3<P<'a>, u8, u8>, ty::S3<u8, P<'a>, u8>, ty::S3<u8, u8, P<'a>>, ty::S3<(), (), SO<P<'a>>>, ty::Al<P<'a>>, ty::Al<ty::S3<u8, u8, P<'a>>>, ty::R<'a, u8>,
        ty::E3<P<'a>, u8, u8>, ty::E3<u8, P<'a>, u8>, ty::E3<u8, u8, P<'a>>, ty::T3<P<'a>, u8>, ty::T3<u8, P<'a>>, ty::U2a, ty::U2b, ty::S3<u8, ty::U2, ty::U2a>,
        <typenames::U5 as IUnsignedBase>::Array<P<'a>>, stabby_abi::StableIf<P<'a>, u16>,
        stabby::sync::AtomicArc<u8, stabby::alloc::DefaultAllocator>,
        stabby::dynptr!(&'a dyn ty::Tr), stabby::dynptr!(stabby::boxed::Box<dyn ty::Tr + Send>), stabby::dynptr!(stabby::sync::Arc<dyn ty::Tr>),
        stabby::option::Option<stabby::dynptr!(&'a dyn ty::Tr)>, Tuple<u8, stabby::string::String>,
    )
    .into();
    for c in &mut v {
        c.pointers = true;
    }
    v
}
fn plain(c: &mut Case) {
    static T: OnceLock<Vec<Claim>> = OnceLock::new();
    let l = T.get_or_init(|| without().into_iter().chain(with()).collect());
    for t in some(c, l, 40) {
        c.ev(t.id);
        must!("plain", t.claimed == t.pointers, "{} holds {}pointer, but is said to hold {}", t.name, if t.pointers { "a " } else { "no " }, if t.claimed { "one" } else { "none" });
        must!("plain-trait", t.pod.is_some() == (!t.pointers && t.copy), "whether {} is plain data", t.name);
        if let Some(f) = t.pod {
            same!("plain-identifier", f(), t.id, "{}", t.name);
        }
    }
}
/// Memory that no value of the type can have is recognised, wherever in the type it is.
fn invalid(c: &mut Case) {
    use core::num::*;
    use stabby::option::Option as SO;
    fn one<T: IStable>(c: &mut Case, at: usize, len: usize, bad: &[u8], good: &[u8]) {
        let mut m: Box<[u8]> = vec![1u8; size_of::<T>()].into();
        let name = type_name::<T>();
        must!("invalid", !unsafe { T::is_invalid(m.as_ptr()) }, "{name}: {m:?} is declared invalid");
        let put = |m: &mut [u8], v| m[at..at + len].fill(v);
        for v in good {
            put(&mut m, *v);
            must!("invalid", !unsafe { T::is_invalid(m.as_ptr()) }, "{name}: {m:?} is declared invalid");
        }
        for v in bad {
            put(&mut m, *v);
            must!("invalid", unsafe { T::is_invalid(m.as_ptr()) }, "{name}: {m:?} is not declared invalid");
            if len > 1 {
                // one byte is enough to make it valid
                let i = at + c.rng.below(len as u64) as usize;
                m[i] = 1;
                must!("invalid", !unsafe { T::is_invalid(m.as_ptr()) }, "{name}: {m:?} is declared invalid");
            }
        }
        c.ev(at as u64 + len as u64 * 1000);
    }
    let r = c.rng.next();
    let b = 2 + (r % 254) as u8;
    let w = 2 + (r % 253) as u8;
    match r >> 32 & 15 {
        0 => one::<bool>(c, 0, 1, &[2, b, 255], &[0]),
        1 => one::<core::cmp::Ordering>(c, 0, 1, &[2, w, 254], &[0, 255]),
        2 => one::<NonZeroU8>(c, 0, 1, &[0], &[b]),
        3 => one::<NonZeroU16>(c, 0, 2, &[0], &[b]),
        4 => one::<NonZeroI32>(c, 0, 4, &[0], &[b]),
        5 => one::<NonZeroU64>(c, 0, 8, &[0], &[b]),
        6 => one::<NonZeroI128>(c, 0, 16, &[0], &[b]),
        7 => {
            one::<&u8>(c, 0, 8, &[0], &[b]);
            one::<core::ptr::NonNull<u64>>(c, 0, 8, &[0], &[b]);
            one::<extern "C" fn(u8)>(c, 0, 8, &[0], &[b]);
        }
        8 => one::<ty::S3<u8, NonZeroU32, u8>>(c, 4, 4, &[0], &[b]),
        9 => one::<ty::S3<NonZeroU16, bool, u64>>(c, 2, 1, &[b], &[0]),
        10 => one::<ty::S3<NonZeroU16, bool, u64>>(c, 0, 2, &[0], &[b]),
        11 => one::<ty::S3<u8, u16, ty::S3<(), bool, u8>>>(c, 4, 1, &[2, b], &[0]),
        12 => one::<Tuple<u64, core::cmp::Ordering>>(c, 8, 1, &[2, w], &[255]),
        13 => one::<ty::Al<bool>>(c, 1, 1, &[2, b], &[0]),
        14 => one::<core::mem::ManuallyDrop<[NonZeroU64; 1]>>(c, 0, 8, &[0], &[b]),
        _ => one::<stabby_abi::num::NonMaxU32>(c, 0, 4, &[0], &[b]),
    }
    // types without forbidden values, or whose empty states are other values
    let z = [0u8; 64];
    for f in [u64::is_invalid, f64::is_invalid, <[NonZeroU8; 0]>::is_invalid, SO::<()>::is_invalid, <core::mem::MaybeUninit<NonZeroU64>>::is_invalid, <core::cell::UnsafeCell<u64>>::is_invalid, <*const u8>::is_invalid] {
        must!("invalid", !unsafe { f(z.as_ptr()) });
    }
}
const GROUPS: &[Group] = &[
    ("pairs", 3, pairs),
    ("names", 1, names),
    ("powers", 3, powers),
    ("layouts", 1, layouts),
    ("masks", 2, masks),
    ("forbidden", 3, forbiddens),
    ("expressions", 1, expressions),
    ("plain", 1, plain),
    ("invalid", 1, invalid),
];
fn main() {
    harness::run_suite(GROUPS, &[]);
}
