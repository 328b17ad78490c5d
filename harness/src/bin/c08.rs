//! Annotated structs, unions and enums against their plain declarations.
use core::num::*;
use harness::models::payloads::*;
use harness::models::sum::{option, result, Payload};
use harness::track::*;
use harness::{expect_panic, must, same, track, Case, Group, Rng};
use stabby::option::Option as SO;
use stabby::result::Result as SR;
use stabby::str::Str;
use stabby::string::String as SString;
#[global_allocator]
static LEDGER: harness::galloc::Ledger = harness::galloc::Ledger;
/// Declares a compact annotated enum, its plain mirror, and the history runner over both.
macro_rules! compact {
    ($(#[$m:meta])* $n:ident / $p:ident / $run:ident { $($v:ident $(($t:ty))?),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq, Hash)]
        pub enum $p { $($v $(($t))?),* }
        #[stabby::stabby]
        $(#[$m])*
        #[derive(Clone)]
        pub enum $n { $($v $(($t))?),* }
        #[allow(unused_variables, unused_mut)]
        impl $p {
            fn put(self) -> $n { match self { $(Self::$v $((compact!(@bind p $t)))? => $n::$v($({ let q: $t = p; q })?),)* } }
            fn gen(r: &mut Rng) -> Self {
                const N: usize = [$(stringify!($v)),*].len();
                let k = r.idx(N);
                let mut i = 0;
                $(if i == k { return Self::$v $((<$t as Payload>::gen(r)))?; } i += 1;)*
                unreachable!()
            }
            fn like(&self, r: &mut Rng) -> Self {
                match self { $(Self::$v $((compact!(@bind _p $t)))? => Self::$v $((<$t as Payload>::gen(r)))?,)* }
            }
            fn alter(&mut self, r: &mut Rng) { match self { $(Self::$v $((compact!(@bind p $t)))? => { $(<$t as Payload>::alter(p, r);)? })* } }
            fn tag(&self) -> usize {
                let mut i = 0;
                $(i += 1; if compact!(@matches self $v $($t)?) { return i; })*
                unreachable!()
            }
        }
        #[allow(unused_variables, unused_mut)]
        impl $n {
            fn get(&self) -> $p { self.match_ref($(|$(p: &$t)?| $p::$v $((<$t as Clone>::clone(p)))?),*) }
            fn take(self) -> $p { self.match_owned($(|$(p: $t)?| $p::$v $(({ let q: $t = p; q }))?),*) }
        }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
        impl core::fmt::Debug for $n { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { self.get().fmt(f) } }
        impl core::hash::Hash for $n { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.get().hash(h) } }
        #[allow(unused_variables, unused_mut)]
        impl Payload for $n {
            fn gen(r: &mut Rng) -> Self { $p::gen(r).put() }
            fn audit(&self) { self.match_ref($(|$(p: &$t)?| { $(<$t as Payload>::audit(p))? }),*) }
            fn alter(&mut self, r: &mut Rng) {
                let r = r.fork();
                self.match_mut_ctx(r, $(|mut r: Rng $(, p: &mut $t)?| { $(<$t as Payload>::alter(p, &mut r))? }),*)
            }
        }
        #[allow(unused_variables, unused_mut)]
        fn $run(c: &mut Case) {
            track::reset();
            {
                let mut m = $p::gen(&mut c.rng);
                let mut s = m.clone().put();
                c.log(|| format!("{}({m:?}):", stringify!($n)));
                let n = c.scale(24, 8);
                for _ in 0..1 + c.rng.idx(n) {
                    let op = c.rng.below(12);
                    c.ev(op);
                    c.log(|| format!("op{op}"));
                    match op {
                        0 => {
                            m = $p::gen(&mut c.rng);
                            s = m.clone().put();
                        }
                        1 => {
                            let old = core::mem::replace(&mut s, m.clone().put());
                            same!("take", old.take(), m);
                        }
                        2 => same!("match_ref_ctx", s.match_ref_ctx(5u16, $(|x, $(p: &$t)?| (x + 1, $p::$v $((<$t as Clone>::clone(p)))?)),*), (6, m.clone())),
                        3 => {
                            let got = s.match_owned_ctx(7u16, $(|x, $(p: $t)?| (x + 1, $p::$v $(({ let q: $t = p; q }))?)),*);
                            same!("match_owned_ctx", got, (8, m.clone()));
                            s = m.clone().put();
                        }
                        4 | 5 => {
                            // in-place alteration through a mutable match
                            let r = c.rng.fork();
                            m.alter(&mut r.clone());
                            s.match_mut_ctx(r, $(|mut r: Rng $(, p: &mut $t)?| { $(<$t as Payload>::alter(p, &mut r))? }),*);
                        }
                        6 | 7 => {
                            // overwrite the payload
                            m = m.like(&mut c.rng);
                            let src = m.clone();
                            let ok = s.match_mut_ctx(src, $(|src, $(p: &mut $t)?| compact!(@over src $p $v p $($t)?)),*);
                            must!("match_mut-variant", ok, "the wrong closure of match_mut was called for {m:?}");
                        }
                        8 => {
                            let mut tag = 0;
                            {
                                let tag = core::cell::Cell::new(0);
                                let mut i = 0;
                                s.match_mut($({ i += 1; let i = i; let tag = &tag; move |$(p: &mut $t)?| tag.set(i) }),*);
                                must!("match_mut-closure", tag.get() == m.tag(), "closure {} called for {m:?}", tag.get());
                            }
                        }
                        9 => {
                            let t = s.clone();
                            same!("clone", t.get(), m);
                            if c.rng.bool() {
                                s = t;
                            }
                        }
                        10 => {
                            // a closure that panics leaves the value whole
                            let r = expect_panic(|| s.match_mut($(|$(p: &mut $t)?| -> () { panic!("x") }),*));
                            must!("panic-lost", r.is_err());
                            let r = expect_panic(|| s.match_ref($(|$(p: &$t)?| -> () { panic!("x") }),*));
                            must!("panic-lost", r.is_err());
                            let r = expect_panic(|| s.match_mut_ctx(3u8, $(|_x, $(p: &mut $t)?| -> () { panic!("x") }),*));
                            must!("panic-lost", r.is_err());
                            let r = expect_panic(|| s.match_ref_ctx(3u8, $(|_x, $(p: &$t)?| -> () { panic!("x") }),*));
                            must!("panic-lost", r.is_err());
                            // one that owns the payload destroys it, once
                            let t = s.clone();
                            let r = expect_panic(|| t.match_owned($(|$(p: $t)?| -> () { panic!("x") }),*));
                            must!("panic-lost", r.is_err());
                            let t = s.clone();
                            let r = expect_panic(|| t.match_owned_ctx(3u8, $(|_x, $(p: $t)?| -> () { panic!("x") }),*));
                            must!("panic-lost", r.is_err());
                        }
                        _ => {
                            // neighbours in arrays don't interfere
                            let ms = [m.clone(), $p::gen(&mut c.rng), m.clone()];
                            let mut ss = [ms[0].clone().put(), ms[1].clone().put(), ms[2].clone().put()];
                            ss.swap(0, 1);
                            let k = c.rng.idx(3);
                            let r = c.rng.fork();
                            ss[k].match_mut_ctx(r.clone(), $(|mut r: Rng $(, p: &mut $t)?| { $(<$t as Payload>::alter(p, &mut r))? }),*);
                            let mut w = [ms[1].clone(), ms[0].clone(), ms[2].clone()];
                            w[k].alter(&mut r.clone());
                            for i in 0..3 {
                                same!("array", ss[i].get(), w[i]);
                            }
                        }
                    }
                    s.audit();
                    same!("match_ref", s.get(), m);
                    c.ev(m.tag() as u64);
                }
                s.match_ref($(|$(p: &$t)?| { $(must!("misaligned", core::ptr::from_ref(p) as usize % core::mem::align_of::<$t>() == 0))? }),*);
                same!("last", s.take(), m);
            }
            track::assert_all_dropped("leak");
        }
    };
    (@bind $i:ident $t:ty) => { $i };
    (@matches $s:ident $v:ident) => { matches!($s, Self::$v) };
    (@matches $s:ident $v:ident $t:ty) => { matches!($s, Self::$v(_)) };
    (@over $src:ident $p:ident $v:ident $i:ident) => { matches!($src, $p::$v) };
    (@over $src:ident $p:ident $v:ident $i:ident $t:ty) => { if let $p::$v(n) = $src { *$i = n; true } else { false } };
}
compact! { #[repr(stabby)] E2 / P2 / e2 { A(u8), B(u16) } }
compact! { #[repr(stabby)] E3 / P3 / e3 { A(SString), B, C(u32) } }
compact! { #[repr(stabby)] E3b / P3b / e3b { A, B(PadTail), C } }
compact! { #[repr(stabby)] E4 / P4 / e4 { A(bool), B(NonZeroU8), C(u8), D } }
compact! { #[repr(stabby)] E5 / P5 / e5 { A(PadTail), B(PadMid), C(PadTwice), D(u64), E(bool) } }
compact! { #[repr(stabby)] E6 / P6 / e6 { A(Tracked), B(TrackedWide), C, D(SString), E(u8), F(u128) } }
compact! { #[repr(stabby)] E7 / P7 / e7 { A(&'static u32), B(Str<'static>), C(bool), D, E } }
compact! { #[repr(stabby)] E9 / P9 / e9 { A(PadMid4), B(PadMid4), C(PadMid4), D(PadMid4), E(PadMid4), F(PadMid4) } }
compact! { #[repr(stabby)] E17 / P17 / e17 { A(Flags), B(bool), C, D, E(u8), F(PadTail), G(NonZeroU8), H(SString), I, J(u16) } }
compact! { EOpt / POpt / eopt { A(PadTail), B(u8), C(PadTail) } }
compact! { EOpt2 / POpt2 / eopt2 { A(BoxT), B } }
compact! { #[repr(stabby)] ENest / PNest / enest { A(E2), B(E3b) } }
/// Explicit-tag enums: real enums, so only wrapping them can reveal a wrong description.
macro_rules! tagged {
    ($(#[$m:meta])* $n:ident { $($v:ident $(($($t:ty),*))? $({$($f:ident: $ft:ty),*})? $(= $d:expr)?),* $(,)? }) => {
        #[stabby::stabby]
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq, Hash)]
        pub enum $n { $($v $(($($t),*))? $({$($f: $ft),*})? $(= $d)?),* }
        #[allow(unused_assignments)]
        impl Payload for $n {
            fn gen(r: &mut Rng) -> Self {
                const N: usize = [$(stringify!($v)),*].len();
                let k = r.idx(N);
                let mut i = 0;
                $(if i == k { return Self::$v $(($(<$t as Payload>::gen(r)),*))? $({$($f: <$ft as Payload>::gen(r)),*})?; } i += 1;)*
                unreachable!()
            }
        }
    };
}
tagged! { #[repr(u8)] T8 { A(u8), B(u64), C } }
tagged! { #[repr(u8)] T8p { A(u16), B(PadTail), C(bool), D(u8) } }
tagged! { #[repr(u8)] T8s { A(SString), B(u8), C(Tracked) } }
tagged! { #[repr(C, u8)] Tc8 { A(u8), B(u64), C } }
tagged! { #[repr(C, u8)] Tc8n { A { a: u8, b: u32 }, B(u64, u8), C, D(PadMid4, bool) } }
tagged! { #[repr(C, u16)] Tc16 { A(u8), B(u32, u8), C { x: SString } } }
tagged! { #[repr(u16)] T16 { A(u8), B(u32), C } }
tagged! { #[repr(u32)] T32 { A(u8), B(u64), C } }
tagged! { #[repr(u64)] T64 { A(u8), B(u64), C } }
tagged! { #[repr(usize)] Tus { A(u8), B(u16), C } }
tagged! { #[repr(i8)] Ti8 { A = -128, B = -1, C = 0, D = 127 } }
tagged! { #[repr(i16)] Ti16 { A(u8), B(u64) } }
tagged! { #[repr(i32)] Ti32 { A = -5, B, C = 7, D } }
tagged! { #[repr(i64)] Ti64 { A = i64::MIN, B = 0, C = i64::MAX } }
tagged! { #[repr(isize)] Tis { A, B(u8) } }
tagged! { #[repr(u8)] T1 { A(u32) } }
tagged! { #[repr(C, u8)] Tow { A { t: Tracked, b: u8 }, B(SString), C(u8, Tracked, u64) } }
/// Structs of every declaration style.
#[stabby::stabby]
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Tup(u64, u32, u8);
impl Payload for Tup {
    fn gen(r: &mut Rng) -> Self {
        Self(Payload::gen(r), Payload::gen(r), Payload::gen(r))
    }
    fn alter(&mut self, r: &mut Rng) {
        self.2 = Payload::gen(r)
    }
}
#[stabby::stabby]
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub struct Unit;
impl Payload for Unit {
    fn gen(_: &mut Rng) -> Self {
        Unit
    }
}
#[stabby::stabby]
#[derive(Clone, Debug, PartialEq, Hash)]
#[repr(transparent)]
pub struct Trans(PadMid4);
impl Payload for Trans {
    fn gen(r: &mut Rng) -> Self {
        Self(Payload::gen(r))
    }
    fn alter(&mut self, r: &mut Rng) {
        self.0.alter(r)
    }
}
#[stabby::stabby]
#[derive(Clone, Debug, PartialEq, Hash)]
#[repr(align(16))]
pub struct Al16 {
    a: u64,
    b: u8,
}
impl Payload for Al16 {
    fn gen(r: &mut Rng) -> Self {
        Self { a: Payload::gen(r), b: Payload::gen(r) }
    }
    fn alter(&mut self, r: &mut Rng) {
        self.b = Payload::gen(r)
    }
}
#[stabby::stabby(no_opt)]
#[derive(Clone, Debug, PartialEq, Hash)]
#[repr(C)]
pub struct Gen<T, U: Clone = u8>
where
    T: Clone,
{
    a: u8,
    t: T,
    u: U,
}
impl<T: Payload, U: Payload> Payload for Gen<T, U>
where
    Self: stabby::abi::IStable,
{
    fn gen(r: &mut Rng) -> Self {
        Self { a: Payload::gen(r), t: Payload::gen(r), u: Payload::gen(r) }
    }
    fn audit(&self) {
        self.t.audit();
        self.u.audit();
    }
    fn alter(&mut self, r: &mut Rng) {
        if r.bool() {
            self.t.alter(r)
        } else {
            self.u.alter(r)
        }
    }
}
/// A union whose whole content is compared.
#[stabby::stabby]
#[derive(Clone, Copy)]
pub union Un {
    a: u8,
    b: u32,
    c: [u8; 8],
}
impl PartialEq for Un {
    fn eq(&self, o: &Self) -> bool {
        unsafe { self.c == o.c }
    }
}
impl core::fmt::Debug for Un {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        unsafe { self.c }.fmt(f)
    }
}
impl core::hash::Hash for Un {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        unsafe { self.c }.hash(h)
    }
}
impl Payload for Un {
    fn gen(r: &mut Rng) -> Self {
        Un { c: r.next().to_ne_bytes() }
    }
    fn alter(&mut self, r: &mut Rng) {
        if r.bool() {
            self.a = Payload::gen(r)
        } else {
            self.b = Payload::gen(r)
        }
    }
}
#[stabby::stabby]
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub struct HasUn {
    u: Un,
    b: bool,
}
impl Payload for HasUn {
    fn gen(r: &mut Rng) -> Self {
        Self { u: Payload::gen(r), b: Payload::gen(r) }
    }
    fn audit(&self) {
        self.b.audit()
    }
    fn alter(&mut self, r: &mut Rng) {
        self.u.alter(r)
    }
}
/// A generic compact enum.
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone)]
pub enum Ge<T, U>
where
    SR<T, U>: stabby::IStable,
    T: stabby::abi::IDeterminantProvider<U>,
    U: stabby::IStable,
    SR<T, U>: stabby::abi::IDeterminantProvider<SR<(), u8>>,
{
    A(T),
    B(U),
    C,
    D(u8),
}
fn main() {
    let groups: &[Group] = &[
        ("E2", 1, e2), ("E3", 1, e3), ("E3b", 1, e3b), ("E4", 1, e4), ("E5", 1, e5), ("E6", 1, e6), ("E7", 1, e7), ("E9", 1, e9), ("E17", 2, e17),
        ("EOpt", 1, eopt), ("EOpt2", 1, eopt2), ("ENest", 2, enest),
        ("Option/E2", 1, |c| option::<E2>(c)), ("Option/E3", 1, |c| option::<E3>(c)), ("Option/E5", 1, |c| option::<E5>(c)), ("Option/E9", 1, |c| option::<E9>(c)),
        ("Option/E17", 1, |c| option::<E17>(c)), ("Result/E4/E3b", 1, |c| result::<E4, E3b>(c)), ("Result/E9/PadMid4", 1, |c| result::<E9, PadMid4>(c)),
        ("Result/E7/u8", 1, |c| result::<E7, u8>(c)), ("Option/ENest", 1, |c| option::<ENest>(c)), ("Result/EOpt/EOpt", 1, |c| result::<EOpt, EOpt>(c)),
        ("Option/T8", 1, |c| option::<T8>(c)), ("Option/T8p", 1, |c| option::<T8p>(c)), ("Option/T8s", 1, |c| option::<T8s>(c)), ("Option/Tc8", 1, |c| option::<Tc8>(c)),
        ("Option/Tc8n", 1, |c| option::<Tc8n>(c)), ("Option/Tc16", 1, |c| option::<Tc16>(c)), ("Option/T16", 1, |c| option::<T16>(c)), ("Option/T32", 1, |c| option::<T32>(c)),
        ("Option/T64", 1, |c| option::<T64>(c)), ("Option/Tus", 1, |c| option::<Tus>(c)), ("Option/Ti8", 1, |c| option::<Ti8>(c)), ("Option/Ti16", 1, |c| option::<Ti16>(c)),
        ("Option/Ti32", 1, |c| option::<Ti32>(c)), ("Option/Ti64", 1, |c| option::<Ti64>(c)), ("Option/Tis", 1, |c| option::<Tis>(c)), ("Option/T1", 1, |c| option::<T1>(c)), ("Option/Tow", 1, |c| option::<Tow>(c)),
        ("Result/T8/T8", 1, |c| result::<T8, T8>(c)), ("Result/T8p/PadMid", 1, |c| result::<T8p, PadMid>(c)), ("Result/Tc8n/T8", 1, |c| result::<Tc8n, T8>(c)),
        ("Result/T16/PadTail", 1, |c| result::<T16, PadTail>(c)), ("Result/u64/T32", 1, |c| result::<u64, T32>(c)), ("Result/Tow/Tracked", 1, |c| result::<Tow, Tracked>(c)),
        ("Option/Tup", 1, |c| option::<Tup>(c)), ("Option/Unit", 1, |c| option::<Unit>(c)), ("Option/Trans", 1, |c| option::<Trans>(c)), ("Option/Al16", 1, |c| option::<Al16>(c)),
        ("Option/Gen<u64,bool>", 1, |c| option::<Gen<u64, bool>>(c)), ("Option/Gen<Tracked>", 1, |c| option::<Gen<Tracked>>(c)), ("Result/Gen<PadTail,u16>/PadMid", 1, |c| result::<Gen<PadTail, u16>, PadMid>(c)),
        ("Result/Al16/u8", 1, |c| result::<Al16, u8>(c)), ("Result/Trans/Tup", 1, |c| result::<Trans, Tup>(c)), ("Result/Unit/u8", 1, |c| result::<Unit, u8>(c)),
        ("Option/Un", 1, |c| option::<Un>(c)), ("Option/HasUn", 1, |c| option::<HasUn>(c)), ("Result/Un/u8", 1, |c| result::<Un, u8>(c)), ("Result/HasUn/Un", 1, |c| result::<HasUn, Un>(c)),
    ];
    harness::run_suite(groups, &[]);
}
