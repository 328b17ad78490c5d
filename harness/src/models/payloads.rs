//! Payload types of every niche shape, for the sum-type and layout suites.
use super::sum::Payload;
use crate::Rng;
use core::num::*;
use stabby::abi::num::*;
macro_rules! int {
    ($($t:ty),*) => {$(impl Payload for $t {
        fn gen(r: &mut Rng) -> Self {
            match r.below(6) {
                0 => 0,
                1 => <$t>::MAX,
                2 => <$t>::MIN,
                3 => 1,
                4 => (1 as $t) << r.below(<$t>::BITS as u64),
                _ => ((r.next() as u128) << 64 | r.next() as u128) as $t,
            }
        }
    })*};
}
int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! nz {
    ($($t:ty: $p:ty),*) => {$(impl Payload for $t {
        fn gen(r: &mut Rng) -> Self {
            loop {
                if let Some(v) = <$t>::new(<$p as Payload>::gen(r)) {
                    return v;
                }
            }
        }
        fn audit(&self) {
            crate::must!("zero", self.get() != 0);
        }
    })*};
}
nz!(NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroU128: u128, NonZeroUsize: usize, NonZeroI8: i8, NonZeroI32: i32, NonZeroI64: i64, NonZeroI128: i128);
/// Wrappers for payloads that lack some of the traits: same layout, compared by a key.
macro_rules! wrap {
    ($($n:ident($t:ty) $gen:expr, $alter:expr, $key:expr;)*) => {$(
        #[stabby::stabby]
        pub struct $n { pub v: $t }
        impl $n {
            fn key(&self) -> impl PartialEq + core::fmt::Debug + core::hash::Hash + '_ { let f: fn(&$t) -> _ = $key; f(&self.v) }
        }
        impl Clone for $n { fn clone(&self) -> Self { Self { v: self.v.clone() } } }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
        impl core::fmt::Debug for $n { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { self.key().fmt(f) } }
        impl core::hash::Hash for $n { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.key().hash(h) } }
        impl Payload for $n {
            fn gen(r: &mut Rng) -> Self { let f: fn(&mut Rng) -> $t = $gen; Self { v: f(r) } }
            fn audit(&self) { let _ = self.key(); }
            fn alter(&mut self, r: &mut Rng) { let f: fn(&mut $t, &mut Rng) = $alter; f(&mut self.v, r) }
        }
    )*};
}
fn rangen<P: Payload, T: TryFrom<P>>(r: &mut Rng) -> T {
    loop {
        if let Ok(v) = T::try_from(P::gen(r)) {
            return v;
        }
    }
}
fn vecgen<T: Payload>(r: &mut Rng) -> stabby::vec::Vec<T> {
    let n = r.idx(5);
    (0..n).map(|_| T::gen(r)).collect()
}
wrap! {
    NmU8(NonMaxU8) |r| rangen::<u8, _>(r), |v, r| *v = rangen::<u8, _>(r), |v| u8::from(*v);
    NmU16(NonMaxU16) |r| rangen::<u16, _>(r), |v, r| *v = rangen::<u16, _>(r), |v| u16::from(*v);
    NmU64(NonMaxU64) |r| rangen::<u64, _>(r), |v, r| *v = rangen::<u64, _>(r), |v| u64::from(*v);
    NmU128(NonMaxU128) |r| rangen::<u128, _>(r), |v, r| *v = rangen::<u128, _>(r), |v| u128::from(*v);
    VecU8(stabby::vec::Vec<u8>) vecgen, |v, r| if r.bool() { v.push(r.next() as u8) } else { v.pop(); }, |v| v.to_vec();
    VecT(stabby::vec::Vec<crate::track::Tracked>) vecgen, |v, r| if r.bool() { v.push(Payload::gen(r)) } else { v.pop(); }, |v| v.to_vec();
    BoxU(stabby::boxed::Box<u16>) |r| stabby::boxed::Box::new(Payload::gen(r)), |v, r| **v = Payload::gen(r), |v| **v;
    BoxT(stabby::boxed::Box<crate::track::Tracked>) |r| stabby::boxed::Box::new(Payload::gen(r)), |v, r| v.alter(r), |v| (**v).clone();
    ArcT(stabby::sync::Arc<crate::track::Tracked>) |r| stabby::sync::Arc::new(Payload::gen(r)), |v, r| *v = stabby::sync::Arc::new(Payload::gen(r)), |v| (**v).clone();
    ArcSl(stabby::sync::ArcSlice<u16>) |r| vecgen(r).into(), |v, r| *v = vecgen(r).into(), |v| v.to_vec();
    BoxSl(Bs) |r| Bs { v: vecgen(r).into() }, |v, r| v.v = vecgen(r).into(), |v| v.v.to_vec();
    Sl(stabby::slice::Slice<'static, u32>) |r| slgen(r), |v, r| *v = slgen(r), |v| v.to_vec();
    Tu2(stabby::tuple::Tuple2<u8, u32>) |r| stabby::tuple::Tuple2(Payload::gen(r), Payload::gen(r)), |v, r| v.1 = Payload::gen(r), |v| (v.0, v.1);
    Tu3(stabby::tuple::Tuple3<u8, stabby::string::String, bool>) |r| stabby::tuple::Tuple3(Payload::gen(r), Payload::gen(r), Payload::gen(r)), |v, r| { v.1.alter(r); v.2 = !v.2 }, |v| (v.0, v.1.clone(), v.2);
}
#[stabby::stabby]
pub struct Bs {
    v: stabby::boxed::BoxedSlice<u64>,
}
impl Clone for Bs {
    fn clone(&self) -> Self {
        let v: stabby::vec::Vec<u64> = self.v.iter().copied().collect();
        Bs { v: v.into() }
    }
}
fn slgen(r: &mut Rng) -> stabby::slice::Slice<'static, u32> {
    let a = r.idx(TABLE.len() + 1);
    let b = r.idx(TABLE.len() + 1);
    TABLE[a.min(b)..a.max(b)].into()
}
impl Payload for bool {
    fn gen(r: &mut Rng) -> Self {
        r.bool()
    }
    fn audit(&self) {
        crate::must!("invalid-bool", (*self as u8) < 2);
    }
}
impl Payload for () {
    fn gen(_: &mut Rng) -> Self {}
}
impl Payload for core::cmp::Ordering {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Self::Less,
            1 => Self::Equal,
            _ => Self::Greater,
        }
    }
}
static TABLE: [u32; 64] = {
    let mut t = [0; 64];
    let mut i = 0;
    while i < 64 {
        t[i] = i as u32 * 0x01010101;
        i += 1;
    }
    t
};
impl Payload for &'static u32 {
    fn gen(r: &mut Rng) -> Self {
        &TABLE[r.idx(64)]
    }
    fn audit(&self) {
        crate::must!("reference", TABLE.contains(self));
    }
}
const TEXT: &str = "the quick brown fox ∆ jumps ß over the lazy dog 𝄞";
impl Payload for stabby::str::Str<'static> {
    fn gen(r: &mut Rng) -> Self {
        loop {
            let a = r.idx(TEXT.len() + 1);
            let b = r.idx(TEXT.len() + 1);
            if let Some(s) = TEXT.get(a.min(b)..a.max(b)) {
                return s.into();
            }
        }
    }
    fn audit(&self) {
        crate::must!("utf8", core::str::from_utf8(self.as_bytes()).is_ok());
    }
}
impl Payload for stabby::string::String {
    fn gen(r: &mut Rng) -> Self {
        <stabby::str::Str as Payload>::gen(r).as_str().into()
    }
    fn audit(&self) {
        crate::must!("utf8", core::str::from_utf8(self.as_bytes()).is_ok());
    }
}
impl Payload for core::option::Option<&'static u32> {
    fn gen(r: &mut Rng) -> Self {
        r.bool().then(|| Payload::gen(r))
    }
    fn audit(&self) {
        if let Some(v) = self {
            v.audit()
        }
    }
}
impl Payload for core::option::Option<NonZeroU16> {
    fn gen(r: &mut Rng) -> Self {
        r.bool().then(|| Payload::gen(r))
    }
}
macro_rules! arr {
    ($($t:ty; $n:literal),*) => {$(impl Payload for [$t; $n] {
        fn gen(r: &mut Rng) -> Self { core::array::from_fn(|_| Payload::gen(r)) }
        fn audit(&self) { self.iter().for_each(|v| v.audit()) }
    })*};
}
arr!(u8; 9, u16; 5, u32; 3, u8; 3, u16; 2, bool; 4, NonZeroU8; 5, u32; 1, u64; 0);
/// Structs with padding at every place.
#[macro_export]
macro_rules! st {
    ($($(#[$m:meta])* $n:ident { $($f:ident: $t:ty),* })*) => {$(
        #[stabby::stabby(no_opt)]
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq, Hash)]
        pub struct $n { $(pub $f: $t),* }
        impl Payload for $n {
            fn gen(r: &mut Rng) -> Self { Self { $($f: Payload::gen(r)),* } }
            fn audit(&self) { $(self.$f.audit();)* }
            fn alter(&mut self, r: &mut Rng) {
                let mut _n = 0;
                $(_n += 1; let _ = stringify!($f);)*
                let k = r.idx(_n);
                let mut _i = 0;
                $(if _i == k { self.$f.alter(r) } _i += 1;)*
            }
        }
    )*};
}
st! {
    PadTail { a: u64, b: u8 }
    PadMid { a: u8, b: u64 }
    PadMid4 { a: u8, b: u32, c: u8 }
    PadTwice { a: u16, b: u8, c: u64, d: u8, e: u16 }
    PadNest { a: PadMid4, b: u64, c: PadTail }
    Flags { a: bool, b: bool, c: u8 }
    FlagWide { a: u64, b: bool, c: u8 }
    Full { a: u64, b: u32, c: u32 }
    Full8 { a: u8, b: u8, c: u8 }
    Owner { a: u8, b: crate::track::Tracked, c: bool }
    OwnerBox { a: u8, b: stabby::string::String }
    Wide { a: u128, b: u8 }
    RefPad { a: &'static u32, b: u8 }
    NzPad { a: NonZeroU8, b: u32 }
}
#[stabby::stabby]
#[repr(u8)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Small {
    A,
    B,
    C,
}
impl Payload for Small {
    fn gen(r: &mut Rng) -> Self {
        [Self::A, Self::B, Self::C][r.idx(3)]
    }
}
#[stabby::stabby]
#[repr(i16)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Signed {
    A = -5,
    B = 0,
    C = 300,
    D,
}
impl Payload for Signed {
    fn gen(r: &mut Rng) -> Self {
        [Self::A, Self::B, Self::C, Self::D][r.idx(4)]
    }
}
use stabby::abi::IDeterminantProvider;
impl<O: Payload + IDeterminantProvider<X>, X: Payload> Payload for stabby::result::Result<O, X> {
    fn gen(r: &mut Rng) -> Self {
        if r.bool() {
            Self::Ok(O::gen(r))
        } else {
            Self::Err(X::gen(r))
        }
    }
    fn audit(&self) {
        self.match_ref(O::audit, X::audit)
    }
    fn alter(&mut self, r: &mut Rng) {
        if r.chance(1, 4) {
            *self = Self::gen(r)
        } else {
            let r2 = &mut r.fork();
            self.match_mut_ctx(r2, |r, mut o| o.alter(r), |r, mut e| e.alter(r))
        }
    }
}
impl<T: Payload + IDeterminantProvider<()>> Payload for stabby::option::Option<T>
where
    Self: Clone + PartialEq + core::hash::Hash,
{
    fn gen(r: &mut Rng) -> Self {
        r.chance(2, 3).then(|| T::gen(r)).into()
    }
    fn audit(&self) {
        self.match_ref(T::audit, || ())
    }
    fn alter(&mut self, r: &mut Rng) {
        if r.chance(1, 4) {
            *self = Self::gen(r)
        } else {
            let r2 = &mut r.fork();
            self.match_mut_ctx(r2, |r, mut o| o.alter(r), |_| ())
        }
    }
}
