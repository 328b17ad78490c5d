//! What the purpose-built shared library exports, as plain functions, and the types both sides share.
use crate::Rng;
use stabby::boxed::Box as SBox;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::slice::Slice;
use stabby::str::Str;
use stabby::string::String as SString;
use stabby::sync::Arc as SArc;
use stabby::tuple::{Tuple2, Tuple3};
use stabby::vec::Vec as SVec;

#[stabby::stabby]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Point {
    pub x: u32,
    pub y: u64,
}
/// Same content as [`Point`], other name.
#[stabby::stabby]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spot {
    pub x: u32,
    pub y: u64,
}
#[stabby::stabby]
#[repr(u8)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plain {
    A,
    B(u32),
    C(u8),
}
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone, Debug, PartialEq)]
pub enum Compact {
    A(u8),
    B(SString),
    C(u16),
}
#[stabby::stabby(checked)]
pub trait Counter {
    extern "C" fn bump(&mut self, by: u32) -> u32;
    extern "C" fn read(&self) -> u32;
}
#[stabby::stabby(checked)]
pub trait Shout {
    extern "C" fn shout(&self, with: SString) -> SString;
}
pub struct Tally(pub u32, pub Option<&'static std::sync::atomic::AtomicI64>);
impl Drop for Tally {
    fn drop(&mut self) {
        if let Some(c) = self.1 {
            c.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        }
    }
}
impl Counter for Tally {
    extern "C" fn bump(&mut self, by: u32) -> u32 {
        self.0 = self.0.wrapping_mul(3).wrapping_add(by);
        self.0
    }
    extern "C" fn read(&self) -> u32 {
        self.0
    }
}
impl Shout for Tally {
    extern "C" fn shout(&self, with: SString) -> SString {
        let mut s = with;
        s += self.0.to_string().as_str();
        s
    }
}
pub type Count = stabby::dynptr!(SBox<dyn Counter>);
pub type CountShout = stabby::dynptr!(SBox<dyn Counter + Shout>);
pub type Callback = extern "C" fn(u32) -> u32;

/// Values of an argument type; two calls with equal sources give equal values.
pub trait Arg {
    fn arg(r: &mut Rng) -> Self;
}
/// What can be seen of a result.
pub trait Obs {
    fn obs(self) -> String;
}
macro_rules! plain { ($($t:ty),*) => { $(impl Obs for $t { fn obs(self) -> String { format!("{self:?}") } })* } }
plain!((), bool, u8, u16, u32, u64, u128, i32, i64, usize, f32, f64, Point, Spot, Plain, Compact, SString, [u8; 5], Option<std::num::NonZeroU32>, Option<&'static u8>);
macro_rules! ints { ($($t:ty),*) => { $(impl Arg for $t { fn arg(r: &mut Rng) -> Self {
    match r.below(8) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => 0, 3 => r.below(20) as $t, _ => ((r.next() as u128) << 64 | r.next() as u128) as $t }
} })* } }
ints!(u8, u16, u32, u64, u128, i32, i64, usize);
impl Arg for bool {
    fn arg(r: &mut Rng) -> Self {
        r.bool()
    }
}
impl Arg for f32 {
    fn arg(r: &mut Rng) -> Self {
        r.below(1 << 20) as f32 / 8.
    }
}
impl Arg for f64 {
    fn arg(r: &mut Rng) -> Self {
        r.below(1 << 30) as f64 / 16.
    }
}
impl Arg for Point {
    fn arg(r: &mut Rng) -> Self {
        Point { x: Arg::arg(r), y: Arg::arg(r) }
    }
}
impl Arg for Spot {
    fn arg(r: &mut Rng) -> Self {
        Spot { x: Arg::arg(r), y: Arg::arg(r) }
    }
}
impl Arg for Plain {
    fn arg(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Plain::A,
            1 => Plain::B(Arg::arg(r)),
            _ => Plain::C(Arg::arg(r)),
        }
    }
}
impl Arg for Compact {
    fn arg(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Compact::A(Arg::arg(r)),
            1 => Compact::B(Arg::arg(r)),
            _ => Compact::C(Arg::arg(r)),
        }
    }
}
impl Arg for SString {
    fn arg(r: &mut Rng) -> Self {
        let n = r.below(30);
        (0..n).map(|_| char::from_u32(97 + r.below(400) as u32).unwrap_or('x')).collect::<String>().as_str().into()
    }
}
impl<T: Arg> Arg for SVec<T> {
    fn arg(r: &mut Rng) -> Self {
        let n = r.below(20);
        (0..n).map(|_| T::arg(r)).collect()
    }
}
impl<T: Obs> Obs for SVec<T> {
    fn obs(self) -> String {
        format!("{:?}", self.into_iter().map(Obs::obs).collect::<Vec<_>>())
    }
}
impl<T: Obs> Obs for SBox<T> {
    fn obs(self) -> String {
        SBox::into_inner(self).obs()
    }
}
impl<T: Arg> Arg for SBox<T> {
    fn arg(r: &mut Rng) -> Self {
        SBox::new(T::arg(r))
    }
}
impl<T: Arg> Arg for SArc<T> {
    fn arg(r: &mut Rng) -> Self {
        SArc::new(T::arg(r))
    }
}
impl<T: Obs + Clone> Obs for SArc<T> {
    fn obs(self) -> String {
        format!("{} {} {}", SArc::strong_count(&self), SArc::weak_count(&self), T::clone(&self).obs())
    }
}
macro_rules! options { ($($t:ty),*) => { $(
impl Arg for SOption<$t> {
    fn arg(r: &mut Rng) -> Self {
        SOption::from(if r.bool() { Some(<$t>::arg(r)) } else { None })
    }
}
impl Obs for SOption<$t> {
    fn obs(self) -> String {
        format!("{:?}", Option::<$t>::from(self))
    }
}
)* } }
options!(u32, u64);
impl Arg for SResult<SString, u8> {
    fn arg(r: &mut Rng) -> Self {
        if r.bool() {
            SResult::Ok(Arg::arg(r))
        } else {
            SResult::Err(Arg::arg(r))
        }
    }
}
impl Obs for SResult<SString, u8> {
    fn obs(self) -> String {
        format!("{:?}", Result::<SString, u8>::from(self))
    }
}
impl Obs for SResult<u8, SString> {
    fn obs(self) -> String {
        format!("{:?}", Result::<u8, SString>::from(self))
    }
}
impl Arg for [u8; 5] {
    fn arg(r: &mut Rng) -> Self {
        std::array::from_fn(|_| Arg::arg(r))
    }
}
impl<A: Arg, B: Arg> Arg for Tuple2<A, B> {
    fn arg(r: &mut Rng) -> Self {
        Tuple2(A::arg(r), B::arg(r))
    }
}
impl Obs for Tuple2<u8, u32> {
    fn obs(self) -> String {
        format!("{}/{}", self.0, self.1)
    }
}
impl Obs for Tuple2<u32, u8> {
    fn obs(self) -> String {
        format!("{}/{}", self.0, self.1)
    }
}
impl Obs for Tuple3<u8, u16, u32> {
    fn obs(self) -> String {
        format!("{}/{}/{}", self.0, self.1, self.2)
    }
}
const TEXT: &str = "the quick brown fox jumps over the lazy dog, ein zwölf Boxkämpfer";
impl Arg for Str<'static> {
    fn arg(r: &mut Rng) -> Self {
        let n = r.below(40) as usize;
        Str::new(&TEXT[..n])
    }
}
impl Arg for Slice<'static, u8> {
    fn arg(r: &mut Rng) -> Self {
        let n = r.below(40) as usize;
        Slice::new(&TEXT.as_bytes()[..n])
    }
}
static POINTS: [Point; 3] = [Point { x: 1, y: 2 }, Point { x: 3, y: 1 << 40 }, Point { x: 9, y: 9 }];
impl Arg for &'static Point {
    fn arg(r: &mut Rng) -> Self {
        &POINTS[r.below(3) as usize]
    }
}
static BYTES: [u8; 4] = [1, 200, 3, 4];
impl Arg for Option<&'static u8> {
    fn arg(r: &mut Rng) -> Self {
        BYTES.get(r.below(5) as usize)
    }
}
impl Arg for Option<std::num::NonZeroU32> {
    fn arg(r: &mut Rng) -> Self {
        std::num::NonZeroU32::new(r.below(3) as u32 * 77)
    }
}
extern "C" fn cb_a(x: u32) -> u32 {
    x.rotate_left(3)
}
extern "C" fn cb_b(x: u32) -> u32 {
    !x
}
impl Arg for Callback {
    fn arg(r: &mut Rng) -> Self {
        if r.bool() {
            cb_a
        } else {
            cb_b
        }
    }
}
impl Obs for Callback {
    fn obs(self) -> String {
        format!("{} {}", self(77), self(1 << 31))
    }
}
impl Arg for Count {
    fn arg(r: &mut Rng) -> Self {
        SBox::new(Tally(Arg::arg(r), None)).into()
    }
}
impl Obs for Count {
    fn obs(mut self) -> String {
        format!("{} {} {}", self.read(), self.bump(5), self.bump(1 << 20))
    }
}
impl Obs for CountShout {
    fn obs(mut self) -> String {
        format!("{} {} {} {}", self.read(), self.bump(5), self.shout("hé".into()), self.read())
    }
}

/// The exported functions.  Some have equal signatures, most are near-misses of another one.
pub mod model {
    use super::*;
    pub fn add(a: u32, b: u32) -> u32 {
        a.wrapping_add(b)
    }
    pub fn sub(a: u32, b: u32) -> u32 {
        a.wrapping_sub(b)
    }
    pub fn add_wide_second(a: u32, b: u64) -> u32 {
        a ^ (b >> 7) as u32
    }
    pub fn add_wide_first(a: u64, b: u32) -> u32 {
        b ^ (a >> 9) as u32
    }
    pub fn add_wide_out(a: u32, b: u32) -> u64 {
        (a as u64) << 32 | b as u64
    }
    pub fn add_signed(a: i32, b: u32) -> u32 {
        (a as u32).wrapping_mul(b)
    }
    pub fn one(a: u32) -> u32 {
        !a
    }
    pub fn three(a: u32, b: u32, c: u32) -> u32 {
        a ^ b.rotate_left(1) ^ c.rotate_left(2)
    }
    pub fn none() -> u32 {
        0xC0FFEE
    }
    pub fn nothing(_a: u32, _b: u32) {}
    pub fn empty() {}
    pub fn float(a: f64, b: f32) -> f64 {
        a * 2. + b as f64
    }
    pub fn float_order(a: f32, b: f64) -> f64 {
        b * 3. + a as f64
    }
    pub fn truth(a: bool) -> bool {
        !a
    }
    pub fn truth_byte(a: u8) -> bool {
        a > 3
    }
    pub fn huge(a: u128, b: u8) -> u128 {
        a.rotate_left(b as u32 % 128)
    }
    pub fn text(a: SString) -> SString {
        let mut a = a;
        a += "!";
        a
    }
    pub fn text_len(a: SString) -> usize {
        a.as_str().len()
    }
    pub fn view(a: Str<'static>) -> usize {
        a.bytes().map(|b| b as usize).sum()
    }
    pub fn bytes(a: Slice<'static, u8>) -> usize {
        a.iter().map(|b| *b as usize * 3).sum()
    }
    pub fn list(a: SVec<u32>, b: u32) -> SVec<u32> {
        let mut a = a;
        a.push(b);
        a
    }
    pub fn list_narrow(a: SVec<u16>, b: u32) -> SVec<u16> {
        let mut a = a;
        a.push(b as u16);
        a
    }
    pub fn list_bytes(a: SVec<u8>) -> usize {
        a.len()
    }
    pub fn list_boxes(a: SVec<SBox<u32>>) -> usize {
        a.iter().map(|b| **b as usize).sum()
    }
    pub fn maybe(a: SOption<u32>) -> SOption<u64> {
        Option::<u32>::from(a).map(|a| a as u64 + 1).into()
    }
    pub fn maybe_back(a: SOption<u64>) -> SOption<u32> {
        Option::<u64>::from(a).map(|a| a as u32).into()
    }
    pub fn fallible(a: SResult<SString, u8>) -> SResult<SString, u8> {
        match Result::from(a) {
            Ok(s) => SResult::Err(SString::as_str(&s).len() as u8),
            Err(e) => SResult::Ok(e.to_string().as_str().into()),
        }
    }
    pub fn fallible_turned(a: SResult<SString, u8>) -> SResult<u8, SString> {
        match Result::from(a) {
            Ok(s) => SResult::Err(s),
            Err(e) => SResult::Ok(e),
        }
    }
    pub fn point(a: Point) -> Point {
        Point { x: a.y as u32, y: a.x as u64 }
    }
    pub fn spot(a: Spot) -> Point {
        Point { x: a.x, y: !a.y }
    }
    pub fn spot_out(a: Point) -> Spot {
        Spot { x: !a.x, y: a.y }
    }
    pub fn pointed(a: &'static Point) -> u64 {
        a.y + a.x as u64
    }
    pub fn plain(a: Plain) -> Plain {
        match a {
            Plain::A => Plain::B(4),
            Plain::B(b) => Plain::C(b as u8),
            Plain::C(_) => Plain::A,
        }
    }
    pub fn compact(a: Compact) -> Compact {
        a.match_owned(|a| Compact::C(a as u16 * 3), |b| Compact::A(b.as_str().len() as u8), |c| Compact::B(c.to_string().as_str().into()))
    }
    pub fn callback(f: Callback, x: u32) -> u32 {
        f(f(x))
    }
    pub fn pick(a: bool) -> Callback {
        if a {
            cb_a
        } else {
            cb_b
        }
    }
    pub fn counter(a: u32) -> Count {
        SBox::new(Tally(a, None)).into()
    }
    pub fn counter_shout(a: u32) -> CountShout {
        SBox::new(Tally(a, None)).into()
    }
    pub fn counting(mut a: Count) -> u32 {
        a.bump(3);
        a.read()
    }
    pub fn shared(a: SArc<u64>) -> SArc<u64> {
        SArc::new(a.wrapping_add((SArc::strong_count(&a) == 1) as u64))
    }
    pub fn boxed(a: SBox<u64>) -> SBox<u64> {
        SBox::new(!*a)
    }
    pub fn pair(a: Tuple2<u8, u32>) -> Tuple2<u32, u8> {
        Tuple2(a.1, a.0)
    }
    pub fn pair_back(a: Tuple2<u32, u8>) -> Tuple2<u8, u32> {
        Tuple2(a.1, a.0)
    }
    pub fn triple(a: Tuple2<u8, u32>) -> Tuple3<u8, u16, u32> {
        Tuple3(a.0, a.1 as u16, a.1)
    }
    pub fn array(a: [u8; 5]) -> [u8; 5] {
        let mut a = a;
        a.reverse();
        a
    }
    pub fn nonzero(a: Option<std::num::NonZeroU32>) -> Option<std::num::NonZeroU32> {
        std::num::NonZeroU32::new(a.map_or(3, |a| a.get() - 77))
    }
    pub fn optional(a: Option<&'static u8>) -> u8 {
        a.copied().unwrap_or(42)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn many(a: u8, b: u16, c: u32, d: u64, e: u128, f: f32, g: f64, h: bool, i: i32, j: i64, k: usize, l: u8, m: u16, n: u32) -> u64 {
        let x = [a as u64, b as u64, c as u64, d, e as u64, (e >> 64) as u64, f as u64, g as u64, h as u64, i as u64, j as u64, k as u64, l as u64, m as u64, n as u64];
        x.iter().fold(1, |s, x| crate::mix(s, *x))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn many_last(a: u8, b: u16, c: u32, d: u64, e: u128, f: f32, g: f64, h: bool, i: i32, j: i64, k: usize, l: u8, m: u16, n: u16) -> u64 {
        many(a, b, c, d, e, f, g, h, i, j, k, l, m, n as u32)
    }
}
/// Invokes `$m` with the signatures, in parts small enough for any use.
#[macro_export]
macro_rules! plug_signatures {
    ($m:ident) => {
        $m! {
            add(a: u32, b: u32) -> u32;
            sub(a: u32, b: u32) -> u32;
            add_wide_second(a: u32, b: u64) -> u32;
            add_wide_first(a: u64, b: u32) -> u32;
            add_wide_out(a: u32, b: u32) -> u64;
            add_signed(a: i32, b: u32) -> u32;
            one(a: u32) -> u32;
            three(a: u32, b: u32, c: u32) -> u32;
            none() -> u32;
            nothing(a: u32, b: u32) -> ();
            empty() -> ();
            float(a: f64, b: f32) -> f64;
            float_order(a: f32, b: f64) -> f64;
            truth(a: bool) -> bool;
            truth_byte(a: u8) -> bool;
            huge(a: u128, b: u8) -> u128;
            text(a: SString) -> SString;
            text_len(a: SString) -> usize;
            view(a: Str<'static>) -> usize;
            bytes(a: Slice<'static, u8>) -> usize;
            list(a: SVec<u32>, b: u32) -> SVec<u32>;
            list_narrow(a: SVec<u16>, b: u32) -> SVec<u16>;
            list_bytes(a: SVec<u8>) -> usize;
            list_boxes(a: SVec<SBox<u32>>) -> usize;
            maybe(a: SOption<u32>) -> SOption<u64>;
            maybe_back(a: SOption<u64>) -> SOption<u32>;
            fallible(a: SResult<SString, u8>) -> SResult<SString, u8>;
            fallible_turned(a: SResult<SString, u8>) -> SResult<u8, SString>;
            point(a: Point) -> Point;
            spot(a: Spot) -> Point;
            spot_out(a: Point) -> Spot;
            pointed(a: &'static Point) -> u64;
            plain(a: Plain) -> Plain;
            compact(a: Compact) -> Compact;
            callback(a: Callback, b: u32) -> u32;
            pick(a: bool) -> Callback;
            counter(a: u32) -> Count;
            counter_shout(a: u32) -> CountShout;
            counting(a: Count) -> u32;
            shared(a: SArc<u64>) -> SArc<u64>;
            boxed(a: SBox<u64>) -> SBox<u64>;
            pair(a: Tuple2<u8, u32>) -> Tuple2<u32, u8>;
            pair_back(a: Tuple2<u32, u8>) -> Tuple2<u8, u32>;
            triple(a: Tuple2<u8, u32>) -> Tuple3<u8, u16, u32>;
            array(a: [u8; 5]) -> [u8; 5];
            nonzero(a: Option<std::num::NonZeroU32>) -> Option<std::num::NonZeroU32>;
            optional(a: Option<&'static u8>) -> u8;
            many(a: u8, b: u16, c: u32, d: u64, e: u128, f: f32, g: f64, h: bool, i: i32, j: i64, k: usize, l: u8, m: u16, n: u32) -> u64;
            many_last(a: u8, b: u16, c: u32, d: u64, e: u128, f: f32, g: f64, h: bool, i: i32, j: i64, k: usize, l: u8, m: u16, n: u16) -> u64;
        }
    };
}
