//! Narrow-width and restricted integers against exact arithmetic.
use harness::{expect_panic, must, same, viol, Case, Group};
use stabby::abi::num as n;
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
trait Fmt: fmt::Debug + fmt::Display + fmt::LowerHex + fmt::UpperHex + fmt::LowerExp + fmt::UpperExp + fmt::Binary + fmt::Octal {}
impl<T: fmt::Debug + fmt::Display + fmt::LowerHex + fmt::UpperHex + fmt::LowerExp + fmt::UpperExp + fmt::Binary + fmt::Octal> Fmt for T {}
fn formats(x: &dyn Fmt) -> String {
    format!("{x}|{x:?}|{x:x}|{x:X}|{x:e}|{x:E}|{x:b}|{x:o}|{x:#010x}|{x:+}|{x:>9}")
}
enum R {
    Refused,
    N(i128),
    B(bool),
    O(std::cmp::Ordering),
    H(u64, u64),
    F(Box<dyn Fmt>, Box<dyn Fmt>),
}
struct T {
    name: &'static str,
    bits: u32,
    base: u32,
    signed: bool,
    /// (operation, a, b as the base type's bits) -> result, numbers as the base type's value
    run: fn(u8, i128, i128) -> R,
}
macro_rules! common {
    ($t:ident, $b:ident, $op:expr, $a:expr, $c:expr) => {{
        let (op, a, b) = ($op, $a as $b, $c as $b);
        if op == 20 {
            return R::N(n::$t::MAX.get() as i128);
        }
        if op == 21 {
            return R::N(n::$t::MIN.get() as i128);
        }
        if op == 22 {
            return R::N(<n::$t as Default>::default().get() as i128);
        }
        let Some(x) = n::$t::new(a) else { return R::Refused };
        match op {
            0 => return R::N(x.get() as i128),
            1 => return R::F(Box::new(x), Box::new(a)),
            6 => return R::N((x & b).get() as i128),
            8 => {
                let mut x = x;
                x &= b;
                return R::N(x.get() as i128);
            }
            _ => {}
        }
        let Some(y) = n::$t::new(b) else { return R::Refused };
        match op {
            2 => R::B(x == y),
            3 => R::O(x.cmp(&y)),
            4 => R::O(x.partial_cmp(&y).unwrap()),
            5 => R::H(h(&x), h(&y)),
            7 => R::N((x & y).get() as i128),
            9 => {
                let mut x = x;
                x &= y;
                R::N(x.get() as i128)
            }
            10 => R::N((x | y).get() as i128),
            11 => {
                let mut x = x;
                x |= y;
                R::N(x.get() as i128)
            }
            // equality after a computation sees no stale bits
            12 => R::B((x | y) == n::$t::new((x | y).get()).unwrap() && (x & y) == n::$t::new((x & y).get()).unwrap() && (x & b) == n::$t::new((x & b).get()).unwrap()),
            _ => R::F(Box::new(x & y), Box::new((x & y).get())),
        }
    }};
}
macro_rules! unsigned {
    ($($t:ident $bits:literal $b:ident $bb:literal),*) => { &[$(T { name: stringify!($t), bits: $bits, base: $bb, signed: false, run: |op, a, c| {
        if op >= 30 {
            let (a, b) = (a as $b, c as $b);
            let Some(x) = n::$t::new(a) else { return R::Refused };
            match op {
                30 => return R::N((x | b) as i128),
                31 => return R::N((x - b).get() as i128),
                _ => {}
            }
            let Some(y) = n::$t::new(b) else { return R::Refused };
            return match op {
                32 => R::N((x + y) as i128),
                33 => R::N((x - y).get() as i128),
                _ => R::B({ let d = x - y; d == n::$t::new(d.get()).unwrap() }),
            };
        }
        common!($t, $b, op, a, c)
    } }),*] };
}
macro_rules! signed {
    ($($t:ident $bits:literal $b:ident $bb:literal),*) => { &[$(T { name: stringify!($t), bits: $bits, base: $bb, signed: true, run: |op, a, c| {
        if op >= 30 { return R::Refused }
        common!($t, $b, op, a, c)
    } }),*] };
}
static US: &[T] = unsigned!(u1 1 u8 8, u2 2 u8 8, u3 3 u8 8, u4 4 u8 8, u5 5 u8 8, u6 6 u8 8, u7 7 u8 8, u9 9 u16 16, u10 10 u16 16, u11 11 u16 16, u12 12 u16 16, u13 13 u16 16, u14 14 u16 16, u15 15 u16 16, u17 17 u32 32, u18 18 u32 32, u19 19 u32 32, u20 20 u32 32, u21 21 u32 32, u22 22 u32 32, u23 23 u32 32, u24 24 u32 32, u25 25 u32 32, u26 26 u32 32, u27 27 u32 32, u28 28 u32 32, u29 29 u32 32, u30 30 u32 32, u31 31 u32 32, u33 33 u64 64, u34 34 u64 64, u35 35 u64 64, u36 36 u64 64, u37 37 u64 64, u38 38 u64 64, u39 39 u64 64, u40 40 u64 64, u41 41 u64 64, u42 42 u64 64, u43 43 u64 64, u44 44 u64 64, u45 45 u64 64, u46 46 u64 64, u47 47 u64 64, u48 48 u64 64, u49 49 u64 64, u50 50 u64 64, u51 51 u64 64, u52 52 u64 64, u53 53 u64 64, u54 54 u64 64, u55 55 u64 64, u56 56 u64 64, u57 57 u64 64, u58 58 u64 64, u59 59 u64 64, u60 60 u64 64, u61 61 u64 64, u62 62 u64 64, u63 63 u64 64, u65 65 u128 128, u66 66 u128 128, u67 67 u128 128, u68 68 u128 128, u69 69 u128 128, u70 70 u128 128, u71 71 u128 128, u72 72 u128 128, u73 73 u128 128, u74 74 u128 128, u75 75 u128 128, u76 76 u128 128, u77 77 u128 128, u78 78 u128 128, u79 79 u128 128, u80 80 u128 128, u81 81 u128 128, u82 82 u128 128, u83 83 u128 128, u84 84 u128 128, u85 85 u128 128, u86 86 u128 128, u87 87 u128 128, u88 88 u128 128, u89 89 u128 128, u90 90 u128 128, u91 91 u128 128, u92 92 u128 128, u93 93 u128 128, u94 94 u128 128, u95 95 u128 128, u96 96 u128 128, u97 97 u128 128, u98 98 u128 128, u99 99 u128 128, u100 100 u128 128, u101 101 u128 128, u102 102 u128 128, u103 103 u128 128, u104 104 u128 128, u105 105 u128 128, u106 106 u128 128, u107 107 u128 128, u108 108 u128 128, u109 109 u128 128, u110 110 u128 128, u111 111 u128 128, u112 112 u128 128, u113 113 u128 128, u114 114 u128 128, u115 115 u128 128, u116 116 u128 128, u117 117 u128 128, u118 118 u128 128, u119 119 u128 128, u120 120 u128 128, u121 121 u128 128, u122 122 u128 128, u123 123 u128 128, u124 124 u128 128, u125 125 u128 128, u126 126 u128 128, u127 127 u128 128);
static IS: &[T] = signed!(i1 1 i8 8, i2 2 i8 8, i3 3 i8 8, i4 4 i8 8, i5 5 i8 8, i6 6 i8 8, i7 7 i8 8, i9 9 i16 16, i10 10 i16 16, i11 11 i16 16, i12 12 i16 16, i13 13 i16 16, i14 14 i16 16, i15 15 i16 16, i17 17 i32 32, i18 18 i32 32, i19 19 i32 32, i20 20 i32 32, i21 21 i32 32, i22 22 i32 32, i23 23 i32 32, i24 24 i32 32, i25 25 i32 32, i26 26 i32 32, i27 27 i32 32, i28 28 i32 32, i29 29 i32 32, i30 30 i32 32, i31 31 i32 32, i33 33 i64 64, i34 34 i64 64, i35 35 i64 64, i36 36 i64 64, i37 37 i64 64, i38 38 i64 64, i39 39 i64 64, i40 40 i64 64, i41 41 i64 64, i42 42 i64 64, i43 43 i64 64, i44 44 i64 64, i45 45 i64 64, i46 46 i64 64, i47 47 i64 64, i48 48 i64 64, i49 49 i64 64, i50 50 i64 64, i51 51 i64 64, i52 52 i64 64, i53 53 i64 64, i54 54 i64 64, i55 55 i64 64, i56 56 i64 64, i57 57 i64 64, i58 58 i64 64, i59 59 i64 64, i60 60 i64 64, i61 61 i64 64, i62 62 i64 64, i63 63 i64 64, i65 65 i128 128, i66 66 i128 128, i67 67 i128 128, i68 68 i128 128, i69 69 i128 128, i70 70 i128 128, i71 71 i128 128, i72 72 i128 128, i73 73 i128 128, i74 74 i128 128, i75 75 i128 128, i76 76 i128 128, i77 77 i128 128, i78 78 i128 128, i79 79 i128 128, i80 80 i128 128, i81 81 i128 128, i82 82 i128 128, i83 83 i128 128, i84 84 i128 128, i85 85 i128 128, i86 86 i128 128, i87 87 i128 128, i88 88 i128 128, i89 89 i128 128, i90 90 i128 128, i91 91 i128 128, i92 92 i128 128, i93 93 i128 128, i94 94 i128 128, i95 95 i128 128, i96 96 i128 128, i97 97 i128 128, i98 98 i128 128, i99 99 i128 128, i100 100 i128 128, i101 101 i128 128, i102 102 i128 128, i103 103 i128 128, i104 104 i128 128, i105 105 i128 128, i106 106 i128 128, i107 107 i128 128, i108 108 i128 128, i109 109 i128 128, i110 110 i128 128, i111 111 i128 128, i112 112 i128 128, i113 113 i128 128, i114 114 i128 128, i115 115 i128 128, i116 116 i128 128, i117 117 i128 128, i118 118 i128 128, i119 119 i128 128, i120 120 i128 128, i121 121 i128 128, i122 122 i128 128, i123 123 i128 128, i124 124 i128 128, i125 125 i128 128, i126 126 i128 128, i127 127 i128 128);

fn trunc(v: i128, bits: u32, signed: bool) -> i128 {
    if bits >= 128 {
        return v;
    }
    if signed {
        v << (128 - bits) >> (128 - bits)
    } else {
        ((v as u128) << (128 - bits) >> (128 - bits)) as i128
    }
}
fn range(t: &T) -> (i128, i128) {
    if t.signed {
        (-1i128 << (t.bits - 1), !(-1i128 << (t.bits - 1)))
    } else {
        (0, (u128::MAX >> (128 - t.bits)) as i128)
    }
}
/// Compares bit patterns of the base type, so that u128 above i128::MAX is compared properly.
fn le(t: &T, a: i128, b: i128) -> bool {
    if t.signed { a <= b } else { a as u128 <= b as u128 }
}
fn one(c: &mut Case, t: &T, op: u8, a: i128, b: i128) {
    let (lo, hi) = range(t);
    let inr = |v: i128| le(t, lo, v) && le(t, v, hi);
    let r = expect_panic(|| (t.run)(op, a, b));
    let what = || format!("{} op {op} on {a}, {b}", t.name);
    c.events += 1;
    let refused = !(20..=22).contains(&op) && (!inr(a) || (!matches!(op, 0 | 1 | 6 | 8 | 30 | 31) && !inr(b)));
    let r = match r {
        Ok(R::Refused) => {
            must!("refused", refused || (t.signed && op >= 30), "{}: a value in range was refused", what());
            return;
        }
        Ok(r) => {
            must!("accepted", !refused, "{}: a value out of range was accepted", what());
            Some(r)
        }
        Err(_) => None,
    };
    // the exact result, None when it is out of the output type's range
    let (exact, in_out): (i128, bool) = match op {
        0 => (a, true),
        6 | 8 => {
            let v = a & b;
            (v, inr(v))
        }
        7 | 9 => (a & b, true),
        10 | 11 => (a | b, true),
        20 => (hi, true),
        21 => (lo, true),
        22 => (0, true),
        30 => (a | b, true),
        31 | 33 => (a.wrapping_sub(b), le(t, b, a)),
        32 => (a.wrapping_add(b), true),
        34 => (0, le(t, b, a)),
        _ => (0, true),
    };
    match r {
        None => must!("panicked", !in_out, "{} panicked: {}", what(), harness::runner::last_panic()),
        Some(R::N(g)) => {
            let want = if in_out { exact } else { trunc(exact, t.bits, t.signed) };
            same!("value", g, want, "{}", what());
        }
        Some(R::B(g)) => match op {
            2 => same!("eq", g, a == b, "{}", what()),
            _ => must!("stale-bits", g, "{}: the result differs from itself rebuilt", what()),
        },
        Some(R::O(g)) => same!("cmp", g, if t.signed { a.cmp(&b) } else { (a as u128).cmp(&(b as u128)) }, "{}", what()),
        Some(R::H(x, y)) => same!("hash", x == y, a == b, "{}", what()),
        Some(R::F(x, y)) => same!("format", formats(&*x), formats(&*y), "{}", what()),
        Some(R::Refused) => unreachable!(),
    }
}
const OPS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 21, 22, 30, 31, 32, 33, 34];
fn ops(t: &T) -> usize {
    if t.signed { OPS.len() - 5 } else { OPS.len() }
}
fn narrow(c: &mut Case, set: &[T]) {
    let t = &set[if cfg!(miri) { c.rng.idx(set.len()) } else { c.idx as usize % set.len() }];
    c.ev(harness::fnv(t.name.as_bytes()));
    c.log(|| format!("{}:", t.name));
    let (lo, hi) = range(t);
    if t.base == 8 && c.rng.chance(1, 4) && !cfg!(miri) {
        // every pair of base values, one operation
        let op = OPS[c.rng.idx(ops(t))];
        c.log(|| format!("every pair, op {op}"));
        for a in 0..256 {
            for b in 0..256 {
                one(c, t, op, trunc(a, 8, t.signed), trunc(b, 8, t.signed));
                if op == 1 || op == 13 {
                    break;
                }
            }
        }
        c.ev(op as u64);
        return;
    }
    for _ in 0..c.scale(60, 30) {
        let mut v = || -> i128 {
            let e = (c.rng.edgy() as i128) << 64 | c.rng.edgy() as i128;
            let x = match c.rng.below(8) {
                0 => lo,
                1 => hi,
                2 => lo.wrapping_sub(1 + c.rng.below(2) as i128),
                3 => hi.wrapping_add(1 + c.rng.below(2) as i128),
                4 => c.rng.edgy() as i64 as i128,
                5 | 6 => trunc(e, t.bits, t.signed),
                _ => e,
            };
            trunc(x, t.base, t.signed)
        };
        let (a, b) = (v(), v());
        let b = if c.rng.chance(1, 6) { a } else { b };
        let op = OPS[c.rng.idx(ops(t))];
        c.ev(op as u64 ^ (a as u64) << 8 ^ (b as u64).rotate_left(40) ^ (a >> 64) as u64 ^ (b >> 60) as u64);
        c.log(|| format!("{op}({a},{b})"));
        one(c, t, op, a, b);
    }
}
macro_rules! restricted {
    ($c:expr, $t:ty, $p:ty, $bad:expr) => {{
        let c: &mut Case = $c;
        let bad: $p = $bad;
        c.ev(harness::fnv(stringify!($t).as_bytes()));
        c.log(|| format!("{}:", stringify!($t)));
        for _ in 0..if cfg!(miri) { 4 } else { 20 } {
            let v = |c: &mut Case| -> $p {
                match c.rng.below(6) {
                    0 => bad,
                    1 => bad.wrapping_add(1),
                    2 => bad.wrapping_sub(1),
                    3 => <$p>::MAX,
                    4 => <$p>::MIN,
                    _ => ((c.rng.edgy() as u128) << 64 | c.rng.edgy() as u128) as $p,
                }
            };
            let (a, b) = (v(c), v(c));
            c.ev(a as u64 ^ (b as u64).rotate_left(32) ^ ((a as u128) >> 64) as u64);
            let x = <$t>::new(a);
            same!("restricted-new", x.is_some(), a != bad, "{} of {a}", stringify!($t));
            same!("restricted-try_from", <$t>::try_from(a).is_ok(), a != bad, "{} of {a}", stringify!($t));
            if let Ok(x) = <$t>::try_from(a) {
                same!("restricted-get", x.get(), a, "{}", stringify!($t));
                same!("restricted-into", <$p>::from(x), a, "{}", stringify!($t));
                let k = unsafe { <$t>::new_unchecked(a) };
                must!("restricted-unchecked", k == x && k.get() == a);
                #[cfg(feature = "serde")]
                {
                    let j = serde_json::to_string(&x).unwrap();
                    same!("restricted-serde", j, serde_json::to_string(&a).unwrap());
                    must!("restricted-serde-back", serde_json::from_str::<$t>(&j).unwrap() == x);
                }
                if let Some(y) = <$t>::new(b) {
                    same!("restricted-eq", x == y, a == b);
                    same!("restricted-cmp", x.cmp(&y), a.cmp(&b), "{} {a} {b}", stringify!($t));
                    same!("restricted-partial_cmp", x.partial_cmp(&y), a.partial_cmp(&b));
                    same!("restricted-hash", h(&x), h(&a));
                    same!("restricted-max", x.max(y).get(), a.max(b));
                }
            } else {
                #[cfg(feature = "serde")]
                must!("restricted-serde-refuse", serde_json::from_str::<$t>(&serde_json::to_string(&a).unwrap()).is_err());
            }
        }
    }};
}
fn non_max(c: &mut Case) {
    match c.idx % 6 {
        0 => restricted!(c, n::NonMaxU8, u8, u8::MAX),
        1 => restricted!(c, n::NonMaxU16, u16, u16::MAX),
        2 => restricted!(c, n::NonMaxU32, u32, u32::MAX),
        3 => restricted!(c, n::NonMaxU64, u64, u64::MAX),
        4 => restricted!(c, n::NonMaxU128, u128, u128::MAX),
        _ => restricted!(c, n::NonMaxUsize, usize, usize::MAX),
    }
}
fn non_x(c: &mut Case) {
    match c.idx % 22 {
        0 => restricted!(c, n::NonXU8<0>, u8, 0),
        1 => restricted!(c, n::NonXU8<72>, u8, 72),
        2 => restricted!(c, n::NonXU8<255>, u8, 255),
        3 => restricted!(c, n::NonXI8<-128>, i8, -128),
        4 => restricted!(c, n::NonXI8<-1>, i8, -1),
        5 => restricted!(c, n::NonXI8<127>, i8, 127),
        6 => restricted!(c, n::NonXU16<{ 0x8000 }>, u16, 0x8000),
        7 => restricted!(c, n::NonXU16<1>, u16, 1),
        8 => restricted!(c, n::NonXI16<{ i16::MIN }>, i16, i16::MIN),
        9 => restricted!(c, n::NonXI16<300>, i16, 300),
        10 => restricted!(c, n::NonXU32<{ u32::MAX }>, u32, u32::MAX),
        11 => restricted!(c, n::NonXU32<{ 1 << 31 }>, u32, 1 << 31),
        12 => restricted!(c, n::NonXI32<-2>, i32, -2),
        13 => restricted!(c, n::NonXI32<{ i32::MAX }>, i32, i32::MAX),
        14 => restricted!(c, n::NonXU64<{ 1 << 40 }>, u64, 1 << 40),
        15 => restricted!(c, n::NonXI64<{ i64::MIN }>, i64, i64::MIN),
        16 => restricted!(c, n::NonXI64<0>, i64, 0),
        17 => restricted!(c, n::NonXU128<{ 1 << 127 }>, u128, 1 << 127),
        18 => restricted!(c, n::NonXI128<{ i128::MIN + 1 }>, i128, i128::MIN + 1),
        19 => restricted!(c, n::NonXI128<-5>, i128, -5),
        20 => restricted!(c, n::NonXUsize<{ usize::MAX - 1 }>, usize, usize::MAX - 1),
        _ => restricted!(c, n::NonXIsize<-72>, isize, -72),
    }
}
/// Every value of the narrow base types.
fn exhaustive(c: &mut Case) {
    macro_rules! all { ($($t:ty, $p:ty, $bad:expr);*) => {$(
        for v in <$p>::MIN..=<$p>::MAX {
            match <$t>::new(v) {
                Some(x) => { must!("restricted-all", v != $bad && x.get() == v, "{} of {v}", stringify!($t)) }
                None => same!("restricted-all", v, $bad),
            }
        }
        c.ev(harness::fnv(stringify!($t).as_bytes()));
    )*} }
    all!(n::NonMaxU8, u8, u8::MAX; n::NonXU8<0>, u8, 0; n::NonXU8<200>, u8, 200; n::NonXI8<-1>, i8, -1; n::NonXI8<100>, i8, 100);
    if !cfg!(miri) {
        all!(n::NonMaxU16, u16, u16::MAX; n::NonXU16<4660>, u16, 4660; n::NonXI16<-4660>, i16, -4660);
        for t in US.iter().chain(IS).filter(|t| t.base <= 16) {
            let (lo, hi) = range(t);
            let (bl, bh) = if t.signed { (-1i128 << (t.base - 1), (1i128 << (t.base - 1)) - 1) } else { (0, (1i128 << t.base) - 1) };
            for v in bl..=bh {
                match (t.run)(0, v, 0) {
                    R::N(g) => must!("narrow-all", g == v && v >= lo && v <= hi, "{} of {v} gave {g}", t.name),
                    R::Refused => must!("narrow-all", v < lo || v > hi, "{} refused {v}", t.name),
                    _ => viol!("narrow-all", "?"),
                }
            }
            c.ev(t.bits as u64);
        }
    }
}
fn main() {
    let groups: &[Group] = &[
        ("unsigned", 4, |c| narrow(c, US)),
        ("signed", 4, |c| narrow(c, IS)),
        ("non-max", 1, non_max),
        ("non-x", 2, non_x),
        ("exhaustive", 1, exhaustive),
    ];
    harness::run_suite(groups, &[]);
}
