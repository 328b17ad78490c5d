//! Borrowed views, callbacks, iterators, tuples and conversion guards show exactly the original.
use harness::track::{self, *};
use harness::{fnv, mix, must, same, viol, Case, Group, Rng};
use stabby::boxed::Box as SBox;
use stabby::closure::*;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use stabby::string::String as SString;
use stabby::sync::Arc as SArc;
use stabby::vec::Vec as SVec;
use stabby::{tuple as t, AccessAs};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
// --------------------------------------------------------------- closures
/// What an argument or a result carries.
trait K: Sized {
    fn of(x: u64) -> Self;
    fn k(&self) -> u64;
}
macro_rules! k { ($($t:ty: $of:expr, $k:expr;)*) => { $(impl K for $t {
    fn of(x: u64) -> Self { let f: fn(u64) -> $t = $of; f(x) }
    fn k(&self) -> u64 { let f: fn(&$t) -> u64 = $k; f(self) }
})* } }
type BT = SBox<Tracked>;
type OT = SOption<u16>;
type FnP = extern "C" fn(u64) -> u64;
type Pair = t::Tuple2<u8, u64>;
type Un = ();
type TP = t::Tuple2<Tracked, SString>;
extern "C" fn dbl(x: u64) -> u64 {
    x.wrapping_mul(2)
}
extern "C" fn inc(x: u64) -> u64 {
    x.wrapping_add(1)
}
k! {
    u8: |x| x as u8, |x| *x as u64;
    u16: |x| x as u16, |x| *x as u64;
    u64: |x| x, |x| *x;
    u128: |x| x as u128 * 0x1_0000_0001_0000_0001, |x| *x as u64 ^ (*x >> 64) as u64;
    i32: |x| x as i32, |x| *x as u64;
    f32: |x| x as u16 as f32, |x| x.to_bits() as u64;
    f64: |x| x as u32 as f64 / 3.0, |x| x.to_bits();
    bool: |x| x & 1 == 1, |x| *x as u64;
    (): |_| (), |_| 0;
    Tracked: |x| Tracked::make(x as u32), |x| x.key() as u64;
    TrackedBig: |x| TrackedBig::make(x as u32), |x| x.key() as u64;
    TrackedAligned: |x| TrackedAligned::make(x as u32), |x| x.key() as u64;
    BT: |x| SBox::new(Tracked::make(x as u32)), |x| x.key() as u64;
    SString: |x| SString::from(format!("{x:x}").as_str()), |x| fnv(x.as_bytes());
    OT: |x| if x & 1 == 1 { SOption::Some((x >> 1) as u16) } else { SOption::None() }, |x| x.as_ref().map_or(u64::MAX, |x| *x as u64);
    FnP: |x| if x & 1 == 1 { dbl } else { inc }, |x| x(20);
    TP: |x| t::Tuple2(Tracked::of(x), SString::of(x >> 3)), |x| mix(x.0.k(), x.1.k());
    Pair: |x| t::Tuple2(x as u8, x >> 8), |x| x.0 as u64 ^ x.1 << 8;
}
thread_local! { static SEEN: RefCell<Vec<Vec<u64>>> = const { RefCell::new(vec![]) } }
fn enter<O: K>(st: &Tracked, n: u64, args: &[u64]) -> O {
    let mut v = vec![st.key() as u64, n];
    v.extend_from_slice(args);
    let r = v.iter().fold(17, |a, x| mix(a, *x));
    SEEN.with(|s| s.borrow_mut().push(v));
    O::of(r)
}
#[track_caller]
fn check<O: K>(c: &mut Case, kind: u64, st: u64, n: u64, args: &[u64], got: &O) {
    let mut v = vec![st, n];
    v.extend_from_slice(args);
    let r = v.iter().fold(17, |a, x| mix(a, *x));
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    must!("callback-arguments", seen == [v.clone()], "kind {kind}: the closure saw {seen:?} where {v:?} was sent");
    let want = O::of(r).k();
    must!("callback-result", got.k() == want, "kind {kind}: the call returned {:#x}, the closure {want:#x}", got.k());
    c.ev(r);
}
macro_rules! arity { ($f:ident, $n:expr, $($a:ident: $t:ident),*) => {
    #[allow(unused_mut, unused_variables, clippy::too_many_arguments)]
    fn $f<O: K + 'static>(c: &mut Case) {
        let kind = c.rng.below(12);
        let reps = c.rng.range(0, 4) as u64;
        let key = c.rng.below(1 << 30);
        let st = Tracked::make(key as u32);
        c.ev(kind);
        c.log(|| format!("{} arguments, kind {kind}, {reps} calls -> {}", $n, std::any::type_name::<O>()));
        SEEN.with(|s| s.borrow_mut().clear());
        macro_rules! call { ($i:expr, $call:expr) => {{
            let mut x = vec![];
            $(let $a = { let k = c.rng.next(); let a = $t::of(k); x.push(a.k()); a };)*
            let mut call = $call;
            let got: O = call($($a),*);
            check(c, kind, key, $i, &x, &got);
        }} }
        macro_rules! fun { () => { move |$($a: $t),*| enter::<O>(&st, 0, &[$($a.k()),*]) } }
        macro_rules! funmut { () => { { let mut n = 0; move |$($a: $t),*| { n += 1; enter::<O>(&st, n, &[$($a.k()),*]) } } } }
        macro_rules! once { () => { move |$($a: $t),*| { let st = st; enter::<O>(&st, 0, &[$($a.k()),*]) } } }
        match kind {
            0 => { let f: stabby::dynptr!(SBox<dyn Fn($($t),*) -> O>) = SBox::new(fun!()).into(); for _ in 0..reps { call!(0, |$($a),*| f.call($($a),*)) } }
            1 => { let f: stabby::dynptr!(SBox<dyn Fn($($t),*) -> O + Send + Sync>) = SBox::new(fun!()).into(); for _ in 0..reps { call!(0, |$($a),*| f.call($($a),*)) } }
            2 => { let mut f: stabby::dynptr!(SBox<dyn FnMut($($t),*) -> O>) = SBox::new(funmut!()).into(); for i in 0..reps { call!(i + 1, |$($a),*| f.call_mut($($a),*)) } }
            3 => { let mut f: stabby::dynptr!(SBox<dyn FnMut($($t),*) -> O + Send>) = SBox::new(funmut!()).into(); for i in 0..reps { call!(i + 1, |$($a),*| f.call_mut($($a),*)) } }
            4 => { let f: stabby::dynptr!(SBox<dyn FnOnce($($t),*) -> O>) = SBox::new(once!()).into(); call!(0, |$($a),*| f.call_once($($a),*)); same!("callback-state", track::live(), 0) }
            5 => { let f: stabby::dynptr!(SBox<dyn FnOnce($($t),*) -> O + Send + Sync>) = SBox::new(once!()).into(); call!(0, |$($a),*| f.call_once($($a),*)); }
            6 => { let f: stabby::dynptr!(SBox<dyn FnOnce($($t),*) -> O + Send>) = SBox::new(once!()).into(); same!("callback-state", track::live(), 1); drop(f); }
            7 => { let f: stabby::dynptr!(SArc<dyn Fn($($t),*) -> O>) = SArc::new(fun!()).into(); let g = f.clone(); for i in 0..reps { if i & 1 == 0 { call!(0, |$($a),*| f.call($($a),*)) } else { call!(0, |$($a),*| g.call($($a),*)) } } drop(f); same!("callback-state", track::live(), 1); call!(0, |$($a),*| g.call($($a),*)); }
            8 => { let k = fun!(); { let f: stabby::dynptr!(&'_ dyn Fn($($t),*) -> O) = (&k).into(); for _ in 0..reps { call!(0, |$($a),*| f.call($($a),*)) } } call!(0, |$($a),*| k($($a),*)); }
            9 => { let mut k = funmut!(); { let mut f: stabby::dynptr!(&'_ mut dyn FnMut($($t),*) -> O) = (&mut k).into(); for i in 0..reps { call!(i + 1, |$($a),*| f.call_mut($($a),*)) } } call!(reps + 1, |$($a),*| k($($a),*)); }
            10 => { // a wrapped closure, wrapped again
                let f: stabby::dynptr!(SBox<dyn Fn($($t),*) -> O>) = SBox::new(fun!()).into();
                let g: stabby::dynptr!(SBox<dyn FnOnce($($t),*) -> O>) = SBox::new(move |$($a: $t),*| f.call($($a),*)).into();
                if reps > 0 { call!(0, |$($a),*| g.call_once($($a),*)) }
            }
            _ => { // FnOnce from something callable many times
                let mut k = funmut!();
                call!(1, |$($a),*| k($($a),*));
                let f: stabby::dynptr!(SBox<dyn FnOnce($($t),*) -> O>) = SBox::new(k).into();
                call!(2, |$($a),*| f.call_once($($a),*));
            }
        }
        track::assert_all_dropped("callback-leak");
    }
} }
arity!(f0, 0,);
arity!(f1, 1, a0: Tracked);
arity!(f2, 2, a0: u8, a1: SString);
arity!(f3, 3, a0: u64, a1: u64, a2: BT);
arity!(f4, 4, a0: f32, a1: u128, a2: bool, a3: OT);
arity!(f5, 5, a0: u16, a1: u16, a2: u16, a3: FnP, a4: f64);
arity!(f6, 6, a0: Tracked, a1: Tracked, a2: u8, a3: i32, a4: u64, a5: Pair);
arity!(f7, 7, a0: u8, a1: u64, a2: u8, a3: u128, a4: f64, a5: Tracked, a6: bool);
arity!(f8, 8, a0: TrackedBig, a1: u8, a2: u8, a3: u8, a4: SString, a5: Un, a6: u64, a7: Tracked);
arity!(f9, 9, a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: TrackedAligned);
#[allow(non_camel_case_types)]
fn closures<O: K + 'static>(c: &mut Case) {
    track::reset();
    for _ in 0..c.scale(8, 3) {
        let f: fn(&mut Case) = [f0::<O>, f1::<O>, f2::<O>, f3::<O>, f4::<O>, f5::<O>, f6::<O>, f7::<O>, f8::<O>, f9::<O>][c.rng.idx(10)];
        f(c);
    }
    c.nontrivial = true;
}
// -------------------------------------------------------------- iterators
/// An iterator of modelled items, with an arbitrary (valid) size hint, which may go on after its end.
struct Src<T> {
    left: std::collections::VecDeque<Option<T>>,
    hint: (usize, Option<usize>),
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.left.pop_front().flatten()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn iterators<T: K + stabby::abi::IDeterminantProvider<()> + 'static>(c: &mut Case) {
    track::reset();
    let n = c.rng.idx(c.scale(30, 8));
    let mut model = vec![];
    let mut left = std::collections::VecDeque::new();
    for _ in 0..n {
        if c.rng.chance(1, 6) {
            model.push(None);
            left.push_back(None);
        } else {
            let x = T::of(c.rng.next());
            model.push(Some(x.k()));
            left.push_back(Some(x));
        }
    }
    let hint = (c.rng.edgy() as usize, if c.rng.bool() { Some(c.rng.edgy() as usize) } else { None });
    let ptr = c.rng.below(4);
    // collecting may allocate what the hint promises
    let hint = if ptr == 3 { (c.rng.idx(40), hint.1) } else { hint };
    let mut src = Src { left, hint };
    let mut model = model.into_iter();
    c.log(|| format!("{n} items of {}, pointer {ptr}", std::any::type_name::<T>()));
    let mut drive = |c: &mut Case, i: &mut dyn Iterator<Item = T>| {
        for _ in 0..c.rng.idx(n + 4) {
            same!("iterator-hint", i.size_hint(), hint);
            match c.rng.below(5) {
                0 => {
                    let k = c.rng.idx(3);
                    let w = model.by_ref().map_while(|x| x).nth(k);
                    same!("iterator-nth", i.nth(k).map(|x| x.k()), w);
                }
                1 => {
                    let k = c.rng.idx(4);
                    let w: Vec<u64> = model.by_ref().map_while(|x| x).take(k).collect();
                    let g: Vec<u64> = (&mut *i).take(k).map(|x| x.k()).collect();
                    same!("iterator-take", g, w);
                }
                _ => {
                    let w = model.next().flatten();
                    same!("iterator-next", i.next().map(|x| x.k()), w);
                    c.ev(w.unwrap_or(1));
                }
            }
        }
    };
    match ptr {
        0 => {
            let mut d: stabby::dynptr!(SBox<dyn stabby::abi::iter::Iterator<Item = T>>) = SBox::new(src).into();
            drive(c, &mut d);
        }
        1 => {
            let mut d: stabby::dynptr!(&'_ mut dyn stabby::abi::iter::Iterator<Item = T>) = (&mut src).into();
            drive(c, &mut d);
            drop(d);
            // what was not taken is still there
            let g: Vec<_> = src.left.iter().map(|x| x.as_ref().map(|x| x.k())).collect();
            same!("iterator-rest", g, model.collect::<Vec<_>>());
            drop(src);
        }
        2 => {
            // wrapped twice
            let d: stabby::dynptr!(SBox<dyn stabby::abi::iter::Iterator<Item = T>>) = SBox::new(src).into();
            let mut d: stabby::dynptr!(SBox<dyn stabby::abi::iter::Iterator<Item = T>>) = SBox::new(d).into();
            drive(c, &mut d);
        }
        _ => {
            let d: stabby::dynptr!(SBox<dyn stabby::abi::iter::Iterator<Item = T> + 'static>) = SBox::new(src).into();
            let g: Vec<_> = d.map(|x| x.k()).collect();
            let w: Vec<_> = model.map_while(|x| x).collect();
            same!("iterator-collect", g, w);
            c.ev(h(&w));
        }
    }
    track::assert_all_dropped("iterator-leak");
    c.nontrivial = n > 0;
}
// ----------------------------------------------------------------- tuples
macro_rules! tup { ($f:ident, $t:ident, $n:expr, $($i:tt: $e:ty),*) => { fn $f(c: &mut Case) {
    let mk = |r: &mut Rng| -> ($($e,)*) { ($({ let x = if r.chance(1, 3) { r.below(2) } else { r.next() }; <$e as K>::of(x) },)*) };
    let (a, b) = (mk(&mut c.rng), if c.rng.chance(1, 3) { None } else { Some(mk(&mut c.rng)) });
    let b = b.unwrap_or_else(|| a.clone());
    let (x, y) = (t::$t::from(a.clone()), t::$t::from(b.clone()));
    $(same!("tuple-field", x.$i.k(), a.$i.k(), "{}.{}", $n, $i);)*
    same!("tuple-eq", x == y, a == b);
    same!("tuple-cmp", (x.cmp(&y), x.partial_cmp(&y), x < y), (a.cmp(&b), a.partial_cmp(&b), a < b), "{}", $n);
    same!("tuple-hash", h(&x), h(&a));
    same!("tuple-clone", x.clone() == x, true);
    let d = format!("{a:?}");
    let d = if $n == 1 { d.replace(",)", ")") } else { d };
    same!("tuple-debug", format!("{x:?}"), format!("Tuple{}{}", $n, d));
    let z: t::$t<$($e),*> = Default::default();
    let zs: ($($e,)*) = Default::default();
    let z: ($($e,)*) = z.into();
    must!("tuple-default", z == zs);
    let back: ($($e,)*) = x.into();
    must!("tuple-back", back == a, "{back:?} {a:?}");
    c.ev(h(&a));
    c.log(|| format!("{:?}", a));
} } }
tup!(t1, Tuple1, 1, 0: SString);
tup!(t2, Tuple2, 2, 0: u8, 1: u8);
tup!(t3, Tuple3, 3, 0: u64, 1: u8, 2: bool);
tup!(t4, Tuple4, 4, 0: u8, 1: SString, 2: u8, 3: u128);
tup!(t5, Tuple5, 5, 0: u16, 1: u16, 2: u16, 3: u16, 4: u16);
tup!(t6, Tuple6, 6, 0: bool, 1: u64, 2: bool, 3: u64, 4: bool, 5: u64);
tup!(t7, Tuple7, 7, 0: u8, 1: i32, 2: u8, 3: i32, 4: (), 5: SString, 6: u8);
tup!(t8, Tuple8, 8, 0: u8, 1: u8, 2: u8, 3: u8, 4: u8, 5: u8, 6: u8, 7: u8);
tup!(t9, Tuple9, 9, 0: u64, 1: u8, 2: u64, 3: u8, 4: u64, 5: u8, 6: u64, 7: u8, 8: u16);
tup!(t10, Tuple10, 10, 0: u8, 1: u16, 2: u64, 3: bool, 4: u128, 5: u8, 6: u16, 7: i32, 8: bool, 9: u8);
tup!(t12, Tuple12, 12, 0: u8, 1: u16, 2: u64, 3: bool, 4: i32, 5: u8, 6: u16, 7: i32, 8: bool, 9: u8, 10: SString, 11: u64);
fn big_tuples(c: &mut Case) {
    let mut k = || c.rng.next();
    let a = (k(), k() as u8, k() as u16, k() & 1 == 1, k(), k() as u8, k() as u16, k() as i32, k(), k() as u8, k() as u16, k() as i32, k(), k() as u8, k() as u16, k() as i32, k(), k() as u8);
    let x = t::Tuple18::from(a);
    must!("tuple-field", x.0 == a.0 && x.1 == a.1 && x.2 == a.2 && x.3 == a.3 && x.4 == a.4 && x.5 == a.5 && x.6 == a.6 && x.7 == a.7 && x.8 == a.8 && x.9 == a.9);
    must!("tuple-field", x.10 == a.10 && x.11 == a.11 && x.12 == a.12 && x.13 == a.13 && x.14 == a.14 && x.15 == a.15 && x.16 == a.16 && x.17 == a.17);
    let b: (u64, u8, u16, bool, u64, u8, u16, i32, u64, u8, u16, i32, u64, u8, u16, i32, u64, u8) = x.into();
    must!("tuple-back", b.0 == a.0 && b.17 == a.17 && b.9 == a.9 && b.15 == a.15 && b.3 == a.3);
    macro_rules! all { (@u $i:tt) => { u64 }; ($($i:tt)*) => {{
        let v: Vec<u64> = (0..32).map(|_| k()).collect();
        let s = ($(v[$i],)*);
        let x = t::Tuple32::from(s);
        $(same!("tuple-field", x.$i, v[$i]);)*
        let y = x;
        must!("tuple-eq", x == y && x.cmp(&y) == std::cmp::Ordering::Equal);
        let b: ($(all!(@u $i),)*) = x.into();
        $(same!("tuple-back", b.$i, v[$i]);)*
    }} }
    all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    t::Tuple0::from(());
    c.ev(a.0);
}
fn tuples(c: &mut Case) {
    track::reset();
    for _ in 0..c.scale(8, 3) {
        let f: fn(&mut Case) = [t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t12, big_tuples][c.rng.idx(12)];
        f(c);
    }
    // ownership through the conversion
    let (a, b) = (Tracked::make(1), TrackedBig::make(2));
    let x = t::Tuple3::from((a, 7u8, b));
    let (a, s, b) = x.into();
    same!("tuple-owned", (a.key(), s, b.key()), (1, 7, 2));
    drop((a, b));
    track::assert_all_dropped("tuple-leak");
    c.nontrivial = true;
}
// ------------------------------------------------------------------ views
fn views<T: Elem>(c: &mut Case) {
    track::reset();
    let n = if c.rng.chance(1, 6) { 0 } else { c.rng.idx(c.scale(60, 12)) };
    let mut keys: Vec<u32> = (0..n).map(|_| if T::DISTINCT { c.rng.below(200) as u32 } else { 0 }).collect();
    let mut v: Vec<T> = keys.iter().map(|k| T::make(*k)).collect();
    v.shrink_to_fit();
    c.log(|| format!("{n} of {}", T::NAME));
    fn shows<T: Elem>(s: &[T], p: *const T, keys: &[u32], what: &str) {
        must!("view", s.len() == keys.len(), "{what}: {} elements instead of {}", s.len(), keys.len());
        must!("view-address", s.as_ptr() == p, "{what} is elsewhere");
        for (x, k) in s.iter().zip(keys) {
            same!("view-element", x.key(), if T::DISTINCT { *k } else { x.key() }, "{what}");
        }
    }
    for _ in 0..c.scale(10, 4) {
        let a = c.rng.range(0, n);
        let b = c.rng.range(a, n);
        let w = &keys[a..b];
        let p = v[a..b].as_ptr();
        let op = c.rng.below(9);
        c.ev(op << 32 | (a * 1000 + b) as u64);
        match op {
            0 => shows(&Slice::from(&v[a..b]), p, w, "Slice"),
            1 => shows(Slice::new(&v[a..b]).as_slice(), p, w, "Slice::as_slice"),
            2 => shows(<&[T]>::from(Slice::from(&v[a..b])), p, w, "Slice to &[T]"),
            3 => shows(&Slice::from(&mut v[a..b]), p, w, "Slice from &mut"),
            4 => {
                let s = SliceMut::from(&mut v[a..b]);
                shows(&s, p, w, "SliceMut");
                shows(&Slice::from(s), p, w, "Slice from SliceMut");
            }
            5 => shows(<&[T]>::from(SliceMut::from(&mut v[a..b])), p, w, "SliceMut to &[T]"),
            6 | 7 => {
                // writes reach the original, and nothing else
                let mut s = SliceMut::from(&mut v[a..b]);
                if !s.is_empty() {
                    let i = c.rng.idx(s.len());
                    let k = if T::DISTINCT { c.rng.below(200) as u32 } else { 0 };
                    if op == 6 {
                        s[i] = T::make(k);
                    } else {
                        let m: &mut [T] = s.into();
                        m[i] = T::make(k);
                        m.reverse();
                        keys[a..b][i] = k;
                        keys[a..b].reverse();
                        continue;
                    }
                    shows(&s, p, &{ let mut w = w.to_vec(); w[i] = k; w }, "SliceMut after a write");
                    keys[a..b][i] = k;
                }
            }
            _ => {
                let d = c.rng.range(0, n);
                let e = c.rng.range(d, n);
                let (x, y) = (Slice::from(&v[a..b]), Slice::from(&v[d..e]));
                same!("view-eq", x == y, v[a..b] == v[d..e]);
                same!("view-copy-eq", { let z = x; z == x }, v[a..b] == v[a..b]);
                same!("view-hash", h(&x), h(&v[a..b]));
                same!("view-debug", format!("{x:?}"), format!("{:?}", &v[a..b]));
                same!("view-debug-alt", format!("{x:#?}"), format!("{:#?}", &v[a..b]));
                let mut other: Vec<u8> = (0..3).map(|_| c.rng.below(2) as u8).collect();
                let o2 = other.clone();
                let m = SliceMut::from(other.as_mut_slice());
                same!("viewmut-debug", format!("{m:?}"), format!("{o2:?}"));
                same!("viewmut-hash", h(&m), h(&o2[..]));
                let mut third: Vec<u8> = (0..3).map(|_| c.rng.below(2) as u8).collect();
                let t2 = third.clone();
                same!("viewmut-eq", m == SliceMut::from(third.as_mut_slice()), o2 == t2);
            }
        }
        shows(&v, v.as_ptr(), &keys, "the original");
    }
    drop(v);
    track::assert_all_dropped("view-leak");
    c.nontrivial = n > 0;
}
fn text_views(c: &mut Case) {
    let n = c.rng.idx(20);
    let mut s: String = (0..n).map(|_| *c.rng.pick(&['a', 'é', '字', '🦀', '\0', 'Z'])).collect();
    let bounds: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    for _ in 0..4 {
        let (a, b) = (*c.rng.pick(&bounds), *c.rng.pick(&bounds));
        let (a, b) = (a.min(b), a.max(b));
        let w = s[a..b].to_string();
        let p = s[a..b].as_ptr();
        let mut seen = |g: &str, what: &str| {
            must!("text-view", g.as_bytes() == w.as_bytes() && g.as_ptr() == p, "{what}: {g:?} instead of {w:?}");
        };
        seen(&Str::from(&s[a..b]), "Str");
        seen(Str::new(&s[a..b]).as_str(), "Str::as_str");
        seen(Str::from(&mut s[a..b]).into(), "Str from &mut str");
        seen(StrMut::from(&mut s[a..b]).as_ref(), "StrMut");
        seen(<&str>::from(StrMut::from(&mut s[a..b])), "StrMut to &str");
        seen(Str::from(StrMut::from(&mut s[a..b])).as_ref(), "Str from StrMut");
        let mut m = StrMut::from(&mut s[a..b]);
        m.make_ascii_lowercase();
        let m: &mut str = m.into();
        must!("text-view", m.as_bytes() == w.to_ascii_lowercase().as_bytes());
        must!("text-write", s[a..b] == w.to_ascii_lowercase());
        c.ev(h(&w));
    }
    c.log(|| format!("{s:?}"));
    c.nontrivial = n > 0;
}
// ----------------------------------------------------------------- guards
fn guards(c: &mut Case) {
    track::reset();
    for _ in 0..c.scale(12, 5) {
        let (k, op) = (c.rng.next(), c.rng.below(12));
        c.ev(mix(op, k));
        c.log(|| format!("{op}"));
        match op {
            0 => {
                let mut o: SOption<Tracked> = if k & 1 == 1 { SOption::Some(Tracked::make(k as u32)) } else { SOption::None() };
                let want = (k & 1 == 1).then_some(k as u32);
                same!("guard-shows", o.ref_as::<Option<Tracked>>().as_ref().map(|x| x.key()), want);
                let v = o.mut_as::<Option<Tracked>>().take();
                same!("guard-take", v.map(|x| x.key()), want);
                must!("guard-writes", o.is_none());
                *o.mut_as::<Option<Tracked>>() = Some(Tracked::make(7));
                same!("guard-writes", o.as_ref().map(|x| x.key()).unwrap_or(0), 7);
                drop(o.mut_as::<Option<Tracked>>());
                same!("guard-idle", o.as_ref().map(|x| x.key()).unwrap_or(0), 7);
            }
            1 => {
                type R = Result<Tracked, u8>;
                let mut o: SResult<Tracked, u8> = if k & 1 == 1 { SResult::Ok(Tracked::make(k as u32)) } else { SResult::Err(k as u8) };
                let want = if k & 1 == 1 { Ok(k as u32) } else { Err(k as u8) };
                same!("guard-shows", o.ref_as::<R>().as_ref().map(|x| x.key()).map_err(|x| *x), want);
                {
                    let mut g = o.mut_as::<R>();
                    let e = g.is_err();
                    *g = if e { Ok(Tracked::make(3)) } else { Err(9) };
                }
                same!("guard-writes", o.as_ref().map(|x| x.key()).map_err(|x| *x).ok(), want.err().map(|_| 3));
            }
            2 => {
                let mut x = t::Tuple2(k as u8, k);
                same!("guard-shows", *x.ref_as::<(u8, u64)>(), (k as u8, k));
                x.mut_as::<(u8, u64)>().1 ^= 1;
                same!("guard-writes", (x.0, x.1), (k as u8, k ^ 1));
            }
            3 => {
                let d = std::time::Duration::new(k >> 32, k as u32 % 1_000_000_000);
                let mut x = stabby::time::Duration::from(d);
                same!("guard-shows", *x.ref_as::<std::time::Duration>(), d);
                if let Some(w) = d.checked_add(d) {
                    *x.mut_as::<std::time::Duration>() += d;
                    same!("guard-writes", std::time::Duration::from(x), w);
                }
            }
            4 => {
                let a: Vec<u64> = (0..k % 5).collect();
                let mut s = Slice::from(a.as_slice());
                same!("guard-shows", s.ref_as::<&[u64]>().len(), a.len());
                {
                    let mut g = s.mut_as::<&[u64]>();
                    if !g.is_empty() {
                        *g = &g[1..];
                    }
                }
                same!("guard-writes", &s[..], &a[(!a.is_empty()) as usize..]);
            }
            5 => {
                let a = format!("{k}");
                let mut s = Str::from(a.as_str());
                same!("guard-shows", *s.ref_as::<&str>(), a.as_str());
                *s.mut_as::<&str>() = &a[1..];
                same!("guard-writes", s.as_str(), &a[1..]);
            }
            6 | 7 => {
                // the conversion reallocates: only the mutable guard, which writes back, is sound
                let a = format!("{k}");
                let mut s: SString = a.as_str().into();
                s.mut_as::<String>().push_str("xyz");
                same!("guard-writes", s.as_str(), a + "xyz");
            }
            8 => {
                let mut x = t::Tuple2(Tracked::make(1), SString::from("a"));
                same!("guard-shows", x.ref_as::<(Tracked, SString)>().0.key(), 1);
                x.mut_as::<(Tracked, SString)>().0 = Tracked::make(5);
                same!("guard-writes", (x.0.key(), x.1.as_str()), (5, "a"));
            }
            9 | 10 => {
                // contents that change through a shared reference, or that the guard replaces, or neither
                struct A(u32, Cell<u64>, Tracked, RefCell<SString>);
                struct B(Tracked, Cell<u64>, RefCell<SString>, u32);
                impl From<A> for B {
                    fn from(a: A) -> B {
                        B(a.2, a.1, a.3, a.0)
                    }
                }
                impl From<B> for A {
                    fn from(b: B) -> A {
                        A(b.3, b.1, b.0, b.2)
                    }
                }
                let mut a = A(1, Cell::new(k), Tracked::make(2), RefCell::new("".into()));
                let (mut n, mut x, mut t, mut s) = (1, k, 2, String::new());
                for i in 0..1 + c.rng.below(5) as u32 {
                    let mut g = a.mut_as::<B>();
                    must!("guard-shows", (g.3, g.1.get(), g.0.key()) == (n, x, t) && g.2.borrow().as_str() == s);
                    match c.rng.below(6) {
                        0 => {
                            x ^= 1 << i;
                            g.1.set(x);
                        }
                        1 => {
                            s.push('x');
                            *g.2.borrow_mut() += "x";
                        }
                        2 => {
                            n += 1;
                            g.3 = n;
                        }
                        3 => {
                            t = 10 + i;
                            g.0 = Tracked::make(t);
                        }
                        4 => {
                            let b = |v: &B| v.1.replace(k ^ 7);
                            same!("guard-shows", b(&g), x);
                            x = k ^ 7;
                        }
                        _ => {}
                    }
                    drop(g);
                    must!("guard-writes", (a.0, a.1.get(), a.2.key()) == (n, x, t) && a.3.borrow().as_str() == s, "the owner holds {}, {}, {}, {:?}", a.0, a.1.get(), a.2.key(), a.3);
                }
            }
            _ => {
                let mut n: SOption<u64> = SOption::Some(k);
                *n.mut_as::<Option<u64>>() = None;
                must!("guard-writes", n.is_none());
                n.mut_as::<Option<u64>>().replace(k ^ 5);
                same!("guard-writes", n.as_ref().map(|x| *x).unwrap_or(0), k ^ 5);
            }
        }
        track::assert_all_dropped("guard-leak");
    }
    c.nontrivial = true;
}
fn kf_guard_reallocates() {
    let s: SString = "some text that lives on the heap".into();
    let before = s.as_str().to_string();
    let g = s.ref_as::<String>();
    same!("guard-shows", *g, before);
    same!("guard-original", s.as_str(), before.as_str());
    drop(g);
    same!("guard-original", s.as_str(), before.as_str());
    drop(s);
    let _ = viol_never;
}
fn viol_never() {
    viol!("never", "")
}
fn main() {
    let _ = |v: SVec<u8>| v;
    let groups: &[Group] = &[
        ("call-u64", 2, closures::<u64>),
        ("call-unit", 1, closures::<()>),
        ("call-tracked", 2, closures::<Tracked>),
        ("call-text", 1, closures::<SString>),
        ("call-big", 1, closures::<TrackedBig>),
        ("call-wide", 1, closures::<u128>),
        ("call-float", 1, closures::<f64>),
        ("iter-u8", 1, iterators::<u8>),
        ("iter-u64", 1, iterators::<u64>),
        ("iter-bool", 1, iterators::<bool>),
        ("iter-tracked", 2, iterators::<Tracked>),
        ("iter-text", 1, iterators::<SString>),
        ("iter-box", 1, iterators::<BT>),
        ("iter-pair", 1, iterators::<TP>),
        ("iter-option", 1, iterators::<OT>),
        ("tuples", 2, tuples),
        ("view-u8", 1, views::<u8>),
        ("view-u64", 1, views::<u64>),
        ("view-tracked", 1, views::<Tracked>),
        ("view-aligned", 1, views::<TrackedAligned>),
        ("view-zst", 1, views::<Zst>),
        ("view-text", 1, text_views),
        ("guards", 2, guards),
    ];
    harness::run_suite(groups, &[("guard-reallocates", kf_guard_reallocates)]);
}
