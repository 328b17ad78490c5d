//! What a call hands out by reference stays usable, and exclusive if it is, as long as its type says.
//!
//! References, guards, iterator items and trait objects are held together and used in random interleavings,
//! and the owner is then compared with a plain model. Miri watches the borrows, and the optimised variant
//! whether the compiler was told more than is true.
#![allow(clippy::type_complexity, clippy::mut_from_ref, clippy::too_many_arguments)]
use harness::{fnv, must, same, Case, Group};
use stabby::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet};
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::slice::{Slice, SliceMut};
use stabby::str::StrMut;
use stabby::string::String as SString;
use stabby::sync::{Arc as SArc, ArcSlice, ArcStr};
use stabby::vec::Vec as SVec;
use stabby::abi::{enums::IDeterminantProvider, IPtr, IPtrOwned, IStable};
use stabby::dynptr;
use std::cell::UnsafeCell;
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::task::{Context, Poll, Waker};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
type SingleOrVec<T> = stabby::alloc::single_or_vec::SingleOrVec<T>;

// ------------------------------------------------------------------ values
trait Val: Sized + 'static {
    const NAME: &'static str;
    fn mk(k: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&mut self, k: u32);
}
const KEYS: u64 = 250;
fn key(c: &mut Case) -> u32 {
    c.rng.below(KEYS) as u32
}
impl Val for u8 {
    const NAME: &'static str = "u8";
    fn mk(k: u32) -> Self {
        k as u8
    }
    fn get(&self) -> u32 {
        *self as u32
    }
    fn set(&mut self, k: u32) {
        *self = k as u8
    }
}
impl Val for u64 {
    const NAME: &'static str = "u64";
    fn mk(k: u32) -> Self {
        k as u64 | (k as u64) << 40
    }
    fn get(&self) -> u32 {
        must!("torn", *self >> 40 == *self & 0xff);
        *self as u8 as u32
    }
    fn set(&mut self, k: u32) {
        *self = Self::mk(k)
    }
}
/// Padding after and between the fields, in which a determinant may be kept.
#[stabby::stabby]
#[derive(Clone, Copy)]
pub struct Padded {
    a: u64,
    b: u64,
    c: u64,
    d: u64,
    e: u8,
}
#[stabby::stabby(no_opt)]
#[derive(Clone, Copy)]
pub struct Holed {
    a: u8,
    b: u32,
    c: u8,
}
impl Val for Padded {
    const NAME: &'static str = "Padded";
    fn mk(k: u32) -> Self {
        Padded { a: k as u64, b: !(k as u64), c: k as u64, d: 0, e: k as u8 }
    }
    fn get(&self) -> u32 {
        must!("torn", self.a == !self.b && self.a == self.c && self.d == 0 && self.e as u64 == self.a);
        self.e as u32
    }
    fn set(&mut self, k: u32) {
        *self = Self::mk(k)
    }
}
impl Val for Holed {
    const NAME: &'static str = "Holed";
    fn mk(k: u32) -> Self {
        Holed { a: k as u8, b: k << 4, c: k as u8 }
    }
    fn get(&self) -> u32 {
        must!("torn", self.a == self.c && self.b == (self.a as u32) << 4);
        self.a as u32
    }
    fn set(&mut self, k: u32) {
        *self = Self::mk(k)
    }
}
impl Val for SBox<u32> {
    const NAME: &'static str = "Box";
    fn mk(k: u32) -> Self {
        SBox::new(k)
    }
    fn get(&self) -> u32 {
        **self
    }
    fn set(&mut self, k: u32) {
        **self = k
    }
}
impl Val for SString {
    const NAME: &'static str = "String";
    fn mk(k: u32) -> Self {
        SString::from(format!("{k}").as_str())
    }
    fn get(&self) -> u32 {
        self.as_str().parse().unwrap_or(u32::MAX)
    }
    fn set(&mut self, k: u32) {
        *self = Self::mk(k)
    }
}
impl Val for SOption<u8> {
    const NAME: &'static str = "Option<u8>";
    fn mk(k: u32) -> Self {
        if k == 0 { SOption::None() } else { SOption::Some(k as u8) }
    }
    fn get(&self) -> u32 {
        self.match_ref(|v| *v as u32, || 0)
    }
    fn set(&mut self, k: u32) {
        let done = k != 0 && self.match_mut(|mut g| { *g = k as u8; true }, || false);
        if !done {
            *self = Self::mk(k)
        }
    }
}
impl Val for [u16; 3] {
    const NAME: &'static str = "[u16;3]";
    fn mk(k: u32) -> Self {
        [k as u16, 7, k as u16]
    }
    fn get(&self) -> u32 {
        must!("torn", self[0] == self[2] && self[1] == 7);
        self[0] as u32
    }
    fn set(&mut self, k: u32) {
        *self = Self::mk(k)
    }
}
fn begin<T: Val>(c: &mut Case, what: &str) {
    c.hash = harness::mix(c.hash, fnv(what.as_bytes()) ^ fnv(T::NAME.as_bytes()));
    c.log(|| format!("{what} of {}:", T::NAME));
}

// ------------------------------------------------------------------ exclusive items, held together
/// Takes items in any order, from either end, some skipped; returns them with their positions.
fn take<'a, T: Val, I: DoubleEndedIterator<Item = &'a mut T> + ExactSizeIterator>(c: &mut Case, mut it: I, at: usize) -> Vec<(usize, &'a mut T)> {
    let (mut lo, mut hi) = (at, at + it.len());
    let mut out = vec![];
    loop {
        same!("items-left", it.len(), hi - lo);
        same!("items-left", it.size_hint(), (hi - lo, Some(hi - lo)));
        let op = c.rng.below(9);
        c.ev(op);
        let r = match op {
            0..=3 => it.next().map(|v| (lo, v)),
            4..=6 => it.next_back().map(|v| (hi.wrapping_sub(1), v)),
            7 => {
                let n = c.rng.idx(3);
                let r = it.nth(n);
                lo = (lo + n).min(hi);
                r.map(|v| (lo, v))
            }
            _ => {
                let n = c.rng.idx(3);
                let r = it.nth_back(n);
                hi = hi.saturating_sub(n).max(lo);
                r.map(|v| (hi.wrapping_sub(1), v))
            }
        };
        // Some of those taken are used while the iterator goes on.
        let Some((i, v)) = r else {
            must!("items-missing", lo >= hi, "no item although {} are left", hi - lo);
            return out;
        };
        must!("items-invented", lo < hi);
        if i == lo { lo += 1 } else { hi -= 1 }
        out.push((i, v));
        if c.rng.chance(1, 12) {
            return out;
        }
    }
}
fn hold<T: Val>(c: &mut Case, items: Vec<(usize, &mut T)>, m: &mut [u32]) {
    let mut items = items;
    let steps = c.scale(16, 6);
    for _ in 0..c.rng.idx(steps) {
        if items.is_empty() {
            return;
        }
        let (a, b) = (c.rng.idx(items.len()), c.rng.idx(items.len()));
        let op = c.rng.below(6);
        c.ev(op);
        c.nontrivial = true;
        match op {
            0 => {
                let k = key(c);
                items[a].1.set(k);
                m[items[a].0] = k;
            }
            1 => {
                let k = key(c);
                *items[a].1 = T::mk(k);
                m[items[a].0] = k;
            }
            2 if a != b => {
                // both at once: they must not overlap
                let (lo, hi) = (a.min(b), a.max(b));
                let (l, r) = items.split_at_mut(hi);
                both(l[lo].1, r[0].1);
                m.swap(l[lo].0, r[0].0);
            }
            3 => {
                let k = key(c);
                let old = std::mem::replace(items[a].1, T::mk(k));
                same!("item", old.get(), m[items[a].0]);
                m[items[a].0] = k;
            }
            4 => {
                items.swap_remove(a);
            }
            _ => {
                for (i, v) in &items {
                    same!("item", v.get(), m[*i]);
                }
            }
        }
    }
}
/// The optimiser may assume that the two don't overlap.
#[inline(never)]
fn both<T: Val>(a: &mut T, b: &mut T) {
    let (x, y) = (a.get(), b.get());
    a.set(y);
    b.set(x);
    let (p, q) = (a.get(), b.get());
    same!("items-overlap", (p, q), (y, x));
    std::mem::swap(a, b);
    same!("items-overlap", (a.get(), b.get()), (x, y));
    std::mem::swap(a, b);
}
fn compare<'a, T: Val>(c: &mut Case, it: impl IntoIterator<Item = &'a T>, m: &[u32]) {
    let got: Vec<u32> = it.into_iter().map(|v| v.get()).collect();
    for k in &got {
        c.ev(*k as u64);
    }
    same!("owner", got, m.to_vec());
}
fn len(c: &mut Case) -> usize {
    *c.rng.pick(&[0, 1, 1, 1, 2, 2, 3, 5, 9])
}
fn seq<T: Val>(c: &mut Case) {
    begin::<T>(c, "sequence");
    let n = len(c);
    let mut m: Vec<u32> = (0..n).map(|_| key(c)).collect();
    let mut v: SVec<T> = m.iter().map(|k| T::mk(*k)).collect();
    for _ in 0..1 + c.rng.idx(3) {
        let op = c.rng.below(9);
        c.ev(op);
        match op {
            0 => {
                let i = take(c, v.iter_mut(), 0);
                hold(c, i, &mut m)
            }
            1 => {
                let i = take(c, (&mut v).into_iter(), 0);
                hold(c, i, &mut m)
            }
            2 => {
                let at = c.rng.idx(n + 1);
                let (l, r) = v.as_slice_mut().split_at_mut(at);
                let mut i = take(c, l.iter_mut(), 0);
                let j = take(c, r.iter_mut(), at);
                i.extend(j);
                hold(c, i, &mut m)
            }
            3 => {
                let mut s = SliceMut::from(v.as_slice_mut());
                let i = take(c, s.iter_mut(), 0);
                hold(c, i, &mut m);
                compare(c, s.iter(), &m);
                let s: &mut [T] = s.into();
                let i = take(c, s.iter_mut(), 0);
                hold(c, i, &mut m)
            }
            4 => {
                let mut b: BoxedSlice<T> = v.into();
                let i = take(c, (&mut b).into_iter(), 0);
                hold(c, i, &mut m);
                compare(c, &b, &m);
                let i = take(c, b.as_slice_mut().iter_mut(), 0);
                hold(c, i, &mut m);
                v = b.into();
            }
            5 => {
                let mut a: ArcSlice<T> = v.into();
                let s = a.as_slice_mut();
                must!("unique", s.is_some());
                let i = take(c, s.unwrap().iter_mut(), 0);
                hold(c, i, &mut m);
                compare(c, &a, &m);
                let b = a.clone();
                must!("unique", a.as_slice_mut().is_none());
                let (x, y) = (a.as_slice(), b.as_slice());
                compare(c, x, &m);
                compare(c, y, &m);
                drop(b);
                v = match SVec::try_from(a) {
                    Ok(v) => v,
                    Err(_) => harness::viol!("unique", "the only owner of a slice couldn't make it a vector"),
                };
            }
            6 => {
                // shared views at the same time
                let (x, y, z) = (v.as_slice(), v.iter(), Slice::from(v.as_slice()));
                compare(c, z.as_slice(), &m);
                compare(c, y, &m);
                let w: &[T] = z.into();
                compare(c, w, &m);
                compare(c, x, &m);
            }
            7 if n > 1 => {
                // drained items are used while the rest is being drained
                let (lo, hi) = { let a = c.rng.idx(n); (a, a + c.rng.idx(n - a + 1)) };
                let mut got: Vec<T> = vec![];
                {
                    let mut d = v.drain(lo..hi);
                    while let Some(x) = d.next() {
                        got.push(x);
                        let i = c.rng.idx(got.len());
                        same!("drained", got[i].get(), m[lo + i]);
                        let k = key(c);
                        got[i].set(k);
                        m[lo + i] = k;
                    }
                }
                let tail: Vec<u32> = m.split_off(hi);
                let mid = m.split_off(lo);
                compare(c, &got, &mid);
                m.extend(tail);
                compare(c, v.iter(), &m);
                for (x, k) in got.into_iter().zip(mid) {
                    v.push(x);
                    m.push(k);
                }
            }
            _ if n > 1 => {
                let (a, b) = (c.rng.idx(n), c.rng.idx(n));
                v.swap(a, b);
                m.swap(a, b);
                let r = &mut v[a];
                let k = key(c);
                r.set(k);
                m[a] = k;
            }
            _ => (),
        }
        compare(c, &v, &m);
    }
    c.log(|| format!("{m:?}"));
}
/// `Single` can't be named out of stabby, so this is instantiated for each type.
macro_rules! sov { ($($name:ident $t:ty;)*) => { $(fn $name(c: &mut Case) {
    begin::<$t>(c, "single-or-vec");
    let n = len(c);
    let mut m: Vec<u32> = (0..n).map(|_| key(c)).collect();
    let mut v: SingleOrVec<$t> = SingleOrVec::default();
    if c.rng.chance(1, 5) { v.reserve(n) }
    for k in &m { v.push(<$t>::mk(*k)) }
    for _ in 0..1 + c.rng.idx(3) {
        let op = c.rng.below(5);
        c.ev(op);
        match op {
            0 | 1 => { let i = take(c, (&mut v).into_iter(), 0); hold(c, i, &mut m) }
            2 => { let mut g = v.as_slice_mut(); let i = take(c, g.iter_mut(), 0); hold(c, i, &mut m); compare(c, g.iter(), &m); }
            3 => { let (x, y) = (v.as_slice(), &v); compare(c, y, &m); compare(c, x, &m); }
            _ => if n > 0 {
                let i = c.rng.idx(n);
                let k = key(c);
                v.as_slice_mut()[i] = <$t>::mk(k);
                m[i] = k;
            }
        }
        compare(c, &v, &m);
        same!("owner", v.len(), n);
    }
    c.log(|| format!("{m:?}"));
})* } }
sov! { sov_u8 u8; sov_u64 u64; sov_padded Padded; sov_holed Holed; sov_box SBox<u32>; sov_string SString; sov_arr [u16; 3]; }
fn sovs(c: &mut Case) {
    let f: &[fn(&mut Case)] = &[sov_u8, sov_u64, sov_padded, sov_holed, sov_box, sov_string, sov_arr];
    let f = *c.rng.pick(f);
    f(c)
}
fn seqs(c: &mut Case) {
    let f: &[fn(&mut Case)] = &[seq::<u8>, seq::<u64>, seq::<Padded>, seq::<Holed>, seq::<SBox<u32>>, seq::<SString>, seq::<SOption<u8>>, seq::<[u16; 3]>];
    let f = *c.rng.pick(f);
    f(c)
}
fn texts(c: &mut Case) {
    begin::<SString>(c, "text");
    let n = len(c);
    let mut m: Vec<u8> = (0..n).map(|_| b'a' + c.rng.below(26) as u8).collect();
    let mut s = SString::from(std::str::from_utf8(&m).unwrap());
    fn halves(c: &mut Case, t: &mut str, m: &mut [u8]) {
        let at = c.rng.idx(m.len() + 1);
        let (l, r) = t.split_at_mut(at);
        for _ in 0..c.rng.idx(4) {
            c.nontrivial = true;
            if c.rng.bool() {
                l.make_ascii_uppercase();
                m[..at].make_ascii_uppercase();
            } else {
                r.make_ascii_lowercase();
                m[at..].make_ascii_lowercase();
            }
            same!("owner", (l.as_bytes(), r.as_bytes()), (&m[..at], &m[at..]));
        }
    }
    for _ in 0..1 + c.rng.idx(4) {
        let op = c.rng.below(4);
        c.ev(op);
        match op {
            0 => halves(c, s.as_str_mut(), &mut m),
            1 => {
                let mut t = StrMut::from(s.as_str_mut());
                halves(c, &mut t, &mut m);
                let t: &mut str = t.into();
                halves(c, t, &mut m)
            }
            2 => {
                let mut b: BoxedStr = s.into();
                halves(c, b.as_str_mut(), &mut m);
                s = b.into();
            }
            _ => {
                let mut a: ArcStr = s.into();
                let t = a.as_str_mut();
                must!("unique", t.is_some());
                halves(c, t.unwrap(), &mut m);
                let b = a.clone();
                let (x, y) = (a.as_str(), b.as_str());
                same!("owner", (x.as_bytes(), y.as_bytes()), (&m[..], &m[..]));
                drop(b);
                s = match SString::try_from(a) {
                    Ok(s) => s,
                    Err(_) => harness::viol!("unique", "the only owner of a text couldn't make it a string"),
                };
            }
        }
        same!("owner", s.as_bytes(), &m[..]);
        c.ev(fnv(&m));
    }
}

// ------------------------------------------------------------------ sums
fn shown<T: Val + IDeterminantProvider<E>, E: Val + IStable>(r: &SResult<T, E>) -> Result<u32, u32> {
    r.match_ref(|v| Ok(v.get()), |e| Err(e.get()))
}
fn mk<T: Val + IDeterminantProvider<E>, E: Val + IStable>(m: Result<u32, u32>) -> SResult<T, E> {
    match m {
        Ok(k) => SResult::Ok(T::mk(k)),
        Err(k) => SResult::Err(E::mk(k)),
    }
}
fn draw(c: &mut Case) -> Result<u32, u32> {
    let k = key(c);
    if c.rng.chance(2, 3) { Ok(k) } else { Err(k) }
}
fn sum<T: Val + IDeterminantProvider<E>, E: Val + IStable>(c: &mut Case) {
    begin::<T>(c, "sum");
    c.ev(fnv(E::NAME.as_bytes()));
    let (mut ma, mut mb) = (draw(c), draw(c));
    let (mut a, mut b): (SResult<T, E>, SResult<T, E>) = (mk(ma), mk(mb));
    let steps = c.scale(12, 6);
    for _ in 0..1 + c.rng.idx(steps) {
        let op = c.rng.below(8);
        c.ev(op);
        c.nontrivial = true;
        match op {
            0 => {
                // guards of two neighbours at once
                let k = key(c);
                match (a.ok_mut(), b.ok_mut()) {
                    (Some(mut x), Some(mut y)) => {
                        both(&mut *x, &mut *y);
                        std::mem::swap(&mut ma, &mut mb);
                        x.set(k);
                        ma = Ok(k);
                        same!("guard", (Ok(x.get()), Ok(y.get())), (ma, mb));
                        if c.rng.bool() { drop(x); same!("guard", Ok(y.get()), mb) } else { drop(y); same!("guard", Ok(x.get()), ma) }
                    }
                    (Some(mut x), None) => { *x = T::mk(k); ma = Ok(k) }
                    (None, Some(mut y)) => { *y = T::mk(k); mb = Ok(k) }
                    (None, None) => (),
                }
            }
            1 => {
                let k = key(c);
                match (a.err_mut(), b.err_mut()) {
                    (Some(mut x), Some(mut y)) => {
                        std::mem::swap(&mut *x, &mut *y);
                        std::mem::swap(&mut ma, &mut mb);
                        y.set(k);
                        mb = Err(k);
                        same!("guard", (Err(x.get()), Err(y.get())), (ma, mb));
                    }
                    (Some(mut x), None) => { *x = E::mk(k); ma = Err(k) }
                    (None, Some(mut y)) => { y.set(k); mb = Err(k) }
                    (None, None) => (),
                }
            }
            2 => {
                // the guards leave the closures
                let k = key(c);
                let (ok, err) = a.match_mut(|g| (Some(g), None), |g| (None, Some(g)));
                if let Some(mut g) = ok {
                    same!("guard", Ok(g.get()), ma);
                    g.set(k);
                    let r = &mut *g;
                    *r = T::mk(k);
                    ma = Ok(k);
                }
                if let Some(mut g) = err {
                    same!("guard", Err(g.get()), ma);
                    *g = E::mk(k);
                    g.set(k);
                    ma = Err(k);
                }
            }
            3 => {
                let (x, y) = (a.as_ref(), a.ok_ref());
                let z = a.match_ref(Ok, Err);
                let w = b.as_ref();
                same!("view", x.map(T::get).map_err(E::get), ma);
                same!("view", y.map(T::get), ma.ok());
                same!("view", shown(&a), ma);
                same!("view", w.map(T::get).map_err(E::get), mb);
                same!("view", z.map(T::get).map_err(E::get), ma);
                same!("view", x.map(T::get).map_err(E::get), ma);
            }
            4 => {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ma, &mut mb);
            }
            5 => {
                let k = key(c);
                let i = c.rng.bool();
                ma = a.match_mut_ctx(
                    k,
                    |k, mut g| { if i { g.set(k) } else { *g = T::mk(k) } Ok(k) },
                    |k, mut g| { g.set(k); Err(k) },
                );
            }
            6 => {
                let m = draw(c);
                a = mk(m);
                ma = m;
            }
            _ => {
                // a guard within an array, while the neighbours are read
                let mut arr = [a, b];
                let (l, r) = arr.split_at_mut(1);
                if let Some(mut g) = l[0].ok_mut() {
                    let k = key(c);
                    g.set(k);
                    same!("view", shown(&r[0]), mb);
                    same!("guard", g.get(), k);
                    ma = Ok(k);
                }
                [a, b] = arr;
            }
        }
        same!("owner", shown(&a), ma);
        same!("owner", shown(&b), mb);
        c.ev(ma.unwrap_or(999) as u64);
    }
    c.log(|| format!("{ma:?} {mb:?}"));
}
fn nested(c: &mut Case) {
    begin::<SOption<u8>>(c, "nested");
    type In = SResult<Holed, SBox<u32>>;
    type Mid = SOption<In>;
    let mut m: Option<Option<Result<u32, u32>>> = None;
    let mut v: SOption<Mid> = SOption::None();
    let steps = c.scale(12, 6);
    for _ in 0..1 + c.rng.idx(steps) {
        let op = c.rng.below(5);
        c.ev(op);
        match op {
            0 => {
                m = match c.rng.below(8) { 0 => None, 1 => Some(None), _ => Some(Some(draw(c))) };
                v = match m {
                    None => SOption::None(),
                    Some(None) => SOption::Some(SOption::None()),
                    Some(Some(m)) => SOption::Some(SOption::Some(mk(m))),
                };
            }
            1 | 2 => {
                let k = key(c);
                if let Some(mut g) = v.as_mut() {
                    let outer: &mut Mid = &mut g;
                    if outer.is_some() {
                        let mut h = outer.as_mut().unwrap();
                        let r: &mut In = &mut h;
                        c.nontrivial = true;
                        if op == 1 {
                            let new = r.match_mut(|mut x| { x.set(k); Ok(k) }, |mut e| { e.set(k); Err(k) });
                            same!("guard", shown(r), new);
                            m = Some(Some(new));
                        } else {
                            let n = draw(c);
                            *r = mk(n);
                            same!("guard", shown(r), n);
                            m = Some(Some(n));
                        }
                    } else if op == 2 {
                        let n = draw(c);
                        *outer = SOption::Some(mk(n));
                        m = Some(Some(n));
                    }
                }
            }
            3 => {
                if let Some(mut g) = v.as_mut() {
                    *g = SOption::None();
                    must!("guard", g.is_none());
                    m = Some(None);
                }
            }
            _ => {
                let (x, y) = (v.as_ref(), v.as_ref());
                let p = x.map(|x| x.as_ref().map(shown));
                let q = y.map(|x| x.as_ref().map(shown));
                same!("view", (p, q), (m, m));
            }
        }
        let got = v.as_ref().map(|x| x.as_ref().map(shown));
        same!("owner", got, m);
        c.ev(fnv(format!("{got:?}").as_bytes()));
    }
}
fn sums(c: &mut Case) {
    let f: &[fn(&mut Case)] = &[
        sum::<u8, u64>,
        sum::<Padded, u8>,
        sum::<Padded, Holed>,
        sum::<Holed, Padded>,
        sum::<u8, Padded>,
        sum::<SBox<u32>, u64>,
        sum::<SBox<u32>, SBox<u32>>,
        sum::<SString, Holed>,
        sum::<SOption<u8>, Holed>,
        sum::<[u16; 3], SOption<u8>>,
        sum::<u64, u64>,
        nested,
    ];
    let f = *c.rng.pick(f);
    f(c)
}
/// Several fields and variants, some with owners and padding.
#[stabby::stabby]
#[repr(stabby)]
#[allow(dead_code)]
pub enum Shape {
    Dot(Holed),
    Line(Padded),
    Name(SString),
    Nothing,
}
#[stabby::stabby]
#[repr(stabby)]
pub enum Wide {
    A(u64),
    B(SBox<u32>),
}
fn enums(c: &mut Case) {
    begin::<u8>(c, "enum");
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum M { Dot(u32), Line(u32), Name(u32), Nothing }
    fn mk(m: M) -> Shape {
        match m {
            M::Dot(k) => Shape::Dot(Val::mk(k)),
            M::Line(k) => Shape::Line(Val::mk(k)),
            M::Name(k) => Shape::Name(Val::mk(k)),
            M::Nothing => Shape::Nothing(),
        }
    }
    fn see(s: &Shape) -> M {
        s.match_ref(|d| M::Dot(d.get()), |l| M::Line(l.get()), |n| M::Name(n.get()), || M::Nothing)
    }
    fn any(c: &mut Case) -> M {
        let k = key(c);
        *c.rng.pick(&[M::Dot(k), M::Line(k), M::Name(k), M::Nothing])
    }
    let (mut ma, mut mb) = (any(c), any(c));
    let (mut a, mut b) = (mk(ma), mk(mb));
    let mut w = (Wide::A(3), Ok(3));
    let steps = c.scale(12, 5);
    for _ in 0..1 + c.rng.idx(steps) {
        let op = c.rng.below(6);
        let k = key(c);
        c.ev(op);
        c.nontrivial = true;
        match op {
            0 => {
                ma = a.match_mut(
                    |mut d| { d.set(k); let r = &mut *d; r.set(k); M::Dot(k) },
                    |mut l| { *l = Padded::mk(k); same!("guard", l.get(), k); M::Line(k) },
                    |mut n| { n.set(k); M::Name(k) },
                    || M::Nothing,
                )
            }
            1 => {
                // the references leave the closures
                let (x, y): (Option<&Holed>, Option<&Padded>) = a.match_ref(|d| (Some(d), None), |l| (None, Some(l)), |_| (None, None), || (None, None));
                let z: Option<&SString> = a.match_ref(|_| None, |_| None, Some, || None);
                let m = match (x, y, z) {
                    (Some(d), None, None) => M::Dot(d.get()),
                    (None, Some(l), None) => M::Line(l.get()),
                    (None, None, Some(n)) => M::Name(n.get()),
                    _ => M::Nothing,
                };
                same!("view", m, ma);
                same!("view", see(&a), ma);
                same!("view", x.map(Val::get), if let M::Dot(k) = ma { Some(k) } else { None });
            }
            2 => {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ma, &mut mb);
            }
            3 => {
                ma = any(c);
                a = mk(ma);
            }
            4 => {
                // one matched within the other's match
                let (b, mb) = (&mut b, &mut mb);
                ma = a.match_mut(
                    |mut d| {
                        *mb = b.match_mut(|mut e| { both(&mut *d, &mut *e); e.set(k); M::Dot(k) }, |mut l| { l.set(k); M::Line(k) }, |mut n| { n.set(k); M::Name(k) }, || M::Nothing);
                        M::Dot(d.get())
                    },
                    |l| M::Line(l.get()),
                    |n| M::Name(n.get()),
                    || M::Nothing,
                );
            }
            _ => {
                if c.rng.bool() {
                    w = if c.rng.bool() { (Wide::A(k as u64), Ok(k)) } else { (Wide::B(SBox::new(k)), Err(k)) };
                }
                w.1 = w.0.match_mut(|mut a| { *a += 1; Ok(*a as u32) }, |mut b| { **b += 1; Err(**b) });
                let got = w.0.match_ref(|a| Ok(*a as u32), |b| Err(**b));
                same!("owner", got, w.1);
            }
        }
        same!("owner", see(&b), mb);
        if op != 4 { same!("owner", see(&a), ma) } else { ma = see(&a) }
        c.ev(fnv(format!("{ma:?}").as_bytes()));
    }
}

// ------------------------------------------------------------------ interior mutability
/// Altered through shared references.
trait Shared: 'static {
    const NAME: &'static str;
    fn zero() -> Self;
    fn bump(&self, by: u32);
    fn val(&self) -> u32;
}
impl Shared for AtomicU32 {
    const NAME: &'static str = "AtomicU32";
    fn zero() -> Self {
        AtomicU32::new(0)
    }
    #[inline]
    fn bump(&self, by: u32) {
        self.fetch_add(by, Relaxed);
    }
    #[inline]
    fn val(&self) -> u32 {
        self.load(Relaxed)
    }
}
impl Shared for AtomicU64 {
    const NAME: &'static str = "AtomicU64";
    fn zero() -> Self {
        AtomicU64::new(0)
    }
    #[inline]
    fn bump(&self, by: u32) {
        self.fetch_add(by as u64, Relaxed);
    }
    #[inline]
    fn val(&self) -> u32 {
        self.load(Relaxed) as u32
    }
}
impl Shared for UnsafeCell<u32> {
    const NAME: &'static str = "UnsafeCell";
    fn zero() -> Self {
        UnsafeCell::new(0)
    }
    #[inline]
    fn bump(&self, by: u32) {
        unsafe { *self.get() += by }
    }
    #[inline]
    fn val(&self) -> u32 {
        unsafe { *self.get() }
    }
}
#[stabby::stabby(no_opt)]
pub struct Counted {
    before: u8,
    count: UnsafeCell<u32>,
    after: u8,
}
impl Shared for Counted {
    const NAME: &'static str = "Counted";
    fn zero() -> Self {
        Counted { before: 7, count: UnsafeCell::new(0), after: 9 }
    }
    #[inline]
    fn bump(&self, by: u32) {
        unsafe { *self.count.get() += by }
    }
    #[inline]
    fn val(&self) -> u32 {
        must!("torn", self.before == 7 && self.after == 9);
        unsafe { *self.count.get() }
    }
}
#[stabby::stabby]
#[repr(stabby)]
pub enum Cells<T: IStable>
where
    T: IDeterminantProvider<u64>,
{
    Count(T),
    Plain(u64),
}
#[stabby::stabby]
pub struct Pair<T> {
    a: u8,
    t: T,
}
#[inline(never)]
fn poke<W>(w: &W, by: u32, f: impl Fn(&W, u32)) {
    f(w, by)
}
#[inline(never)]
fn bump_opt<T: Shared + IStable + IDeterminantProvider<()>>(w: &SOption<T>, by: u32) {
    if let Some(t) = w.as_ref() {
        t.bump(by)
    }
}
#[inline(never)]
fn bump_ok<T: Shared + IDeterminantProvider<E>, E: IStable>(w: &SResult<T, E>, by: u32) {
    w.match_ref(|t| t.bump(by), |_| ())
}
#[inline(never)]
fn bump_err<T: IDeterminantProvider<E>, E: Shared + IStable>(w: &SResult<T, E>, by: u32) {
    w.match_ref(|_| (), |t| t.bump(by))
}
#[inline(never)]
fn bump_dyn(w: stabby::DynRef<'_, stabby::vtable!(Bump)>, by: u32) {
    let _ = w.bump(by);
}
#[inline(never)]
fn call(w: &dyn Fn(u32), by: u32) {
    w(by)
}
/// Everything is local, so that the compiler may use all that it was told.
fn cells<T>(c: &mut Case)
where
    T: Shared + IStable + IDeterminantProvider<()> + IDeterminantProvider<u8> + IDeterminantProvider<u64> + IDeterminantProvider<T>,
    u8: IDeterminantProvider<T>,
    SOption<T>: IStable + IDeterminantProvider<()>,
    SResult<T, u64>: IStable,
{
    let n = c.scale(9, 5) as u32;
    let by: Vec<u32> = (0..1 + c.rng.idx(n as usize)).map(|_| key(c)).collect();
    let want: u32 = by.iter().sum();
    let which = c.rng.below(16);
    c.hash = harness::mix(c.hash, fnv(T::NAME.as_bytes()) ^ which);
    c.ev(want as u64);
    c.nontrivial = true;
    c.log(|| format!("{} in holder {which}, {} changes", T::NAME, by.len()));
    let got = match which {
        0 => { let o = SOption::Some(T::zero()); for k in &by { bump_opt(&o, *k) } o.as_ref().unwrap().val() }
        1 => { let o = SResult::<T, u8>::Ok(T::zero()); for k in &by { bump_ok(&o, *k) } o.as_ref().ok().unwrap().val() }
        2 => { let o = SResult::<u8, T>::Err(T::zero()); for k in &by { bump_err(&o, *k) } o.match_ref(|_| 0, |t| t.val()) }
        3 => {
            let o = SResult::<T, T>::Ok(T::zero());
            let t = o.as_ref().ok().unwrap();
            for k in &by { bump_ok(&o, *k); }
            let r = t.val();
            must!("interior", o.ok_ref().map(|t| t.val()) == Some(r));
            r
        }
        4 => { let o = Cells::<T>::Count(T::zero()); for k in &by { poke(&o, *k, |o, k| o.match_ref(|t| t.bump(k), |_| ())) } o.match_ref(|t| t.val(), |p| *p as u32 + 1) }
        5 => { let o = stabby::tuple::Tuple2(T::zero(), 5u8); for k in &by { poke(&o, *k, |o, k| o.0.bump(k)) } o.0.val() }
        6 => { let o = Pair { a: 1, t: T::zero() }; for k in &by { poke(&o, *k, |o, k| o.t.bump(k)) } o.t.val() + o.a as u32 - 1 }
        7 => { let o = SBox::new(T::zero()); for k in &by { poke(&o, *k, |o, k| o.bump(k)) } o.val() }
        8 => {
            let o = SArc::new(T::zero());
            let p = o.clone();
            let r: &T = &p;
            for k in &by { poke(&o, *k, |o, k| o.bump(k)) }
            r.val()
        }
        9 => {
            let mut o: SVec<T> = SVec::new();
            for _ in 0..3 { o.push(T::zero()) }
            let r = &o[1];
            for k in &by { poke(&o, *k, |o, k| o[1].bump(k)) }
            must!("interior", o[0].val() == 0 && o[2].val() == 0);
            r.val()
        }
        10 => {
            let o = [T::zero(), T::zero()];
            let s = Slice::from(&o[..]);
            let r = &o[1];
            for k in &by { poke(&s, *k, |s, k| s[1].bump(k)) }
            r.val()
        }
        11 => {
            let mut v: SVec<T> = SVec::new();
            v.push(T::zero());
            let o: ArcSlice<T> = v.into();
            let p = o.clone();
            let r = &p[0];
            for k in &by { poke(&o, *k, |o, k| o[0].bump(k)) }
            r.val()
        }
        12 => {
            let mut o: ArcBTreeMap<u32, SArc<T>> = ArcBTreeMap::from_alloc(Default::default());
            o.insert(1, SArc::new(T::zero()));
            let mut p = o.clone();
            p.insert(2, SArc::new(T::zero()));
            let r = p.get(&1).unwrap();
            for k in &by { poke(&o, *k, |o, k| o.get(&1).unwrap().bump(k)) }
            must!("interior", p.get(&2).unwrap().val() == 0);
            r.val()
        }
        13 => {
            // a guard of an option is open while the content is altered through a shared reference
            let mut o = SOption::Some(T::zero());
            {
                let g = o.as_mut().unwrap();
                let r: &T = &g;
                for k in &by { poke(r, *k, |r, k| r.bump(k)) }
                same!("interior", g.val(), want);
            }
            o.as_ref().unwrap().val()
        }
        14 => {
            let mut v: SingleOrVec<AtomicU32> = SingleOrVec::default();
            v.push(AtomicU32::new(0));
            let r = &v.as_slice()[0];
            for k in &by { poke(&v, *k, |o, k| o.as_slice()[0].bump(k)) }
            r.val()
        }
        _ => {
            let o: SOption<SOption<T>> = SOption::Some(SOption::Some(T::zero()));
            let r = o.as_ref().unwrap().as_ref().unwrap();
            for k in &by { poke(&o, *k, |o, k| o.match_ref(|o| o.match_ref(|t| t.bump(k), || ()), || ())) }
            r.val()
        }
    };
    c.ev(got as u64);
    same!("interior", got, want, "{} in holder {which} after {by:?}", T::NAME);
}
fn interior(c: &mut Case) {
    let f: &[fn(&mut Case)] = &[cells::<AtomicU32>, cells::<AtomicU64>, cells::<UnsafeCell<u32>>, cells::<Counted>];
    let f = *c.rng.pick(f);
    f(c)
}

// ------------------------------------------------------------------ trait objects
#[stabby::stabby(checked)]
pub trait Bump {
    extern "C" fn bump(&self, by: u32) -> u32;
    extern "C" fn peek<'a>(&'a self) -> &'a UnsafeCell<u32>;
}
#[stabby::stabby(checked)]
pub trait Alter {
    extern "C" fn alter(&mut self, by: u32) -> u32;
    extern "C" fn slot<'a>(&'a mut self) -> &'a mut u32;
}
#[stabby::stabby(no_opt)]
pub struct Obj {
    pad: u8,
    n: UnsafeCell<u32>,
    own: SBox<UnsafeCell<u32>>,
}
impl Obj {
    fn new() -> Self {
        Obj { pad: 3, n: UnsafeCell::new(0), own: SBox::new(UnsafeCell::new(0)) }
    }
    #[inline]
    fn see(&self) -> (u32, u32) {
        must!("torn", self.pad == 3);
        unsafe { (*self.n.get(), *self.own.get()) }
    }
}
impl Bump for Obj {
    extern "C" fn bump(&self, by: u32) -> u32 {
        unsafe {
            *self.n.get() += by;
            *self.own.get() ^= by;
            *self.n.get()
        }
    }
    extern "C" fn peek<'a>(&'a self) -> &'a UnsafeCell<u32> {
        &self.n
    }
}
impl Alter for Obj {
    extern "C" fn alter(&mut self, by: u32) -> u32 {
        *self.n.get_mut() += by;
        *self.own.get_mut() ^= by;
        *self.n.get_mut()
    }
    extern "C" fn slot<'a>(&'a mut self) -> &'a mut u32 {
        self.n.get_mut()
    }
}
type VB = stabby::vtable!(Bump);
type VBA = stabby::vtable!(Bump + Alter);
type BoxBA = dynptr!(SBox<dyn Bump + Alter>);
fn objects(c: &mut Case) {
    begin::<u8>(c, "objects");
    let n = c.scale(8, 4);
    let by: Vec<u32> = (0..1 + c.rng.idx(n)).map(|_| key(c)).collect();
    let want = (by.iter().sum::<u32>(), by.iter().fold(0, |a, b| a ^ b));
    let which = c.rng.below(11);
    c.ev(which);
    c.ev(want.0 as u64);
    c.nontrivial = true;
    let got = match which {
        0 => {
            let o = Obj::new();
            for k in &by { bump_dyn((&o).into(), *k) }
            o.see()
        }
        1 => {
            let o = Obj::new();
            let d: stabby::DynRef<VB> = (&o).into();
            let e = d;
            for k in &by {
                same!("object", d.bump(*k), o.see().0);
                same!("object", unsafe { *e.peek().get() }, o.see().0);
            }
            o.see()
        }
        2 => {
            // exclusively borrowed
            let mut o = Obj::new();
            {
                let mut d: stabby::Dyn<&mut (), VBA> = (&mut o).into();
                for k in &by {
                    match c.rng.below(4) {
                        0 => { d.alter(*k); }
                        1 => { bump_dyn_of(&d, *k); }
                        2 => { let mut e = d.as_mut(); e.alter(*k); }
                        _ => { d.bump(*k); }
                    }
                }
            }
            o.see()
        }
        3 => {
            let mut d: BoxBA = SBox::new(Obj::new()).into();
            for k in &by {
                match c.rng.below(4) {
                    0 => { d.alter(*k); }
                    1 => { bump_dyn_of(&d, *k); }
                    2 => { let mut e = d.as_mut(); e.alter(*k); }
                    _ => {
                        let s = d.slot();
                        *s = s.wrapping_sub(5);
                        *s = s.wrapping_add(5);
                        d.bump(*k);
                    }
                }
            }
            let o: Option<&Obj> = d.stable_downcast_ref_of();
            let r = o.map(|o| o.see());
            must!("object", r.is_some());
            r.unwrap()
        }
        4 => {
            let d: dynptr!(SArc<dyn Bump>) = SArc::new(Obj::new()).into();
            let e = d.clone();
            let r = e.peek();
            for k in &by {
                d.bump(*k);
                same!("object", unsafe { *r.get() }, unsafe { *d.peek().get() });
            }
            let o = unsafe { e.downcast_ref::<Obj>() };
            must!("object", o.is_some());
            o.unwrap().see()
        }
        5 => {
            // the downcast reference is held while the object goes on being called
            let d: BoxBA = SBox::new(Obj::new()).into();
            let o = unsafe { d.downcast_ref::<Obj>() }.unwrap();
            let s = d.as_ref();
            for k in &by {
                d.bump(*k);
                same!("object", o.see().0, unsafe { *s.peek().get() });
            }
            o.see()
        }
        6 => {
            let mut d: BoxBA = SBox::new(Obj::new()).into();
            for k in &by {
                let o = unsafe { d.downcast_mut::<Obj>() }.unwrap();
                let x = o.alter(*k);
                same!("object", unsafe { *d.peek().get() }, x);
            }
            unsafe { d.downcast_ref::<Obj>() }.unwrap().see()
        }
        7 => {
            let mut a = SArc::new(Obj::new());
            for k in &by {
                let o = SArc::get_mut(&mut a);
                must!("object", o.is_some());
                o.unwrap().alter(*k);
            }
            let mut d: dynptr!(SArc<dyn Bump + Alter>) = a.into();
            let m = d.try_as_mut();
            must!("object", m.is_some());
            let x = m.unwrap().alter(0);
            same!("object", x, want.0);
            let e = d.clone();
            must!("object", d.try_as_mut().is_none());
            let r = unsafe { e.downcast_ref::<Obj>() }.unwrap().see();
            r
        }
        8 => {
            // upcast, then used from both sides
            let o = Obj::new();
            let d: stabby::DynRef<VBA> = (&o).into();
            for k in &by {
                d.bump(*k);
            }
            o.see()
        }
        9 => {
            let p = PinMe::boxed();
            let mut d: dynptr!(SBox<dyn Alter>) = p.into();
            for k in &by {
                d.alter(*k);
            }
            let x = *d.slot();
            (x, want.1)
        }
        _ => {
            // closures over borrowed state
            let o = Obj::new();
            let mut m = 0u32;
            {
                let f: stabby::Dyn<SBox<()>, stabby::vtable!(stabby::closure::Call1<(), u32>)> = SBox::new(|k: u32| { o.bump(k); }).into();
                let mut g: stabby::Dyn<SBox<()>, stabby::vtable!(stabby::closure::CallMut1<u32, u32>)> = SBox::new(|k: u32| { m += k; m }).into();
                use stabby::closure::{Call1Dyn, CallMut1DynMut};
                let mut t = 0;
                for k in &by {
                    t += k;
                    f.call(*k);
                    same!("closure", g.call_mut(*k), t);
                    same!("closure", o.see().0, t);
                }
            }
            same!("closure", m, want.0);
            call(&|k| { o.bump(k); }, 0);
            o.see()
        }
    };
    c.ev(got.0 as u64);
    same!("object", got, want, "object kind {which} after {by:?}");
}
#[inline(never)]
fn bump_dyn_of<'a, P: IPtrOwned + IPtr>(d: &stabby::Dyn<'a, P, VBA>, by: u32) {
    let r = d.as_ref();
    r.bump(by);
}
trait Down {
    fn stable_downcast_ref_of(&self) -> Option<&Obj>;
}
impl Down for BoxBA {
    fn stable_downcast_ref_of(&self) -> Option<&Obj> {
        unsafe { self.downcast_ref::<Obj>() }
    }
}
/// Refers to itself once it was called.
pub struct PinMe {
    n: u32,
    at: *mut u32,
    drops: &'static AtomicUsize,
    _pin: PhantomPinned,
}
static PIN_DROPS: AtomicUsize = AtomicUsize::new(0);
impl PinMe {
    fn boxed() -> SBox<Self> {
        SBox::new(PinMe { n: 0, at: std::ptr::null_mut(), drops: &PIN_DROPS, _pin: PhantomPinned })
    }
}
impl Alter for PinMe {
    extern "C" fn alter(&mut self, by: u32) -> u32 {
        if self.at.is_null() {
            self.at = &raw mut self.n;
        }
        unsafe {
            *self.at += by;
            *self.at
        }
    }
    extern "C" fn slot<'a>(&'a mut self) -> &'a mut u32 {
        if self.at.is_null() {
            self.at = &raw mut self.n;
        }
        unsafe { &mut *self.at }
    }
}
impl Drop for PinMe {
    fn drop(&mut self) {
        if !self.at.is_null() {
            unsafe { *self.at += 1 };
        }
        self.drops.fetch_add(1, Relaxed);
    }
}

// ------------------------------------------------------------------ futures that refer to themselves
struct Pause(u32);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            Poll::Pending
        }
    }
}
struct Held<'a>(&'a mut u32, u32);
impl Drop for Held<'_> {
    fn drop(&mut self) {
        *self.0 += self.1;
    }
}
struct Told<'a>(u32, &'a AtomicU32);
impl Drop for Told<'_> {
    fn drop(&mut self) {
        self.1.store(self.0, Relaxed)
    }
}
async fn keeps(x: u32, p: u32) -> u32 {
    let mut a = [x; 4];
    let r = &mut a[1];
    Pause(p).await;
    *r += 1;
    Pause(1).await;
    *r += 1;
    a[1] + a[0]
}
async fn guarded(x: u32, p: u32, end: &AtomicU32) -> u32 {
    let mut h = Told(x, end);
    let g = Held(&mut h.0, 100);
    *g.0 += 1;
    Pause(p).await;
    *g.0 += 1;
    Pause(1).await;
    drop(g);
    Pause(1).await;
    h.0
}
type F0 = dynptr!(SBox<dyn stabby::future::Future<Output = u32>>);
type F1 = dynptr!(SBox<dyn stabby::future::Future<Output = u32> + Send>);
type F2 = dynptr!(SBox<dyn stabby::future::Future<Output = u32> + Send + Sync>);
fn polls<F: Future<Output = u32>>(f: &mut Pin<Box<F>>, n: u32) -> Option<u32> {
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..n {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}
fn futures(c: &mut Case) {
    begin::<u8>(c, "futures");
    let (x, p) = (key(c), c.rng.below(4) as u32);
    let n = c.rng.below(14) as u32;
    let which = c.rng.below(6);
    c.ev(which);
    c.ev(x as u64 * 64 + p as u64 * 16 + n as u64);
    c.nontrivial = true;
    let end = Box::leak(Box::new(AtomicU32::new(u32::MAX)));
    let end: &'static AtomicU32 = end;
    // (answer, polls until then, what the destroyed state leaves after `n` polls)
    let (got, want, polls_needed) = match which {
        0 => (polls::<F0>(&mut Box::pin(SBox::new(keeps(x, p)).into()), n), 2 * x + 2, p + 2),
        1 => (polls::<F1>(&mut Box::pin(SBox::new(keeps(x, p)).into()), n), 2 * x + 2, p + 2),
        2 => (polls::<F2>(&mut Box::pin(SBox::new(keeps(x, p)).into()), n), 2 * x + 2, p + 2),
        3 => (polls::<F1>(&mut Box::pin(SBox::new(guarded(x, p, end)).into()), n), x + 102, p + 3),
        4 => (polls::<F2>(&mut Box::pin(SBox::new(guarded(x, p, end)).into()), n), x + 102, p + 3),
        _ => {
            // one within another
            let f: F1 = SBox::new(async move {
                let mut inner: F1 = SBox::new(guarded(x, p, end)).into();
                let first = [x; 3];
                let r = &first[2];
                let v = (&mut inner).await;
                drop(inner);
                Pause(1).await;
                v + *r
            }).into();
            (polls(&mut Box::pin(f), n), 2 * x + 102, p + 4)
        }
    };
    same!("future", got, if n >= polls_needed { Some(want) } else { None }, "future {which} x {x} p {p} n {n}");
    if which >= 3 {
        let seen = end.load(Relaxed);
        let want = if n == 0 {
            u32::MAX // never started: nothing to destroy
        } else if n <= p {
            x + 101
        } else {
            x + 102
        };
        same!("future-drop", seen, want, "future {which} x {x} p {p} n {n}");
    }
    // Boxed leak: given back.
    drop(unsafe { Box::from_raw(end as *const AtomicU32 as *mut AtomicU32) });
}

// ------------------------------------------------------------------ raw parts and shared collections
fn raws(c: &mut Case) {
    fn go<T: Val>(c: &mut Case) {
        begin::<T>(c, "raw");
        let mut k = key(c);
        c.nontrivial = true;
        let mut b = SBox::new(T::mk(k));
        let mut a = SArc::new(T::mk(k));
        let mut ka = k;
        for _ in 0..1 + c.rng.idx(4) {
            let op = c.rng.below(5);
            c.ev(op);
            match op {
                0 => {
                    let p = SBox::into_raw(b);
                    let q = p;
                    k = key(c);
                    unsafe {
                        (*q.ptr.as_ptr()).set(k);
                        b = SBox::from_raw(p);
                    }
                }
                1 => {
                    let r: &mut T = &mut b;
                    k = key(c);
                    *r = T::mk(k);
                }
                2 => {
                    let p = SArc::into_raw(a);
                    let q = unsafe { &*p.ptr.as_ptr() };
                    same!("raw", q.get(), ka);
                    a = unsafe { SArc::from_raw(p) };
                    let r: &T = &a;
                    same!("raw", r.get(), ka);
                }
                3 => {
                    let w = SArc::downgrade(&a);
                    let s = w.upgrade();
                    {
                        let (x, y): (&T, Option<&T>) = (&a, s.as_ref().map(|s| &**s));
                        same!("raw", (x.get(), y.map(T::get)), (ka, Some(ka)));
                    }
                    drop(s);
                    let r = SArc::get_mut(&mut a);
                    must!("raw", r.is_none(), "exclusive access although a weak owner exists");
                    drop(w);
                    ka = key(c);
                    let r = SArc::get_mut(&mut a);
                    must!("raw", r.is_some());
                    r.unwrap().set(ka);
                }
                _ => {
                    let v = SBox::into_inner(b);
                    same!("raw", v.get(), k);
                    b = SBox::new(v);
                }
            }
            same!("owner", (b.get(), a.get()), (k, ka));
            c.ev(k as u64);
        }
    }
    let f: &[fn(&mut Case)] = &[go::<u8>, go::<Padded>, go::<SBox<u32>>, go::<SString>];
    let f = *c.rng.pick(f);
    f(c)
}
fn maps(c: &mut Case) {
    begin::<u8>(c, "maps");
    let n = c.scale(24, 8) as u64;
    let mut a: ArcBTreeMap<u32, SBox<u32>> = ArcBTreeMap::from_alloc(Default::default());
    let mut s: ArcBTreeSet<u32> = ArcBTreeSet::new();
    let mut m = std::collections::BTreeMap::new();
    for _ in 0..1 + c.rng.below(n) {
        let (k, v) = (c.rng.below(n) as u32, key(c));
        a.insert(k, SBox::new(v));
        s.insert(k);
        m.insert(k, v);
    }
    let keys: Vec<u32> = m.keys().copied().collect();
    // references into one clone are held while another is edited
    let mut b = a.clone();
    let mut t = s.clone();
    let held: Vec<(u32, &SBox<u32>, &u32)> = keys.iter().map(|k| (*k, a.get(k), s.get(k))).map(|(k, v, s)| {
        must!("map", v.is_some() && s.is_some());
        (k, v.unwrap(), s.unwrap())
    }).collect();
    for _ in 0..1 + c.rng.below(n) {
        let (k, v) = (c.rng.below(2 * n) as u32, key(c));
        b.insert(k, SBox::new(v));
        t.insert(k);
        c.ev(k as u64);
        let (k, v, s) = c.rng.pick(&held);
        same!("map", (***v, **s), (m[k], *k));
    }
    drop(b);
    drop(t);
    for (k, v, s) in &held {
        same!("map", (***v, **s), (m[k], *k));
    }
    c.nontrivial = true;
}
fn main() {
    let groups: &[Group] = &[
        ("sequences", 4, seqs),
        ("single-or-vec", 3, sovs),
        ("texts", 1, texts),
        ("sums", 4, sums),
        ("enums", 2, enums),
        ("interior", 4, interior),
        ("objects", 3, objects),
        ("futures", 3, futures),
        ("raw", 2, raws),
        ("maps", 1, maps),
    ];
    harness::run_suite(groups, &[]);
}
