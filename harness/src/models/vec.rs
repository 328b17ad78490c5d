//! Histories over Vec / BoxedSlice / ArcSlice against `std::vec::Vec<u32>` of keys.
use super::{AllocKind, Mode};
use crate::track::{self, Elem, Zst};
use crate::{expect_panic, fnv, monalloc, must, same, viol, Case};
use stabby::boxed::BoxedSlice;
use stabby::sync::ArcSlice;
use stabby::vec::Vec as SVec;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
type Std<T> = std::vec::Vec<T>;

fn keys<T: Elem>(s: &[T]) -> Std<u32> {
    s.iter().map(|e| e.key()).collect()
}
fn want<T: Elem>(m: &[u32]) -> Std<u32> {
    if T::DISTINCT {
        m.to_vec()
    } else {
        vec![0; m.len()]
    }
}
fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
pub enum Obj<T, A: AllocKind> {
    V(SVec<T, A>),
    B(BoxedSlice<T, A>),
    A(ArcSlice<T, A>),
}
/// An iterator whose size hint is whatever it is told, and which may panic.
pub struct Odd<T> {
    pub items: std::vec::IntoIter<T>,
    pub hint: (usize, Option<usize>),
    pub panic_in: Option<usize>,
}
impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if let Some(p) = &mut self.panic_in {
            if *p == 0 {
                panic!("injected iterator panic")
            }
            *p -= 1;
        }
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn check_vec<T: Elem, A: AllocKind>(v: &SVec<T, A>, m: &[u32]) {
    track::check();
    same!("len", v.len(), m.len());
    same!("is_empty", v.is_empty(), m.is_empty());
    let cap = v.capacity();
    must!("capacity-below-length", cap >= v.len(), "capacity {} < len {}", cap, v.len());
    same!("remaining_capacity", v.remaining_capacity(), cap - v.len());
    let p = v.as_slice().as_ptr() as usize;
    must!("misaligned", p % core::mem::align_of::<T>() == 0, "slice at {p:x} for alignment {}", core::mem::align_of::<T>());
    same!("content", keys(v.as_slice()), want::<T>(m));
}
fn check_slice<T: Elem>(v: &[T], m: &[u32]) {
    track::check();
    same!("len", v.len(), m.len());
    let p = v.as_ptr() as usize;
    must!("misaligned", p % core::mem::align_of::<T>() == 0);
    same!("content", keys(v), want::<T>(m));
}
fn range_bounds(c: &mut Case, len: usize, allow_bad: bool) -> (usize, usize) {
    if allow_bad && c.rng.chance(1, 6) {
        let a = c.rng.idx(len + 4);
        let b = c.rng.idx(len + 4);
        (a, b)
    } else {
        let a = c.rng.idx(len + 1);
        let b = a + c.rng.idx(len - a + 1);
        (a, b)
    }
}
pub fn run<T: Elem, A: AllocKind>(c: &mut Case, mode: Mode) {
    track::reset();
    monalloc::reset();
    let z0 = Zst::live();
    c.hash = crate::mix(c.hash, fnv(T::NAME.as_bytes()) ^ fnv(A::NAME.as_bytes()));
    c.log(|| format!("Vec<{},{}> {:?}:", T::NAME, A::NAME, mode));
    match mode {
        Mode::Panics => {
            // whatever happens, ownership monitors must stay silent; leaks are allowed.
            let r = expect_panic(|| history::<T, A>(c, mode));
            track::disarm();
            let _ = r;
            track::check();
            monalloc::check();
        }
        _ => {
            history::<T, A>(c, mode);
            track::assert_all_dropped("leak");
            same!("leak-zst", Zst::live(), z0);
            monalloc::check_empty("memory-leak");
        }
    }
    monalloc::no_fail();
    monalloc::reset();
}
fn history<T: Elem, A: AllocKind>(c: &mut Case, mode: Mode) {
    let mut m: Std<u32> = vec![];
    let mut o: Obj<T, A> = match c.rng.below(4) {
        0 => Obj::V(SVec::new_in(A::default())),
        1 => {
            let n = c.rng.idx(20);
            let v = SVec::<T, A>::with_capacity_in(n, A::default());
            must!("with_capacity", v.capacity() >= n, "with_capacity({n}) gave {}", v.capacity());
            Obj::V(v)
        }
        2 => {
            let n = c.rng.idx(30);
            m = (0..n).map(|_| c.rng.below(250) as u32).collect();
            let v: SVec<T, A> = m.iter().map(|k| T::make(*k)).collect();
            Obj::V(v)
        }
        _ => {
            let n = c.rng.idx(5);
            m = (0..n).map(|_| c.rng.below(250) as u32).collect();
            match c.rng.below(2) {
                0 => Obj::B(m.iter().map(|k| T::make(*k)).collect()),
                _ => Obj::A(m.iter().map(|k| T::make(*k)).collect()),
            }
        }
    };
    let steps = c.scale(60, 14);
    let steps = 1 + c.rng.idx(steps);
    if mode == Mode::Panics {
        // arm one panic in each kind of callback at a random distance
        match c.rng.below(4) {
            0 | 1 => track::panic_on_drop(c.rng.below(40)),
            2 => track::panic_on_clone(c.rng.below(20)),
            _ => track::panic_on_cmp(c.rng.below(20)),
        }
    }
    for _ in 0..steps {
        if m.len() > c.scale(4000, 60) {
            if let Obj::V(v) = &mut o {
                v.truncate(3);
                m.truncate(3);
            }
        }
        if mode == Mode::Faults {
            monalloc::no_fail();
            if c.rng.chance(2, 3) {
                monalloc::fail_after(c.rng.below(2), 1 + c.rng.below(3));
            }
        }
        o = match o {
            Obj::V(v) => step_vec(c, v, &mut m, mode),
            Obj::B(b) => step_boxed(c, b, &mut m, mode),
            Obj::A(a) => step_arc(c, a, &mut m, mode),
        };
        match &o {
            Obj::V(v) => check_vec(v, &m),
            Obj::B(b) => {
                check_slice(b.as_slice(), &m);
                same!("len", b.len(), m.len());
                same!("is_empty", b.is_empty(), m.is_empty());
            }
            Obj::A(a) => {
                check_slice(a.as_slice(), &m);
                same!("len", a.len(), m.len());
                same!("is_empty", a.is_empty(), m.is_empty());
            }
        }
        c.ev(m.len() as u64);
    }
    monalloc::no_fail();
    // Final ownership transfer
    match o {
        Obj::V(v) if c.rng.bool() => {
            let take = c.rng.idx(m.len() + 2);
            let mut it = v.into_iter();
            for i in 0..take {
                let g = it.next();
                same!("into_iter", g.as_ref().map(|g| g.key()), m.get(i).map(|k| want::<T>(&[*k])[0]));
            }
        }
        Obj::B(b) if c.rng.bool() => {
            let take = c.rng.idx(m.len() + 2);
            let mut it = b.into_iter();
            for i in 0..take {
                let g = it.next();
                same!("into_iter", g.as_ref().map(|g| g.key()), m.get(i).map(|k| want::<T>(&[*k])[0]));
            }
        }
        o => drop(o),
    }
}
fn mk<T: Elem>(c: &mut Case) -> (T, u32) {
    let k = c.rng.below(250) as u32;
    (T::make(k), k)
}
fn step_vec<T: Elem, A: AllocKind>(c: &mut Case, mut v: SVec<T, A>, m: &mut Std<u32>, mode: Mode) -> Obj<T, A> {
    let faults = mode == Mode::Faults;
    let panics = mode == Mode::Panics;
    let op = c.rng.below(34);
    c.ev(op);
    let len = m.len();
    let k1 = |k: u32| want::<T>(&[k])[0];
    match op {
        0..=3 => {
            let n = 1 + c.rng.idx(6);
            c.log(|| format!("push*{n}"));
            for _ in 0..n {
                let (e, k) = mk::<T>(c);
                if faults {
                    let before = track::live();
                    match v.try_push(e) {
                        Ok(()) => m.push(k),
                        Err(back) => {
                            same!("try_push-back", back.key(), k1(k));
                            same!("try_push-lost", track::live(), before);
                            c.ev(1001);
                        }
                    }
                } else {
                    v.push(e);
                    m.push(k);
                }
            }
        }
        4 => {
            c.log(|| "try_push".into());
            let (e, k) = mk::<T>(c);
            match v.try_push(e) {
                Ok(()) => m.push(k),
                Err(b) => {
                    same!("try_push-back", b.key(), k1(k));
                    must!("try_push-refused", faults, "try_push failed although the allocator never refuses");
                    c.ev(1001);
                }
            }
        }
        5 | 6 => {
            c.log(|| "pop".into());
            let g = v.pop();
            let w = m.pop();
            same!("pop", g.map(|e| e.key()), w.map(k1));
        }
        7 | 8 => {
            let i = c.rng.idx(len + 2);
            c.log(|| format!("remove({i})"));
            let g = v.remove(i).map(|e| e.key());
            let w = if i < len { Some(m.remove(i)) } else { None };
            same!("remove", g, w.map(k1));
        }
        9 => {
            let i = c.rng.idx(len + 2);
            c.log(|| format!("swap_remove({i})"));
            let g = v.swap_remove(i).map(|e| e.key());
            let w = if i < len { Some(m.swap_remove(i)) } else { None };
            same!("swap_remove", g, w.map(k1));
        }
        10 => {
            let (a, b) = (c.rng.idx(len + 1), c.rng.idx(len + 1));
            c.log(|| format!("swap({a},{b})"));
            if a < len && b < len {
                v.swap(a, b);
                m.swap(a, b);
            } else if !panics {
                must!("swap-out-of-range", expect_panic(|| v.swap(a, b)).is_err(), "swap({a},{b}) of {len} elements accepted");
            }
        }
        11 => {
            let n = c.rng.idx(len + 3);
            c.log(|| format!("truncate({n})"));
            let r = expect_panic(|| v.truncate(n));
            if let Err(e) = r {
                must!("truncate-panic", panics, "truncate panicked: {e}");
                must!("truncate-panic-len", v.len() <= len);
                *m = keys(&v);
            } else {
                m.truncate(n);
            }
        }
        12 => {
            let n = if c.rng.chance(1, 8) { c.rng.idx(300) } else { c.rng.idx(20) };
            c.log(|| format!("try_reserve({n})"));
            let (rem, cap) = (v.remaining_capacity(), v.capacity());
            match v.try_reserve(n) {
                Ok(cp) => {
                    must!("reserve", v.remaining_capacity() >= n, "reserve({n}) left room for {}", v.remaining_capacity());
                    if core::mem::size_of::<T>() != 0 {
                        same!("reserve-return", cp.get(), v.capacity());
                    }
                    if rem >= n {
                        same!("reserve-noop", v.capacity(), cap);
                    }
                    // pushing that many must not move the storage
                    let p = v.as_slice().as_ptr();
                    if n < 20 {
                        for _ in 0..n {
                            let (e, k) = mk::<T>(c);
                            v.push(e);
                            m.push(k);
                        }
                        must!("reserve-moved", p == v.as_slice().as_ptr(), "storage moved while pushing reserved elements");
                    }
                }
                Err(_) => {
                    must!("reserve-refused", faults, "try_reserve failed although the allocator never refuses");
                    same!("reserve-fail-cap", v.capacity(), cap);
                    c.ev(1002);
                }
            }
        }
        13 if !faults => {
            let n = c.rng.idx(20);
            v.reserve(n);
            must!("reserve", v.remaining_capacity() >= n);
        }
        14..=16 if !faults => {
            let n = c.rng.idx(12);
            let ks: Std<u32> = (0..n).map(|_| c.rng.below(250) as u32).collect();
            let items: Std<T> = ks.iter().map(|k| T::make(*k)).collect();
            let exact = c.rng.bool();
            let hint = if exact {
                (n, Some(n))
            } else {
                match c.rng.below(5) {
                    0 => (0, None),
                    1 => (n, None),
                    // iterators may legally over- or under-promise (size_hint is only a hint)
                    2 => (0, Some(n / 2)),
                    3 => (0, Some(n + 3)),
                    _ => (n.saturating_sub(2), Some(n)),
                }
            };
            let pi = if panics && c.rng.bool() { Some(c.rng.idx(n + 1)) } else { None };
            c.log(|| format!("extend({n},hint {hint:?})"));
            let it = Odd { items: items.into_iter(), hint, panic_in: pi };
            match expect_panic(|| v.extend(it)) {
                Ok(()) => m.extend_from_slice(&ks),
                Err(e) => {
                    must!("extend-panic", panics, "extend panicked: {e}");
                    *m = keys(&v);
                }
            }
        }
        17..=20 => {
            // drain
            let (a, b) = range_bounds(c, len, !panics);
            let kind = c.rng.below(5);
            let tried = c.rng.bool();
            c.log(|| format!("{}drain({a}..{b}) kind {kind}", if tried { "try_" } else { "" }));
            if a > b || b > len {
                if tried {
                    must!("try_drain-out-of-range", v.try_drain(a..b).is_none(), "try_drain({a}..{b}) of {len} accepted");
                } else {
                    must!("drain-out-of-range", expect_panic(|| drop(v.drain(a..b))).is_err(), "drain({a}..{b}) of {len} accepted");
                }
                return Obj::V(v);
            }
            let mut removed: Std<u32> = m[a..b].to_vec();
            let r = {
                let full: bool = c.rng.chance(1, 4);
                let incl = b > a && c.rng.chance(1, 3);
                let mut d = if tried {
                    let d = if full && a == 0 && b == len { v.try_drain(..) } else if full && b == len { v.try_drain(a..) } else if incl { v.try_drain(a..=b - 1) } else { v.try_drain(a..b) };
                    match d {
                        Some(d) => d,
                        None => viol!("try_drain-refused", "try_drain({a}..{b}) of {len} refused"),
                    }
                } else if full && a == 0 {
                    v.drain(..b)
                } else if incl {
                    v.drain((core::ops::Bound::Included(a), core::ops::Bound::Included(b - 1)))
                } else if a > 0 && c.rng.chance(1, 4) {
                    v.drain((core::ops::Bound::Excluded(a - 1), core::ops::Bound::Excluded(b)))
                } else {
                    v.drain(a..b)
                };
                same!("drain-len", d.len(), b - a);
                same!("drain-hint", d.size_hint(), (b - a, Some(b - a)));
                let take = c.rng.idx(b - a + 2);
                let mut front = 0;
                let mut out: Std<T> = vec![];
                for i in 0..take {
                    let g = d.next();
                    same!("drain-next", g.as_ref().map(|g| g.key()), removed.get(i).map(|k| k1(*k)));
                    if let Some(g) = g {
                        front += 1;
                        out.push(g);
                    }
                    same!("drain-len", d.len(), b - a - front);
                    same!("drain-hint", d.size_hint(), (b - a - front, Some(b - a - front)));
                    c.ev(front as u64);
                }
                match kind {
                    0 | 1 => expect_panic(|| drop(d)),
                    2 => {
                        let left = removed.split_off(front);
                        // what was not yielded goes back after the yielded hole
                        removed = m[a..a + front].to_vec();
                        let _ = left;
                        d.stop();
                        let mut nm = m[..a].to_vec();
                        nm.extend_from_slice(&m[a + front..]);
                        *m = nm;
                        drop(out);
                        return Obj::V(v);
                    }
                    _ => {
                        let mut de = d.double_ended();
                        let (mut lo, mut hi) = (front, b - a);
                        same!("drain-len", de.len(), hi - lo);
                        for _ in 0..c.rng.idx(b - a + 3) {
                            if c.rng.bool() {
                                let g = de.next();
                                let w = if lo < hi { lo += 1; Some(removed[lo - 1]) } else { None };
                                same!("drain-next", g.as_ref().map(|g| g.key()), w.map(k1));
                                out.extend(g);
                            } else {
                                let g = de.next_back();
                                let w = if lo < hi { hi -= 1; Some(removed[hi]) } else { None };
                                same!("drain-next_back", g.as_ref().map(|g| g.key()), w.map(k1));
                                out.extend(g);
                            }
                            same!("drain-len", de.len(), hi - lo);
                            same!("drain-hint", de.size_hint(), (hi - lo, Some(hi - lo)));
                        }
                        expect_panic(|| drop(de))
                    }
                }
            };
            if let Err(e) = r {
                must!("drain-panic", panics, "drain panicked: {e}");
                *m = keys(&v);
            } else {
                m.drain(a..b);
            }
        }
        21 => {
            if faults {
                return Obj::V(v);
            }
            c.log(|| "clone".into());
            let w = v.clone();
            check_vec(&w, m);
            must!("clone-eq", v == w.as_slice(), "a clone differs from its source");
            return if c.rng.bool() { Obj::V(w) } else { Obj::V(v) };
        }
        22 => {
            c.log(|| "iter_mut".into());
            for (i, e) in v.iter_mut().enumerate() {
                let k = (e.key() + 1) % 250;
                e.set(k);
                if let Some(x) = m.get_mut(i) {
                    *x = (*x + 1) % 250;
                }
            }
            same!("iter", v.iter().map(|e| e.key()).collect::<Std<_>>(), want::<T>(m));
        }
        23 => {
            c.log(|| "index".into());
            if len > 0 {
                let i = c.rng.idx(len);
                same!("index", v[i].key(), k1(m[i]));
                let (e, k) = mk::<T>(c);
                v[i] = e;
                m[i] = k;
                let (a, b) = range_bounds(c, len, false);
                same!("index-range", keys(&v[a..b]), want::<T>(&m[a..b]));
                same!("index-from", keys(&v[a..]), want::<T>(&m[a..]));
                same!("index-to", keys(&v[..b]), want::<T>(&m[..b]));
                same!("index-full", keys(&v[..]), want::<T>(m));
                if b > a {
                    same!("index-incl", keys(&v[a..=b - 1]), want::<T>(&m[a..b]));
                    same!("index-toincl", keys(&v[..=b - 1]), want::<T>(&m[..b]));
                }
                v[a..b].reverse();
                m[a..b].reverse();
            }
            if !panics {
                must!("index-out-of-range", expect_panic(|| v[len].key()).is_err(), "index {len} of {len} accepted");
            }
        }
        24 => {
            c.log(|| "sort".into());
            let r = expect_panic(|| v.sort());
            if r.is_err() {
                must!("sort-panic", panics);
                *m = keys(&v);
            } else {
                m.sort();
            }
        }
        25 => {
            // comparison, hashing and formatting
            c.log(|| "cmp".into());
            let mut o: Std<u32> = m.clone();
            match c.rng.below(4) {
                0 => {
                    o.pop();
                }
                1 => o.push(c.rng.below(250) as u32),
                2 if !o.is_empty() => {
                    let i = c.rng.idx(o.len());
                    o[i] = c.rng.below(250) as u32;
                }
                _ => {}
            }
            let os: Std<T> = o.iter().map(|k| T::make(*k)).collect();
            let ov: SVec<T, A> = if faults { return Obj::V(v) } else { o.iter().map(|k| T::make(*k)).collect() };
            let (wm, wo) = (want::<T>(m), want::<T>(&o));
            same!("eq", v == os, wm == wo);
            same!("eq", v == ov, wm == wo);
            same!("ne", v != ov.as_slice(), wm != wo);
            same!("partial_cmp", v.partial_cmp(&os), wm.partial_cmp(&wo));
            same!("lt", v < ov, wm < wo);
            same!("cmp", Ord::cmp(&v, &ov), wm.cmp(&wo));
            same!("hash", hash_of(v.as_slice()), hash_of(keys2::<T>(&wm).as_slice()));
            same!("debug", format!("{v:?}"), format!("{:?}", v.as_slice()));
        }
        26 | 27 => {
            // to a boxed slice, by several ways
            c.log(|| "->boxed".into());
            let cap = v.capacity();
            let b: BoxedSlice<T, A> = v.into();
            let _ = cap;
            return Obj::B(b);
        }
        28 | 29 => {
            c.log(|| "->arc".into());
            if faults && (v.capacity() == 0 || core::mem::size_of::<T>() == 0) {
                // this conversion is infallible and allocates: a refusal may only panic
                monalloc::no_fail();
            }
            return Obj::A(v.into());
        }
        30 => {
            // round trip through the iterator
            if faults {
                return Obj::V(v);
            }
            c.log(|| "rebuild".into());
            let skip = c.rng.idx(len + 1);
            let w: SVec<T, A> = v.into_iter().skip(skip).collect();
            m.drain(..skip);
            return Obj::V(w);
        }
        31 => {
            let n = c.rng.idx(20);
            if let Ok(w) = SVec::<T, A>::try_with_capacity_in(n, A::default()) {
                must!("with_capacity", w.capacity() >= n);
                check_vec(&w, &[]);
            } else {
                must!("with_capacity-refused", faults);
            }
            match SVec::<T, A>::try_with_capacity(n) {
                Ok(w) => must!("with_capacity", w.capacity() >= n),
                Err(_) => must!("with_capacity-refused", faults),
            }
        }
        32 => {
            c.log(|| "mem".into());
            // moving out through the public pointers
            if len > 0 {
                let (e, k) = mk::<T>(c);
                let i = c.rng.idx(len);
                let old = core::mem::replace(&mut v.as_slice_mut()[i], e);
                same!("replace", old.key(), k1(m[i]));
                m[i] = k;
            }
            same!("as_ref", keys(AsRef::<[T]>::as_ref(&v)), want::<T>(m));
            same!("as_mut", AsMut::<[T]>::as_mut(&mut v).len(), m.len());
            same!("first", v.first().map(|e| e.key()), m.first().map(|k| k1(*k)));
            same!("into_iter-ref", (&v).into_iter().count(), m.len());
        }
        _ => {
            // huge requests are refused, never wrapped around
            if core::mem::size_of::<T>() != 0 && !panics && (!cfg!(miri) || A::MON) {
                let n = *c.rng.pick(&[usize::MAX, usize::MAX / 2 + 1, usize::MAX - len, isize::MAX as usize, usize::MAX / core::mem::size_of::<T>(), (usize::MAX / core::mem::size_of::<T>()).wrapping_add(1)]);
                let n = n.wrapping_sub(c.rng.idx(3));
                if n > 1 << 40 {
                    c.log(|| format!("try_reserve({n:#x})"));
                    let cap = v.capacity();
                    let r = expect_panic(|| v.try_reserve(n).is_ok());
                    must!("huge-reserve", r == Ok(false), "try_reserve({n:#x}) gave {r:?}");
                    same!("huge-reserve-cap", v.capacity(), cap);
                    must!("huge-capacity", SVec::<T, A>::try_with_capacity_in(n, A::default()).is_err());
                    must!("huge-reserve", expect_panic(|| v.reserve(n)).is_err(), "reserve({n:#x}) succeeded");
                }
            }
        }
    }
    Obj::V(v)
}
fn keys2<T: Elem>(m: &[u32]) -> Std<T> {
    m.iter().map(|k| T::make(*k)).collect()
}
fn step_boxed<T: Elem, A: AllocKind>(c: &mut Case, mut b: BoxedSlice<T, A>, m: &mut Std<u32>, mode: Mode) -> Obj<T, A> {
    let faults = mode == Mode::Faults;
    let len = m.len();
    let op = 100 + c.rng.below(9);
    c.ev(op);
    match op {
        100 | 101 => {
            c.log(|| "boxed.try_push".into());
            // pushes without reallocating: succeeds iff there is spare capacity, never moves the storage
            let p = b.as_slice().as_ptr();
            for _ in 0..1 + c.rng.idx(6) {
                let (e, k) = mk::<T>(c);
                match b.try_push(e) {
                    Ok(()) => {
                        m.push(k);
                        must!("boxed-moved", p == b.as_slice().as_ptr());
                    }
                    Err(back) => {
                        same!("try_push-back", back.key(), want::<T>(&[k])[0]);
                        must!("boxed-zst-full", core::mem::size_of::<T>() != 0);
                        // it must really be full
                        let v: SVec<T, A> = b.into();
                        same!("boxed-try_push-refused-with-room", v.remaining_capacity(), 0);
                        b = v.into();
                        break;
                    }
                }
            }
        }
        102..=104 => {
            c.log(|| "boxed->vec".into());
            let p = b.as_slice().as_ptr();
            let v: SVec<T, A> = b.into();
            must!("boxed-moved", len == 0 || p == v.as_slice().as_ptr(), "conversion moved the elements");
            return Obj::V(v);
        }
        105 => {
            c.log(|| "boxed mut".into());
            b.as_slice_mut().reverse();
            m.reverse();
            for (e, k) in (&mut b).into_iter().zip(m.iter_mut()) {
                *k = (*k + 3) % 250;
                e.set(*k);
            }
            same!("boxed-iter", (&b).into_iter().map(|e| e.key()).collect::<Std<_>>(), want::<T>(m));
        }
        106 => {
            c.log(|| "boxed cmp".into());
            if faults {
                return Obj::B(b);
            }
            let mut o = m.clone();
            if c.rng.bool() && !o.is_empty() {
                let i = c.rng.idx(o.len());
                o[i] = c.rng.below(250) as u32;
            } else if c.rng.bool() {
                o.pop();
            }
            let ob: BoxedSlice<T, A> = o.iter().map(|k| T::make(*k)).collect();
            let (wm, wo) = (want::<T>(m), want::<T>(&o));
            same!("boxed-eq", b == ob, wm == wo);
            same!("boxed-cmp", b.cmp(&ob), wm.cmp(&wo));
            same!("boxed-partial_cmp", b.partial_cmp(&ob), wm.partial_cmp(&wo));
            same!("boxed-hash", hash_of(&b) == hash_of(&ob), wm == wo);
            same!("boxed-hash-std", hash_of(&b), hash_of(keys2::<T>(&wm).as_slice()));
            same!("boxed-debug", format!("{b:?}"), format!("{:?}", &b[..]));
        }
        107 => {
            if faults {
                return Obj::B(b);
            }
            c.log(|| "boxed into_iter".into());
            let skip = c.rng.idx(len + 1);
            let w: BoxedSlice<T, A> = b.into_iter().skip(skip).collect();
            m.drain(..skip);
            return Obj::B(w);
        }
        _ => {
            if faults {
                return Obj::B(b);
            }
            let n = c.rng.idx(12);
            c.log(|| format!("boxed with_capacity_in({n})"));
            let mut e = BoxedSlice::<T, A>::with_capacity_in(n, A::default());
            let mut em = vec![];
            same!("boxed-with_capacity", e.len(), 0);
            for _ in 0..n {
                let (x, k) = mk::<T>(c);
                match e.try_push(x) {
                    Ok(()) => em.push(k),
                    Err(_) => viol!("boxed-capacity", "a boxed slice with capacity {n} refused element {}", em.len()),
                }
            }
            check_slice(e.as_slice(), &em);
            if c.rng.bool() {
                *m = em;
                return Obj::B(e);
            }
        }
    }
    Obj::B(b)
}
fn step_arc<T: Elem, A: AllocKind>(c: &mut Case, mut a: ArcSlice<T, A>, m: &mut Std<u32>, mode: Mode) -> Obj<T, A> {
    let faults = mode == Mode::Faults;
    let op = 200 + c.rng.below(7);
    c.ev(op);
    same!("arc-strong", ArcSlice::strong_count(&a), 1);
    same!("arc-weak", ArcSlice::weak_count(&a), 1);
    match op {
        200..=202 => {
            let zst = core::mem::size_of::<T>() == 0;
            c.log(|| "arc->vec".into());
            let weak = c.rng.chance(1, 4).then(|| stabby::sync::WeakSlice::from(&a));
            let clone = c.rng.chance(1, 4).then(|| a.clone());
            let p = a.as_slice().as_ptr();
            let shared = weak.is_some() || clone.is_some();
            return match SVec::<T, A>::try_from(a) {
                Ok(v) => {
                    must!("arc-into-vec-shared", !shared, "a shared slice was turned into a vector");
                    must!("arc-moved", m.is_empty() || p == v.as_slice().as_ptr());
                    Obj::V(v)
                }
                Err(a) => {
                    must!("arc-into-vec-refused", shared || zst, "a unique slice was refused");
                    drop((weak, clone));
                    Obj::A(a)
                }
            };
        }
        203 => {
            c.log(|| "arc mut".into());
            let w = c.rng.bool().then(|| a.clone());
            match a.as_slice_mut() {
                Some(s) => {
                    must!("arc-mut-shared", w.is_none(), "mutable access to a shared slice");
                    s.reverse();
                    m.reverse();
                }
                None => must!("arc-mut-refused", w.is_some(), "unique slice refused mutable access"),
            }
        }
        204 => {
            c.log(|| "arc clones".into());
            let b = a.clone();
            same!("arc-strong", ArcSlice::strong_count(&a), 2);
            must!("arc-unique", !ArcSlice::is_unique(&a));
            let w = stabby::sync::WeakSlice::from(&b);
            let w2 = w.clone();
            same!("arc-weak", ArcSlice::weak_count(&a), 3);
            let (x, y) = if c.rng.bool() { (a, b) } else { (b, a) };
            drop(x);
            let u = w.upgrade();
            must!("arc-upgrade", u.is_some());
            check_slice(u.unwrap().as_slice(), m);
            drop((w, w2));
            same!("arc-strong", ArcSlice::strong_count(&y), 1);
            return Obj::A(y);
        }
        205 => {
            c.log(|| "arc cmp".into());
            if faults {
                return Obj::A(a);
            }
            let mut o = m.clone();
            if c.rng.bool() {
                o.pop();
            }
            let oa: ArcSlice<T, A> = o.iter().map(|k| T::make(*k)).collect();
            let (wm, wo) = (want::<T>(m), want::<T>(&o));
            same!("arc-eq", a == oa, wm == wo);
            same!("arc-cmp", a.cmp(&oa), wm.cmp(&wo));
            same!("arc-partial_cmp", a.partial_cmp(&oa), wm.partial_cmp(&wo));
            same!("arc-hash", hash_of(&a), hash_of(keys2::<T>(&wm).as_slice()));
            same!("arc-debug", format!("{a:?}"), format!("{:?}", &a[..]));
            same!("arc-iter", (&a).into_iter().count(), m.len());
        }
        _ => {
            c.log(|| "arc raw".into());
            let raw = ArcSlice::into_raw(a);
            a = unsafe { ArcSlice::from_raw(raw) };
        }
    }
    Obj::A(a)
}
/// Byte-level extras: copy_extend, io::Write, From<&[T]>, hexadecimal formatting.
pub fn bytes<A: AllocKind>(c: &mut Case, mode: Mode) {
    let faults = mode == Mode::Faults;
    use std::io::Write;
    monalloc::reset();
    let mut v: SVec<u8, A> = SVec::new_in(A::default());
    let mut m: Std<u8> = vec![];
    let n = c.scale(30, 8);
    for _ in 0..1 + c.rng.idx(n) {
        let n = if c.rng.chance(1, 10) { c.rng.idx(c.scale(3000, 40)) } else { c.rng.idx(20) };
        let s: Std<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
        let op = c.rng.below(8);
        c.ev(op);
        let fault = faults && c.rng.bool();
        let refused0 = monalloc::counts().3;
        if fault {
            monalloc::fail_after(0, 1);
        }
        if op < 4 {
            c.log(|| format!("extend {op} by {} (fault: {fault}, room {})", s.len(), v.remaining_capacity()));
            let done = match op {
                0 => expect_panic(|| v.copy_extend(&s)).is_ok(),
                1 => v.try_copy_extend(&s).is_ok(),
                2 => match v.write(&s) {
                    Ok(n) => {
                        same!("write", n, s.len());
                        true
                    }
                    Err(e) => {
                        must!("write-error", e.kind() == std::io::ErrorKind::OutOfMemory, "{e:?}");
                        false
                    }
                },
                _ => v.write_all(&s).is_ok() && v.flush().is_ok(),
            };
            monalloc::no_fail();
            let refused = monalloc::counts().3 > refused0;
            same!("extend-refused", done, !refused, "op {op}");
            if done {
                m.extend_from_slice(&s);
            } else {
                c.ev(0xFA11);
            }
            same!("bytes", v.as_slice(), m.as_slice());
            must!("capacity", v.capacity() >= m.len());
            continue;
        }
        monalloc::no_fail();
        match op {
            7 => {
                v.reserve(s.len());
                continue;
            }
            4 => {
                v = SVec::from(s.as_slice());
                m.clear();
            }
            5 => {
                let b: BoxedSlice<u8, A> = BoxedSlice::from(s.as_slice());
                same!("boxed-from", b.as_slice(), s.as_slice());
                let a: ArcSlice<u8, A> = ArcSlice::from(s.as_slice());
                same!("arc-from", a.as_slice(), s.as_slice());
                let hex = s.iter().map(|b| format!("{b:x}")).collect::<Std<_>>().join(":");
                let uhex = s.iter().map(|b| format!("{b:02X}")).collect::<Std<_>>().join(":");
                same!("boxed-lowerhex", format!("{b:x}"), hex);
                same!("arc-lowerhex", format!("{a:x}"), hex);
                same!("boxed-upperhex", format!("{b:02X}"), uhex);
                same!("arc-upperhex", format!("{a:02X}"), uhex);
                continue;
            }
            _ => {
                let hex = m.iter().map(|b| format!("{b:02x}")).collect::<Std<_>>().join(":");
                let uhex = m.iter().map(|b| format!("{b:X}")).collect::<Std<_>>().join(":");
                same!("lowerhex", format!("{v:02x}"), hex);
                same!("upperhex", format!("{v:X}"), uhex);
                continue;
            }
        }
        m.extend_from_slice(&s);
        same!("bytes", v.as_slice(), m.as_slice());
    }
    c.log(|| format!("bytes[{}]<{}>", m.len(), A::NAME));
    drop(v);
    monalloc::check_empty("memory-leak");
    monalloc::reset();
}
