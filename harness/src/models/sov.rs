//! Histories over SingleOrVec against `std::vec::Vec<u32>` of keys.
pub use super::{AllocKind, Mode};
pub use crate::models::vec::Odd;
pub use crate::track::{self, Elem, Zst};
pub use crate::{mix, expect_panic, fnv, monalloc, must, same, Case};
pub use stabby::alloc::single_or_vec::SingleOrVec;
pub use stabby::vec::Vec as SVec;
pub type Std<T> = std::vec::Vec<T>;
pub fn keys<T: Elem>(s: &[T]) -> Std<u32> {
    s.iter().map(|e| e.key()).collect()
}
/// `Single<T, A>` can't be named from outside of stabby, so this is instantiated for each pair of types.

#[macro_export]
macro_rules! sov_model {
    ($name: ident, $t: ty, $a: ty) => {
        pub mod $name {
        use $crate::models::sov::*;
        type T = $t; type A = $a;
        pub fn run(c: &mut Case, mode: Mode) {
            track::reset();
            monalloc::reset();
            let z0 = Zst::live();
            c.hash = mix(c.hash, fnv(T::NAME.as_bytes()) ^ fnv(A::NAME.as_bytes()));
            c.log(|| format!("SingleOrVec<{},{}> {:?}:", T::NAME, A::NAME, mode));
            if mode == Mode::Panics {
                let _ = expect_panic(|| history(c, mode));
                track::disarm();
                track::check();
                monalloc::check();
            } else {
                history(c, mode);
                track::assert_all_dropped("leak");
                same!("leak-zst", Zst::live(), z0);
                monalloc::check_empty("memory-leak");
            }
            monalloc::no_fail();
            monalloc::reset();
        }
        fn history(c: &mut Case, mode: Mode) {
            let faults = mode == Mode::Faults;
            let panics = mode == Mode::Panics;
            let mut m: Std<u32> = vec![];
            let mut v: SingleOrVec<T, A> = match c.rng.below(4) {
                0 | 1 => SingleOrVec::new_in(A::default()),
                2 => SingleOrVec::default(),
                _ => {
                    let n = c.rng.idx(10);
                    let v = SingleOrVec::with_capacity_in(n, A::default());
                    let v: SingleOrVec<T, A> = v;
                    must!("with_capacity", v.capacity() >= n);
                    v
                }
            };
            if panics {
                match c.rng.below(4) {
                    0 | 1 => track::panic_on_drop(c.rng.below(12)),
                    2 => track::panic_on_clone(c.rng.below(8)),
                    _ => track::panic_on_cmp(c.rng.below(20)),
                }
            }
            let steps = c.scale(24, 10);
            for _ in 0..1 + c.rng.idx(steps) {
                if faults {
                    monalloc::no_fail();
                    if c.rng.chance(2, 3) {
                        monalloc::fail_after(c.rng.below(2), 1 + c.rng.below(3));
                    }
                }
                let len = m.len();
                let op = c.rng.below(16);
                c.ev(op);
                match op {
                    0..=3 => {
                        c.log(|| "push".into());
                        let k = c.rng.below(250) as u32;
                        let e = T::make(k);
                        if faults || c.rng.bool() {
                            match v.try_push(e) {
                                Ok(()) => m.push(k),
                                Err(b) => {
                                    must!("try_push-refused", faults);
                                    same!("try_push-back", b.key(), k);
                                }
                            }
                        } else {
                            v.push(e);
                            m.push(k);
                        }
                    }
                    4..=6 => {
                        let n = *c.rng.pick(&[0, 0, 1, 1, 2, 5, len, len + 3]);
                        c.log(|| format!("truncate({n})"));
                        match expect_panic(|| v.truncate(n)) {
                            Ok(()) => m.truncate(n),
                            Err(e) => {
                                must!("truncate-panic", panics, "truncate panicked: {e}");
                                m = keys(v.as_slice());
                            }
                        }
                    }
                    7 | 8 => {
                        let n = c.rng.idx(12);
                        c.log(|| format!("try_reserve({n})"));
                        match v.try_reserve(n) {
                            Ok(_) => must!("reserve", v.remaining_capacity() >= n || core::mem::size_of::<T>() == 0, "reserve({n}) left room for {}", v.remaining_capacity()),
                            Err(_) => must!("reserve-refused", faults),
                        }
                    }
                    9 if !faults => {
                        let n = c.rng.idx(5);
                        let ks: Std<u32> = (0..n).map(|_| c.rng.below(250) as u32).collect();
                        c.log(|| format!("extend({n})"));
                        let hint = *c.rng.pick(&[(n, Some(n)), (0, None), (0, Some(0))]);
                        let pi = if panics && c.rng.bool() { Some(c.rng.idx(n + 1)) } else { None };
                        let it = Odd { items: ks.iter().map(|k| T::make(*k)).collect::<Std<T>>().into_iter(), hint, panic_in: pi };
                        match expect_panic(|| v.extend(it)) {
                            Ok(()) => m.extend_from_slice(&ks),
                            Err(_) => {
                                must!("extend-panic", panics);
                                m = keys(v.as_slice());
                            }
                        }
                    }
                    10 if !faults => {
                        c.log(|| "clone".into());
                        let w = v.clone();
                        same!("clone", keys(w.as_slice()), m);
                        must!("eq", v == w.as_slice());
                        same!("cmp", Ord::cmp(&v, &w), core::cmp::Ordering::Equal);
                        if c.rng.bool() {
                            v = w;
                        }
                    }
                    11 => {
                        c.log(|| "slice_mut".into());
                        {
                            let mut s = v.as_slice_mut();
                            same!("slice_mut-len", s.len(), len);
                            for (i, k) in m.iter_mut().enumerate() {
                                same!("slice_mut", s[i].key(), *k);
                                *k = c.rng.below(250) as u32;
                                s[i].set(*k);
                            }
                        }
                        if c.rng.bool() {
                            let mut it = (&mut v).into_iter();
                            let (mut a, mut b) = (0, len);
                            for _ in 0..c.rng.idx(len + 3) {
                                same!("iter_mut-len", it.len(), b - a);
                                same!("iter_mut-hint", it.size_hint(), (b - a, Some(b - a)));
                                let n = c.rng.idx(3);
                                let (g, w) = match c.rng.below(4) {
                                    0 => {
                                        let w = if a < b { a += 1; Some(a - 1) } else { None };
                                        (it.next(), w)
                                    }
                                    1 => {
                                        let w = if a < b { b -= 1; Some(b) } else { None };
                                        (it.next_back(), w)
                                    }
                                    2 => {
                                        let w = if a + n < b { a += n + 1; Some(a - 1) } else { a = b; None };
                                        (it.nth(n), w)
                                    }
                                    _ => {
                                        let w = if a + n < b { b -= n + 1; Some(b) } else { b = a; None };
                                        (it.nth_back(n), w)
                                    }
                                };
                                same!("iter_mut", g.as_ref().map(|g| g.key()), w.map(|w| m[w]));
                                if let (Some(g), Some(w)) = (g, w) {
                                    m[w] = c.rng.below(250) as u32;
                                    g.set(m[w]);
                                }
                                if a == b && c.rng.bool() {
                                    break;
                                }
                            }
                        }
                    }
                    12 if !faults => {
                        c.log(|| "->vec->".into());
                        let w: SVec<T, A> = v.into();
                        same!("into_vec", keys(w.as_slice()), m);
                        v = w.into();
                    }
                    13 => {
                        same!("iter", (&v).into_iter().map(|e| e.key()).collect::<Std<_>>(), m);
                        if len > 0 {
                            let i = c.rng.idx(len);
                            same!("index", v[i].key(), m[i]);
                            same!("index-range", keys(&v[i..]), m[i..].to_vec());
                        }
                        if !panics {
                            must!("index-out-of-range", expect_panic(|| v[len].key()).is_err());
                        }
                        let mut o = m.clone();
                        if c.rng.bool() {
                            o.push(1);
                        }
                        let os: Std<T> = o.iter().map(|k| T::make(*k)).collect();
                        same!("eq", v == os, m == o);
                        same!("partial_cmp", v.partial_cmp(&os), m.partial_cmp(&o));
                    }
                    14 if !cfg!(miri) || <A as AllocKind>::MON => {
                        let n = *c.rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, usize::MAX - len]);
                        c.log(|| format!("try_reserve({n:#x})"));
                        let r = expect_panic(|| v.try_reserve(n).is_ok());
                        must!("huge-reserve", r == Ok(false), "try_reserve({n:#x}) gave {r:?}");
                    }
                    _ => {}
                }
                // invariants
                track::check();
                same!("len", v.len(), m.len());
                same!("is_empty", v.is_empty(), m.is_empty());
                must!("capacity-below-length", v.capacity() >= v.len());
                same!("remaining_capacity", v.remaining_capacity(), v.capacity() - v.len());
                same!("content", keys(v.as_slice()), m);
                same!("as_ref", AsRef::<[T]>::as_ref(&v).len(), m.len());
                let p = v.as_slice().as_ptr() as usize;
                must!("misaligned", p % core::mem::align_of::<T>() == 0);
                c.ev(m.len() as u64);
            }
            monalloc::no_fail();
            if c.rng.bool() {
                let w: SVec<T, A> = v.into();
                same!("into_vec", keys(w.as_slice()), m);
            }
        }
        }
    };
}
