//! Histories over Box, Arc, Weak, ArcSlice, WeakSlice and AtomicArc against explicit owner counts.
use super::{AllocKind, Mode};
use crate::track::{self, Elem, Zst};
use crate::{expect_panic, fnv, monalloc, must, same, viol, Case};
use core::mem::MaybeUninit;
use stabby::boxed::Box as SBox;
use stabby::sync::{Arc, ArcSlice, AtomicArc, Weak, WeakSlice};
use stabby::vec::Vec as SVec;
use std::sync::atomic::Ordering;
enum H<T: 'static, A: AllocKind> {
    Box(SBox<T, A>),
    Arc(Arc<T, A>),
    Weak(Weak<T, A>),
    Slice(ArcSlice<T, A>),
    WeakSlice(WeakSlice<T, A>),
    /// An atomic cell and the objects it holds (None when empty).
    Cell(AtomicArc<T, A>),
}
#[derive(Clone, Debug)]
struct Obj {
    key: u32,
    strong: usize,
    weak: usize,
    /// tracked as a box (no counts)
    boxed: bool,
}
struct World<T: 'static, A: AllocKind> {
    hs: std::vec::Vec<(H<T, A>, Option<usize>)>,
    objs: std::vec::Vec<Obj>,
}
impl<T: Elem, A: AllocKind> World<T, A> {
    fn k(&self, o: usize) -> u32 {
        if T::DISTINCT {
            self.objs[o].key
        } else {
            0
        }
    }
    fn alive(&self) -> usize {
        self.objs.iter().filter(|o| o.strong > 0).count()
    }
    /// Checks everything observable through one handle.
    fn check(&self, i: usize) {
        let (h, o) = &self.hs[i];
        match (h, o) {
            (H::Box(b), Some(o)) => same!("box-content", b.key(), self.k(*o)),
            (H::Arc(a), Some(o)) => {
                let ob = &self.objs[*o];
                same!("arc-content", a.key(), self.k(*o));
                same!("strong_count", Arc::strong_count(a), ob.strong);
                same!("weak_count", Arc::weak_count(a), ob.weak + 1);
                same!("is_unique", Arc::is_unique(a), ob.strong == 1 && ob.weak == 0);
            }
            (H::Slice(s), Some(o)) => {
                let ob = &self.objs[*o];
                same!("arcslice-len", s.len(), 1);
                same!("arcslice-content", s.as_slice()[0].key(), self.k(*o));
                same!("slice-strong_count", ArcSlice::strong_count(s), ob.strong);
                same!("slice-weak_count", ArcSlice::weak_count(s), ob.weak + 1);
                same!("slice-is_unique", ArcSlice::is_unique(s), ob.strong == 1 && ob.weak == 0);
            }
            (H::Weak(w), Some(o)) => {
                let alive = self.objs[*o].strong > 0;
                match w.upgrade() {
                    Some(a) => {
                        must!("upgrade-dead", alive, "a weak pointer was upgraded although no strong owner is left");
                        same!("upgrade-content", a.key(), self.k(*o));
                        same!("upgrade-count", Arc::strong_count(&a), self.objs[*o].strong + 1);
                    }
                    None => must!("upgrade-refused", !alive, "upgrade failed although {} strong owner(s) remain", self.objs[*o].strong),
                }
            }
            (H::WeakSlice(w), Some(o)) => {
                let alive = self.objs[*o].strong > 0;
                match w.upgrade() {
                    Some(a) => {
                        must!("slice-upgrade-dead", alive);
                        same!("slice-upgrade-content", a[0].key(), self.k(*o));
                    }
                    None => must!("slice-upgrade-refused", !alive),
                }
            }
            (H::Cell(c), o) => {
                let l = c.load(Ordering::SeqCst);
                match (l, o) {
                    (None, None) => must!("cell-is", c.is(None, Ordering::Relaxed).is_ok()),
                    (Some(a), Some(o)) => {
                        same!("cell-content", a.key(), self.k(*o));
                        same!("cell-count", Arc::strong_count(&a), self.objs[*o].strong + 1);
                        must!("cell-is", c.is(Some(&a), Ordering::Acquire).is_ok());
                    }
                    (l, o) => viol!("cell-content", "cell holds {:?}, expected {:?}", l.map(|l| l.key()), o),
                }
            }
            _ => unreachable!(),
        }
    }
    fn release(&mut self, h: H<T, A>, o: Option<usize>) {
        if let Some(o) = o {
            match h {
                H::Weak(_) | H::WeakSlice(_) => self.objs[o].weak -= 1,
                _ => self.objs[o].strong -= 1,
            }
        }
        drop(h);
    }
    fn add(&mut self, key: u32, boxed: bool) -> usize {
        self.objs.push(Obj { key, strong: 1, weak: 0, boxed });
        self.objs.len() - 1
    }
}
pub fn run<T: Elem, A: AllocKind>(c: &mut Case, mode: Mode) {
    track::reset();
    monalloc::reset();
    let z0 = Zst::live();
    c.hash = crate::mix(c.hash, fnv(T::NAME.as_bytes()) ^ fnv(A::NAME.as_bytes()) ^ 77);
    c.log(|| format!("pointers<{},{}> {:?}:", T::NAME, A::NAME, mode));
    if mode == Mode::Panics {
        let _ = expect_panic(|| history::<T, A>(c, mode));
        track::disarm();
        track::check();
        monalloc::check();
    } else {
        history::<T, A>(c, mode);
        track::assert_all_dropped("leak");
        same!("leak-zst", Zst::live(), z0);
        monalloc::check_empty("memory-leak");
    }
    monalloc::no_fail();
    monalloc::reset();
}
fn history<T: Elem, A: AllocKind>(c: &mut Case, mode: Mode) {
    let mut w: World<T, A> = World { hs: vec![], objs: vec![] };
    let faults = mode == Mode::Faults;
    let panics = mode == Mode::Panics;
    if panics {
        match c.rng.below(3) {
            0 | 1 => track::panic_on_drop(c.rng.below(12)),
            _ => track::panic_on_clone(c.rng.below(6)),
        }
    }
    let tracked = T::NAME.starts_with("Tracked");
    let n = c.scale(60, 24);
    let steps = 2 + c.rng.idx(n);
    for _ in 0..steps {
        if faults {
            monalloc::no_fail();
        }
        let op = if w.hs.is_empty() || c.rng.chance(1, 5) { 0 } else { 1 };
        c.ev(op);
        if op == 0 {
            let k = c.rng.below(250) as u32;
            let how = c.rng.below(10);
            let v = T::make(k);
            let before = track::live();
            c.log(|| format!("new{how}({k})"));
            let a = A::default();
            if faults && c.rng.bool() {
                // this allocation is refused
                monalloc::fail_after(0, 1);
                c.ev(0xFA11);
                match how {
                    0..=2 => match SBox::try_new_in(v, a) {
                        Ok(_) => viol!("fault-ignored", "a refused allocation gave a box"),
                        Err((v, _)) => same!("try_new-back", v.key(), if T::DISTINCT { k } else { 0 }),
                    },
                    3..=5 => match Arc::try_new_in(v, a) {
                        Ok(_) => viol!("fault-ignored", "a refused allocation gave an Arc"),
                        Err((v, _)) => same!("try_new-back", v.key(), if T::DISTINCT { k } else { 0 }),
                    },
                    6 => must!("fault-ignored", expect_panic(|| drop(SBox::new_in(v, a))).is_err(), "Box::new_in continued with a refused allocation"),
                    7 => must!("fault-ignored", expect_panic(|| drop(Arc::new_in(v, a))).is_err(), "Arc::new_in continued with a refused allocation"),
                    8 => match unsafe { SBox::try_make_in(move |s: &mut MaybeUninit<T>| Ok(s.write(v)), a) } {
                        Err(Err((f, _))) => drop(f),
                        _ => viol!("fault-ignored", "try_make_in continued with a refused allocation"),
                    },
                    _ => match unsafe { Arc::try_make_in(move |s: &mut MaybeUninit<T>| Ok(s.write(v)), a) } {
                        Err(Err((f, _))) => drop(f),
                        _ => viol!("fault-ignored", "try_make_in continued with a refused allocation"),
                    },
                }
                monalloc::no_fail();
                if tracked {
                    track::check();
                    same!("fault-lost", track::live(), before - 1);
                }
                continue;
            }
            let (h, boxed) = match how {
                0 | 1 => (H::Box(SBox::new_in(v, a)), true),
                2 => match SBox::try_new_in(v, a) {
                    Ok(b) => (H::Box(b), true),
                    Err(_) => viol!("try_new-refused", "Box::try_new_in failed without a fault"),
                },
                3..=5 => (H::Arc(Arc::new_in(v, a)), false),
                6 => match Arc::try_new_in(v, a) {
                    Ok(b) => (H::Arc(b), false),
                    Err(_) => viol!("try_new-refused", "Arc::try_new_in failed without a fault"),
                },
                7 => {
                    // failing constructors give the uninitialised allocation back
                    match unsafe { SBox::<T, A>::make_in(|_| Err(()), a) } {
                        Ok(_) => viol!("make-failed", "failed construction yielded a box"),
                        Err(mut u) => {
                            u.write(v);
                            if tracked {
                                track::check();
                            }
                            let v = unsafe { core::ptr::read((*u).as_ptr()) };
                            drop(u);
                            (H::Box(SBox::new_in(v, A::default())), true)
                        }
                    }
                }
                8 => match unsafe { Arc::<T, A>::try_make_in(|_| Err(()), a) } {
                    Err(Ok(mut u)) => {
                        same!("make-counts", (Arc::strong_count(&u), Arc::weak_count(&u)), (1, 1));
                        let raw = {
                            Arc::get_mut(&mut u).expect("unique").write(v);
                            Arc::into_raw(u)
                        };
                        (H::Arc(unsafe { Arc::from_raw(raw.assume_init()) }), false)
                    }
                    _ => viol!("make-failed", "failed construction did not give back its allocation"),
                },
                _ => match unsafe { Arc::<T, A>::make_in(move |s| Ok(s.write(v)), a) } {
                    Ok(a) => (H::Arc(a), false),
                    Err(_) => viol!("make-refused", "construction failed"),
                },
            };
            let o = w.add(k, boxed);
            w.hs.push((h, Some(o)));
        } else {
            let i = c.rng.idx(w.hs.len());
            let sel = c.rng.below(14);
            c.ev(sel);
            let (h, o) = w.hs.swap_remove(i);
            match h {
                H::Box(mut b) => {
                    let o = o.unwrap();
                    match sel {
                        0..=2 => {
                            c.log(|| "box-mut".into());
                            let k = c.rng.below(250) as u32;
                            b.set(k);
                            w.objs[o].key = k;
                            w.hs.push((H::Box(b), Some(o)));
                        }
                        3 | 4 => {
                            c.log(|| "box-clone".into());
                            let k = w.objs[o].key;
                            if faults && c.rng.bool() {
                                monalloc::fail_after(0, 1);
                                let live = track::live();
                                must!("fault-ignored", expect_panic(|| drop(b.clone())).is_err(), "cloning a box continued with a refused allocation");
                                monalloc::no_fail();
                                if tracked {
                                    track::check();
                                    same!("fault-lost", track::live(), live);
                                }
                                c.ev(0xFA11);
                            } else {
                                let n = b.clone();
                                let o2 = w.add(k, true);
                                w.hs.push((H::Box(n), Some(o2)));
                            }
                            w.hs.push((H::Box(b), Some(o)));
                        }
                        5..=7 => {
                            c.log(|| "into_inner".into());
                            let live = track::live();
                            let v = SBox::into_inner(b);
                            if tracked {
                                track::check();
                                same!("into_inner-drops", track::live(), live);
                            }
                            same!("into_inner", v.key(), w.k(o));
                            w.objs[o].strong = 0;
                            drop(v);
                        }
                        8 | 9 => {
                            c.log(|| "box-raw".into());
                            let b = unsafe { SBox::from_raw(SBox::into_raw(b)) };
                            w.hs.push((H::Box(b), Some(o)));
                        }
                        _ => {
                            c.log(|| "box-drop".into());
                            w.release(H::Box(b), Some(o));
                        }
                    }
                }
                H::Arc(mut a) => {
                    let o = o.unwrap();
                    match sel {
                        0 | 1 => {
                            c.log(|| "arc-clone".into());
                            let n = if c.rng.bool() { a.clone() } else { Arc::from(&a) };
                            must!("clone-moved", core::ptr::eq(&*n, &*a), "a clone refers to another value");
                            w.objs[o].strong += 1;
                            w.hs.push((H::Arc(n), Some(o)));
                            w.hs.push((H::Arc(a), Some(o)));
                        }
                        2 | 3 => {
                            c.log(|| "downgrade".into());
                            let n = if c.rng.bool() { Arc::downgrade(&a) } else { Weak::from(&a) };
                            w.objs[o].weak += 1;
                            w.hs.push((H::Weak(n), Some(o)));
                            w.hs.push((H::Arc(a), Some(o)));
                        }
                        4 => {
                            c.log(|| "get_mut".into());
                            let unique = w.objs[o].strong == 1 && w.objs[o].weak == 0;
                            match Arc::get_mut(&mut a) {
                                Some(v) => {
                                    must!("get_mut-shared", unique, "mutable access to a value with other owners");
                                    let k = c.rng.below(250) as u32;
                                    v.set(k);
                                    w.objs[o].key = k;
                                }
                                None => must!("get_mut-refused", !unique, "a sole owner was refused mutable access"),
                            }
                            w.hs.push((H::Arc(a), Some(o)));
                        }
                        5 | 6 => {
                            let unique = w.objs[o].strong == 1 && w.objs[o].weak == 0;
                            c.log(|| format!("make_mut(unique {unique})"));
                            let old = w.objs[o].key;
                            if faults && !unique && c.rng.bool() {
                                monalloc::fail_after(0, 1);
                                let live = track::live();
                                must!("fault-ignored", expect_panic(|| drop(a.make_mut().key())).is_err(), "make_mut continued with a refused allocation");
                                monalloc::no_fail();
                                if tracked {
                                    track::check();
                                    same!("fault-lost", track::live(), live);
                                }
                                same!("fault-changed", a.key(), w.k(o));
                                w.hs.push((H::Arc(a), Some(o)));
                                c.ev(0xFA11);
                                continue;
                            }
                            let p: *const T = &*a;
                            let v = a.make_mut();
                            same!("make_mut-content", v.key(), if T::DISTINCT { old } else { 0 });
                            if core::mem::size_of::<T>() != 0 {
                                same!("make_mut-moved", core::ptr::eq(p, v), unique);
                            }
                            let k = c.rng.below(250) as u32;
                            v.set(k);
                            if unique {
                                w.objs[o].key = k;
                                w.hs.push((H::Arc(a), Some(o)));
                            } else {
                                w.objs[o].strong -= 1;
                                let o2 = w.add(k, false);
                                w.hs.push((H::Arc(a), Some(o2)));
                            }
                        }
                        7 => {
                            c.log(|| "try_into_inner".into());
                            let unique = w.objs[o].strong == 1 && w.objs[o].weak == 0;
                            let live = track::live();
                            match Arc::try_into_inner(a) {
                                Ok(v) => {
                                    must!("into_inner-shared", unique, "a shared value was moved out");
                                    if tracked {
                                        track::check();
                                        same!("into_inner-drops", track::live(), live);
                                    }
                                    same!("into_inner", v.key(), w.k(o));
                                    w.objs[o].strong = 0;
                                }
                                Err(a) => {
                                    must!("into_inner-refused", !unique);
                                    w.hs.push((H::Arc(a), Some(o)));
                                }
                            }
                        }
                        8 => {
                            c.log(|| "arc-raw".into());
                            // the raw constructors must be inverse of each other, and counts may be adjusted by hand
                            let raw = Arc::into_raw(a);
                            let a: Arc<T, A> = unsafe { Arc::from_raw(raw) };
                            let p: *const T = raw.as_ptr();
                            if c.rng.bool() {
                                let prev = unsafe { Arc::<T, A>::increment_strong_count(p) };
                                same!("increment_strong_count", prev, w.objs[o].strong);
                                w.objs[o].strong += 1;
                                w.hs.push((H::Arc(unsafe { Arc::from_raw(raw) }), Some(o)));
                            }
                            if c.rng.bool() {
                                let prev = Arc::increment_weak_count(&a);
                                same!("increment_weak_count", prev, w.objs[o].weak + 1);
                                w.objs[o].weak += 1;
                                w.hs.push((H::Weak(unsafe { Weak::from_raw(raw) }), Some(o)));
                            }
                            w.hs.push((H::Arc(a), Some(o)));
                        }
                        9 => {
                            c.log(|| "arc->slice".into());
                            w.hs.push((H::Slice(a.into()), Some(o)));
                        }
                        10 => {
                            c.log(|| "arc->cell".into());
                            w.hs.push((H::Cell(AtomicArc::new(Some(a))), Some(o)));
                        }
                        _ => {
                            c.log(|| "arc-drop".into());
                            w.release(H::Arc(a), Some(o));
                        }
                    }
                }
                H::Weak(k) => {
                    let o = o.unwrap();
                    match sel {
                        0..=2 => {
                            c.log(|| "upgrade".into());
                            let alive = w.objs[o].strong > 0;
                            match k.upgrade() {
                                Some(a) => {
                                    must!("upgrade-dead", alive, "a weak pointer was upgraded although no strong owner is left");
                                    w.objs[o].strong += 1;
                                    w.hs.push((H::Arc(a), Some(o)));
                                }
                                None => must!("upgrade-refused", !alive),
                            }
                            w.hs.push((H::Weak(k), Some(o)));
                        }
                        3 | 4 => {
                            c.log(|| "weak-clone".into());
                            let n = if c.rng.bool() { k.clone() } else { Weak::from(&k) };
                            w.objs[o].weak += 1;
                            w.hs.push((H::Weak(n), Some(o)));
                            w.hs.push((H::Weak(k), Some(o)));
                        }
                        5 => {
                            let k = unsafe { Weak::from_raw(Weak::into_raw(k)) };
                            w.hs.push((H::Weak(k), Some(o)));
                        }
                        _ => {
                            c.log(|| "weak-drop".into());
                            w.release(H::Weak(k), Some(o));
                        }
                    }
                }
                H::Slice(mut s) => {
                    let o = o.unwrap();
                    match sel {
                        0 | 1 => {
                            let n = if c.rng.bool() { s.clone() } else { ArcSlice::from(&s) };
                            w.objs[o].strong += 1;
                            w.hs.push((H::Slice(n), Some(o)));
                            w.hs.push((H::Slice(s), Some(o)));
                        }
                        2 | 3 => {
                            w.objs[o].weak += 1;
                            w.hs.push((H::WeakSlice(WeakSlice::from(&s)), Some(o)));
                            w.hs.push((H::Slice(s), Some(o)));
                        }
                        4 => {
                            let unique = w.objs[o].strong == 1 && w.objs[o].weak == 0;
                            match s.as_slice_mut() {
                                Some(v) => {
                                    must!("slice-mut-shared", unique);
                                    let k = c.rng.below(250) as u32;
                                    v[0].set(k);
                                    w.objs[o].key = k;
                                }
                                None => must!("slice-mut-refused", !unique),
                            }
                            w.hs.push((H::Slice(s), Some(o)));
                        }
                        5 | 6 => {
                            c.log(|| "slice->vec".into());
                            let unique = w.objs[o].strong == 1 && w.objs[o].weak == 0;
                            match SVec::<T, A>::try_from(s) {
                                Ok(mut v) => {
                                    must!("slice-vec-shared", unique, "a shared slice became a vector");
                                    same!("slice-vec-len", v.len(), 1);
                                    same!("slice-vec", v[0].key(), w.k(o));
                                    same!("slice-vec-capacity", v.capacity(), 1);
                                    if c.rng.bool() {
                                        let k = c.rng.below(250) as u32;
                                        v.push(T::make(k));
                                        same!("slice-vec", v[0].key(), w.k(o));
                                        same!("slice-vec", v[1].key(), if T::DISTINCT { k } else { 0 });
                                    }
                                    w.objs[o].strong = 0;
                                }
                                Err(s) => {
                                    must!("slice-vec-refused", !unique || core::mem::size_of::<T>() == 0);
                                    w.hs.push((H::Slice(s), Some(o)));
                                }
                            }
                        }
                        _ => {
                            c.log(|| "slice-drop".into());
                            w.release(H::Slice(s), Some(o));
                        }
                    }
                }
                H::WeakSlice(k) => {
                    let o = o.unwrap();
                    match sel {
                        0..=2 => {
                            let alive = w.objs[o].strong > 0;
                            match k.upgrade() {
                                Some(a) => {
                                    must!("slice-upgrade-dead", alive);
                                    w.objs[o].strong += 1;
                                    w.hs.push((H::Slice(a), Some(o)));
                                }
                                None => must!("slice-upgrade-refused", !alive),
                            }
                            w.hs.push((H::WeakSlice(k), Some(o)));
                        }
                        3 | 4 => {
                            let n = if c.rng.bool() { k.clone() } else { WeakSlice::from(&k) };
                            w.objs[o].weak += 1;
                            w.hs.push((H::WeakSlice(n), Some(o)));
                            w.hs.push((H::WeakSlice(k), Some(o)));
                        }
                        _ => w.release(H::WeakSlice(k), Some(o)),
                    }
                }
                H::Cell(cell) => match sel {
                    0..=2 => {
                        c.log(|| "cell-load".into());
                        if let Some(a) = cell.load(Ordering::Acquire) {
                            let o = o.unwrap();
                            w.objs[o].strong += 1;
                            w.hs.push((H::Arc(a), Some(o)));
                        }
                        w.hs.push((H::Cell(cell), o));
                    }
                    3..=8 => {
                        // compare and exchange with a right or wrong expectation
                        let right = c.rng.bool();
                        c.log(|| format!("cell-cas({right})"));
                        let other = Arc::new_in(T::make(1), A::default());
                        let cur = if right { cell.load(Ordering::Acquire) } else if c.rng.bool() || o.is_none() { Some(other.clone()) } else { None };
                        let (new, nk) = if c.rng.chance(1, 4) { (None, None) } else {
                            let k = c.rng.below(250) as u32;
                            (Some(Arc::new_in(T::make(k), A::default())), Some(k))
                        };
                        let keep = new.as_ref().filter(|_| c.rng.bool()).cloned();
                        let r = cell.compare_exchange(cur.as_ref(), new, Ordering::AcqRel, Ordering::Acquire);
                        drop((cur, other));
                        match r {
                            Ok(prev) => {
                                must!("cas-wrong", right, "a compare-and-exchange with a wrong expectation succeeded");
                                must!("cas-prev", prev.is_some() == o.is_some());
                                if let (Some(p), Some(o)) = (prev, o) {
                                    same!("cas-prev", p.key(), w.k(o));
                                    w.hs.push((H::Arc(p), Some(o)));
                                }
                                let o2 = nk.map(|k| w.add(k, false));
                                if let (Some(k), Some(o2)) = (keep, o2) {
                                    w.objs[o2].strong += 1;
                                    w.hs.push((H::Arc(k), Some(o2)));
                                }
                                w.hs.push((H::Cell(cell), o2));
                            }
                            Err(held) => {
                                must!("cas-refused", !right, "a compare-and-exchange with the right expectation failed");
                                must!("cas-held", held.is_some() == o.is_some());
                                if let (Some(p), Some(o)) = (held, o) {
                                    same!("cas-held", p.key(), w.k(o));
                                    w.objs[o].strong += 1;
                                    w.hs.push((H::Arc(p), Some(o)));
                                }
                                if let Some(k) = keep {
                                    same!("cas-new-released", Arc::strong_count(&k), 1);
                                }
                                w.hs.push((H::Cell(cell), o));
                            }
                        }
                    }
                    9 => {
                        // a store takes effect; the value it replaces must be taken back first (it is not released)
                        c.log(|| "cell-store".into());
                        let prev = cell.load(Ordering::Acquire);
                        let k = c.rng.below(250) as u32;
                        cell.store(Some(Arc::new_in(T::make(k), A::default())), Ordering::Release);
                        if let Some(p) = prev {
                            let o = o.unwrap();
                            // two owners remain: the one loaded and the one the cell held
                            let raw = Arc::into_raw(p);
                            let p1: Arc<T, A> = unsafe { Arc::from_raw(raw) };
                            let n = Arc::strong_count(&p1);
                            must!("store-count", n == w.objs[o].strong + 1 || n == w.objs[o].strong, "{n} owners after a store, model {}", w.objs[o].strong);
                            if n == w.objs[o].strong + 1 {
                                drop(unsafe { Arc::<T, A>::from_raw(raw) });
                            }
                            w.hs.push((H::Arc(p1), Some(o)));
                        }
                        let o2 = w.add(k, false);
                        w.hs.push((H::Cell(cell), Some(o2)));
                    }
                    10 => {
                        let w2 = Arc::new_in(T::make(3), A::default());
                        must!("cell-is-other", match cell.is(Some(&w2), Ordering::Acquire) { Ok(()) => false, Err(h) => h.is_some() == o.is_some() });
                        must!("cell-is-none", cell.is(None, Ordering::Acquire).is_ok() == o.is_none());
                        w.hs.push((H::Cell(cell), o));
                    }
                    _ => {
                        c.log(|| "cell-drop".into());
                        w.release(H::Cell(cell), o);
                    }
                },
            }
        }
        // invariants: every value with a strong owner is alive, every other one is destroyed
        track::check();
        if tracked && !panics {
            same!("alive-values", track::live(), w.alive());
        }
        if A::MON && !panics {
            let blocks = w.objs.iter().filter(|o| o.strong + o.weak > 0).count();
            same!("live-blocks", monalloc::live_blocks(), blocks, "boxed {}", w.objs.iter().filter(|o| o.boxed).count());
        }
        if !w.hs.is_empty() {
            let i = c.rng.idx(w.hs.len());
            w.check(i);
        }
        c.ev(w.alive() as u64);
    }
    if mode == Mode::Plain {
        for i in 0..w.hs.len() {
            w.check(i);
        }
    }
    // release everything in a random order
    while !w.hs.is_empty() {
        let i = c.rng.idx(w.hs.len());
        let (h, o) = w.hs.swap_remove(i);
        w.release(h, o);
        if tracked && !panics {
            track::check();
            same!("alive-values", track::live(), w.alive());
        }
    }
}
