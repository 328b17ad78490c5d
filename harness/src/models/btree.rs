//! Histories over ArcBTreeSet, ArcBTreeMap and AtomicArcBTreeSet against std::collections::BTreeMap.
use super::{AllocKind, Mode};
use crate::track::{self, Elem, Token};
use crate::{expect_panic, fnv, mix, monalloc, must, same, viol, Case};
use core::cmp::Ordering;
use stabby::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use std::collections::BTreeMap;
/// Compared by key only, so that the tag tells which instance is stored.
#[derive(Clone)]
pub struct Kv<P> {
    pub k: u32,
    pub tag: u32,
    pub tok: Token,
    pub pad: P,
}
pub trait Pad: Clone + 'static {
    fn of(k: u32) -> Self;
    fn ok(&self, k: u32) -> bool;
}
impl Pad for () {
    fn of(_: u32) {}
    fn ok(&self, _: u32) -> bool {
        true
    }
}
#[derive(Clone)]
#[repr(align(32))]
pub struct Wide([u8; 40]);
impl Pad for Wide {
    fn of(k: u32) -> Self {
        Wide([k as u8; 40])
    }
    fn ok(&self, k: u32) -> bool {
        self.0.iter().all(|b| *b == k as u8) && core::ptr::from_ref(self) as usize % 32 == 0
    }
}
impl<P: Pad> Kv<P> {
    pub fn new(k: u32, tag: u32) -> Self {
        Kv { k, tag, tok: Token::new(k), pad: P::of(k) }
    }
    fn audit(&self) {
        same!("torn-entry", self.tok.touch(), self.k);
        must!("torn-entry", self.pad.ok(self.k));
    }
}
impl<P: Pad> PartialEq for Kv<P> {
    fn eq(&self, o: &Self) -> bool {
        self.k == o.k
    }
}
impl<P: Pad> Eq for Kv<P> {}
impl<P: Pad> PartialOrd for Kv<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: Pad> Ord for Kv<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.audit();
        o.audit();
        track::maybe_panic_cmp();
        self.k.cmp(&o.k)
    }
}
impl<P: Pad> PartialEq<u32> for Kv<P> {
    fn eq(&self, o: &u32) -> bool {
        self.k == *o
    }
}
impl<P: Pad> PartialOrd<u32> for Kv<P> {
    fn partial_cmp(&self, o: &u32) -> Option<Ordering> {
        self.audit();
        Some(self.k.cmp(o))
    }
}
impl<P: Pad> core::fmt::Debug for Kv<P> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.audit();
        write!(f, "<{}.{}>", self.k, self.tag)
    }
}
pub fn parse(s: &str) -> Vec<(u32, u32)> {
    s.split('<').skip(1).map(|p| p.split('>').next().unwrap()).map(|p| p.split_once('.').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap()).collect()
}
fn key(c: &mut Case, style: u64, n: u32, last: &mut u32) -> u32 {
    match style {
        0 => c.rng.below(n as u64) as u32,
        1 => {
            *last += 1;
            *last
        }
        2 => {
            *last = last.wrapping_sub(1);
            *last % 1_000_000
        }
        3 => c.rng.below(12) as u32,
        _ => {
            *last = last.wrapping_add(c.rng.below(7) as u32 * 37) % (n * 2);
            *last
        }
    }
}
type Model = BTreeMap<u32, u32>;
fn check_set<P: Pad, A: AllocKind, const R: bool, const S: usize>(c: &mut Case, s: &ArcBTreeSet<Kv<P>, A, R, S>, m: &Model, full: bool) {
    track::check();
    same!("len", s.len(), m.len());
    same!("is_empty", s.is_empty(), m.is_empty());
    if full {
        let d = format!("{s:?}");
        must!("debug", d.starts_with("ArcBTreeSet{"), "{d}");
        let got = parse(&d);
        let want: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        same!("rendered-content", got, want);
        let d2 = format!("{s:#?}");
        same!("rendered-content", parse(&d2), want);
        for (k, t) in m {
            match s.get(k) {
                Some(e) => same!("get", (e.k, e.tag), (*k, *t)),
                None => viol!("get", "key {k} is missing from the set of {}", m.len()),
            }
        }
        c.ev(m.len() as u64);
    }
    for _ in 0..3 {
        let k = c.rng.below(1 << 10) as u32;
        same!("get", s.get(&k).map(|e| (e.k, e.tag)), m.get_key_value(&k).map(|(a, b)| (*a, *b)));
        let probe = Kv::<P>::new(k, 0);
        same!("get-self", s.get(&probe).map(|e| (e.k, e.tag)), m.get_key_value(&k).map(|(a, b)| (*a, *b)));
    }
}
fn around(c: &mut Case, mode: Mode, f: fn(&mut Case, Mode)) {
    track::reset();
    monalloc::reset();
    if mode == Mode::Panics {
        let _ = expect_panic(|| f(c, mode));
        track::disarm();
        track::check();
        monalloc::check();
    } else {
        f(c, mode);
        track::assert_all_dropped("leak");
        monalloc::check_empty("memory-leak");
    }
    monalloc::no_fail();
    monalloc::reset();
}
pub fn set<P: Pad, A: AllocKind, const R: bool, const S: usize>(c: &mut Case, mode: Mode) {
    c.hash = mix(c.hash, fnv(A::NAME.as_bytes()) ^ S as u64 ^ (R as u64) << 8);
    around(c, mode, set_history::<P, A, R, S>)
}
fn set_history<P: Pad, A: AllocKind, const R: bool, const S: usize>(c: &mut Case, mode: Mode) {
    let faults = mode == Mode::Faults;
    let style = c.rng.below(5);
    let big = c.rng.chance(1, 12);
    let n = if big { c.scale(1500, 60) } else { c.scale(120, 30) };
    let steps = 1 + c.rng.idx(n);
    c.log(|| format!("ArcBTreeSet<{},replace={R},split={S}> {mode:?} keys {style} x{steps}", A::NAME));
    let mut last = c.rng.below(1000) as u32 + 5_000;
    let mut tag = 0;
    let mut sets: Vec<(ArcBTreeSet<Kv<P>, A, R, S>, Model)> = vec![(ArcBTreeSet::from_alloc(A::default()), Model::new())];
    if mode == Mode::Panics {
        match c.rng.below(3) {
            0 => track::panic_on_drop(c.rng.below(30)),
            1 => track::panic_on_clone(c.rng.below(40)),
            _ => track::panic_on_cmp(c.rng.below(200)),
        }
    }
    for step in 0..steps {
        let i = c.rng.idx(sets.len());
        let op = c.rng.below(20);
        match op {
            0 | 1 if sets.len() < 5 && !(faults && sets[i].1.is_empty()) => {
                let t = sets[i].0.clone();
                let m = sets[i].1.clone();
                c.ev(1 << 32);
                c.log(|| format!("clone({})", m.len()));
                sets.push((t, m));
            }
            2 if sets.len() > 1 => {
                c.ev(2 << 32);
                drop(sets.swap_remove(i));
            }
            3 if !faults => {
                let (s, m) = &sets[i];
                check_set(c, s, m, true);
            }
            _ => {
                let k = key(c, style, steps as u32 * 2 + 1, &mut last);
                tag += 1;
                let (s, m) = &mut sets[i];
                let had = m.get(&k).copied();
                let e = Kv::<P>::new(k, tag);
                if faults && c.rng.chance(1, 3) {
                    monalloc::fail_after(c.rng.below(3), 1 + c.rng.below(2));
                }
                let refused0 = monalloc::counts().3;
                let r = expect_panic(|| s.insert(e));
                let refused = monalloc::counts().3 - refused0;
                monalloc::no_fail();
                match r {
                    Ok(r) => {
                        must!("fault-ignored", refused == 0, "insert continued although {refused} allocation(s) were refused");
                        match (had, r) {
                            (None, None) => {
                                m.insert(k, tag);
                            }
                            (Some(old), Some(back)) => {
                                back.audit();
                                if R {
                                    same!("insert-replaced", (back.k, back.tag), (k, old));
                                    m.insert(k, tag);
                                } else {
                                    same!("insert-refused", (back.k, back.tag), (k, tag));
                                }
                            }
                            (h, r) => viol!("insert-result", "inserting {k} returned {r:?} although the set {} it", if h.is_some() { "held" } else { "didn't hold" }),
                        }
                        c.ev(k as u64);
                    }
                    Err(e) => {
                        if mode == Mode::Panics {
                            // the other clones must not have noticed
                            track::disarm();
                            drop(sets.swap_remove(i));
                            for (s, m) in &sets {
                                check_set(c, s, m, true);
                            }
                            return;
                        }
                        must!("insert-panic", refused > 0, "insert panicked: {e}");
                        c.ev(0xFA11);
                        // the set itself is in an unspecified state, but it and its clones stay usable and sound
                        let empty = m.is_empty();
                        if empty {
                            // nothing could have been lost
                            same!("fault-len", s.len(), 0);
                            let e = Kv::<P>::new(k, tag);
                            must!("fault-unusable", s.insert(e).is_none());
                            m.insert(k, tag);
                        } else {
                            let s = sets.swap_remove(i).0;
                            let _ = format!("{s:?}");
                            drop(s);
                            for (s, m) in &sets {
                                check_set(c, s, m, true);
                            }
                            if sets.is_empty() {
                                sets.push((ArcBTreeSet::from_alloc(A::default()), Model::new()));
                            }
                        }
                    }
                }
                if step % 16 == 0 {
                    let j = c.rng.idx(sets.len());
                    let (s, m) = &sets[j];
                    check_set(c, s, m, false);
                }
            }
        }
    }
    // dropping the clones in any order leaves the others intact
    while !sets.is_empty() {
        for (s, m) in &sets {
            if mode == Mode::Panics {
                return;
            }
            check_set(c, s, m, true);
        }
        let i = c.rng.idx(sets.len());
        drop(sets.swap_remove(i));
    }
}
pub fn map<V: Elem, A: AllocKind, const S: usize>(c: &mut Case, mode: Mode) {
    c.hash = mix(c.hash, fnv(A::NAME.as_bytes()) ^ fnv(V::NAME.as_bytes()) ^ (S as u64) << 16);
    around(c, mode, map_history::<V, A, S>)
}
fn map_history<V: Elem, A: AllocKind, const S: usize>(c: &mut Case, mode: Mode) {
    let style = c.rng.below(5);
    let n = c.scale(200, 30);
    let steps = 1 + c.rng.idx(n);
    c.log(|| format!("ArcBTreeMap<{},{},split={S}> keys {style} x{steps}", V::NAME, A::NAME));
    let mut last = 5_000;
    let mut maps: Vec<(ArcBTreeMap<u32, V, A, S>, Model)> = vec![(ArcBTreeMap::from_alloc(A::default()), Model::new())];
    if mode == Mode::Panics {
        match c.rng.below(2) {
            0 => track::panic_on_drop(c.rng.below(30)),
            _ => track::panic_on_clone(c.rng.below(40)),
        }
    }
    let same_map = |s: &ArcBTreeMap<u32, V, A, S>, m: &Model| {
        track::check();
        for (k, v) in m {
            same!("map-get", s.get(k).map(|v| v.key()), Some(if V::DISTINCT { *v } else { 0 }), "key {k} of {}", m.len());
        }
    };
    for _ in 0..steps {
        let i = c.rng.idx(maps.len());
        match c.rng.below(20) {
            0 | 1 if maps.len() < 5 => {
                let t = (maps[i].0.clone(), maps[i].1.clone());
                c.ev(1 << 32);
                maps.push(t);
            }
            2 if maps.len() > 1 => {
                c.ev(2 << 32);
                drop(maps.swap_remove(i));
            }
            3 => {
                let (s, m) = &maps[i];
                same_map(s, m);
            }
            4..=6 => {
                let k = key(c, style, steps as u32 * 2 + 1, &mut last);
                let (s, m) = &maps[i];
                same!("map-get", s.get(&k).map(|v| v.key()), m.get(&k).map(|v| if V::DISTINCT { *v } else { 0 }));
            }
            _ => {
                let k = key(c, style, steps as u32 * 2 + 1, &mut last);
                let v = c.rng.below(250) as u32;
                let (s, m) = &mut maps[i];
                let r = s.insert(k, V::make(v)).map(|v| v.key());
                same!("map-insert", r, m.insert(k, v).map(|v| if V::DISTINCT { v } else { 0 }));
                c.ev(k as u64);
            }
        }
    }
    while !maps.is_empty() {
        for (s, m) in &maps {
            same_map(s, m);
        }
        let i = c.rng.idx(maps.len());
        drop(maps.swap_remove(i));
    }
}
/// The atomic set, used from one thread.
pub fn atomic<P: Pad, const R: bool, const S: usize>(c: &mut Case, mode: Mode) {
    c.hash = mix(c.hash, S as u64 ^ (R as u64) << 8 ^ 0xA70);
    around(c, mode, atomic_history::<P, R, S>)
}
fn atomic_history<P: Pad, const R: bool, const S: usize>(c: &mut Case, _: Mode) {
    let a = AtomicArcBTreeSet::<Kv<P>, R, S>::new();
    let style = c.rng.below(5);
    let n = c.scale(80, 16);
    let steps = 1 + c.rng.idx(n);
    c.log(|| format!("AtomicArcBTreeSet<replace={R},split={S}> keys {style} x{steps}"));
    let mut m = Model::new();
    let mut last = 5_000;
    let mut tag = 0;
    let mut snaps = vec![];
    for _ in 0..steps {
        let k = key(c, style, steps as u32 * 2 + 1, &mut last);
        match c.rng.below(6) {
            0 => {
                let mut calls = 0;
                a.get(&k, |e| {
                    calls += 1;
                    same!("atomic-get", e.map(|e| (e.k, e.tag)), m.get(&k).map(|t| (k, *t)))
                });
                same!("atomic-get-calls", calls, 1);
            }
            1 => {
                // an edit may be a no-op, or keep a snapshot
                let mut seen = None;
                a.edit(|s| {
                    seen = Some(s.clone());
                    s
                });
                snaps.push((seen.unwrap(), m.clone()));
            }
            2 => {
                // nested edits: the outer one is retried on the new value
                tag += 2;
                let (k1, k2) = (k, k.wrapping_add(1));
                let mut runs = 0;
                a.edit(|mut s| {
                    runs += 1;
                    if runs == 1 {
                        a.edit(|mut s| {
                            s.insert(Kv::new(k2, tag - 1));
                            s
                        });
                    }
                    s.insert(Kv::new(k1, tag));
                    s
                });
                if R || !m.contains_key(&k2) {
                    m.insert(k2, tag - 1);
                }
                if R || !m.contains_key(&k1) {
                    m.insert(k1, tag);
                }
            }
            _ => {
                tag += 1;
                let had = m.contains_key(&k);
                a.edit(|mut s| {
                    same!("atomic-len", s.len(), m.len());
                    let back = s.insert(Kv::new(k, tag));
                    same!("atomic-insert", back.is_some(), had);
                    s
                });
                if R || !had {
                    m.insert(k, tag);
                }
                c.ev(k as u64);
            }
        }
        let (k, t) = m.iter().next().map(|(k, t)| (*k, Some(*t))).unwrap_or((7, None));
        a.get(&k, |e| same!("atomic-get", e.map(|e| e.tag), t));
        track::check();
    }
    let mut seen = None;
    a.edit(|s| {
        seen = Some(s.clone());
        s
    });
    let s = seen.unwrap();
    if c.rng.bool() {
        drop(a);
    }
    same!("atomic-content", parse(&format!("{s:?}")), m.into_iter().collect::<Vec<_>>());
    for (s, m) in snaps {
        same!("atomic-snapshot", parse(&format!("{s:?}")), m.into_iter().collect::<Vec<_>>());
    }
}
