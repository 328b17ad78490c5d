//! The method-table registry and the lock-free set behind it, under racing threads.
use harness::conc::*;
use harness::{must, same, viol, Case, Group};
use stabby::alloc::boxed::Box as SBox;
use stabby::alloc::collections::arc_btree::{ArcBTreeSet, AtomicArcBTreeSet};
use stabby::alloc::{AllocPtr, DefaultAllocator};
use stabby_abi::vtable::{VTableRegistry, VtBtree, VtVec};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ptr::NonNull;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

// -------------------------------------------------- registries, raw content
static POOL: [u64; 64] = [7; 64];
fn word(i: u64) -> *const () {
    &POOL[i as usize % 64] as *const u64 as *const ()
}
/// Content number `i`: contents share prefixes, lengths and words.
fn content(i: u64, spread: u64) -> Vec<*const ()> {
    let len = 1 + (i % 5) as usize;
    let mut x = i / 5;
    let mut v: Vec<_> = (0..len)
        .map(|_| {
            let w = word(x % spread);
            x /= spread;
            w
        })
        .collect();
    if x > 0 {
        v.push(word(20 + x))
    }
    v
}
fn read<'a>(p: NonNull<*const ()>, n: usize) -> &'a [*const ()] {
    unsafe { std::slice::from_raw_parts(p.as_ptr(), n) }
}
struct Reply(u64, NonNull<*const ()>);
unsafe impl Send for Reply {}
fn registry<R: VTableRegistry + Sync>(c: &mut Case, name: &str, make: fn() -> R) {
    let n = c.rng.range(2, if cfg!(miri) { 3 } else { 4 });
    let rounds = c.scale(12, 1);
    let steps = c.rng.range(1, c.scale(16, 6));
    let small = c.rng.bool();
    let universe = 1 + c.rng.below(if small { 6 } else { 60 });
    let spread = 2 + c.rng.below(3);
    let typed = c.rng.bool();
    c.log(|| format!("{name}: {n} threads, {rounds} rounds of {steps} requests over {universe} contents"));
    let mut regs: Vec<R> = (0..rounds).map(|_| make()).collect();
    for r in &mut regs {
        // some tables are there from the start
        for _ in 0..c.rng.below(3) {
            let i = c.rng.below(universe);
            let k = content(i, spread);
            same!("content", read(r.insert(&k), k.len()), &k[..]);
        }
    }
    let gate = Gate::new();
    let (gate, rs) = (&gate, &regs);
    let replies = race(
        c,
        (0..n)
            .map(|_| {
                Box::new(move |t: &mut Tc| {
                    let mut out: Vec<Vec<Reply>> = vec![];
                    for (r, reg) in rs.iter().enumerate() {
                        gate.wait(r, t.n);
                        let mut got: Vec<Reply> = vec![];
                        for _ in 0..steps {
                            t.jitter();
                            let i = t.rng.below(universe);
                            let k = content(i, spread);
                            let p = match k.len() {
                                2 if typed => NonNull::from(reg.insert_typed(&[k[0], k[1]])).cast(),
                                4 if typed => NonNull::from(reg.insert_typed(&[k[0], k[1], k[2], k[3]])).cast(),
                                _ => reg.insert(&k),
                            };
                            t.ev(i);
                            if read(p, k.len()) != &k[..] {
                                viol!("content", "requested {k:?}, got {:?}", read(p, k.len()))
                            }
                            got.push(Reply(i, p));
                            // what was handed out before is still there
                            let o = t.rng.idx(got.len());
                            let k = content(got[o].0, spread);
                            if read(got[o].1, k.len()) != &k[..] {
                                viol!("changed", "table {k:?} now reads {:?}", read(got[o].1, k.len()))
                            }
                        }
                        out.push(got)
                    }
                    out
                }) as Box<dyn FnOnce(&mut Tc) -> Vec<Vec<Reply>> + Send>
            })
            .collect(),
    );
    for (r, reg) in regs.iter().enumerate() {
        let mut seen: HashMap<Vec<*const ()>, NonNull<*const ()>> = HashMap::new();
        for Reply(i, p) in replies.iter().flat_map(|t| &t[r]) {
            let k = content(*i, spread);
            if read(*p, k.len()) != &k[..] {
                viol!("changed", "table {k:?} now reads {:?}", read(*p, k.len()))
            }
            let first = *seen.entry(k.clone()).or_insert(*p);
            if first != *p {
                viol!("unique", "two tables with content {k:?}: {first:?} and {p:?}")
            }
        }
        for (k, p) in &seen {
            same!("unique", reg.insert(k), *p, "asked again later");
        }
        for i in 0..universe {
            let k = content(i, spread);
            let p = reg.insert(&k);
            same!("content", read(p, k.len()), &k[..]);
            let first = *seen.entry(k).or_insert(p);
            same!("unique", first, p);
        }
        let ps: BTreeSet<_> = seen.values().map(|p| p.as_ptr() as usize).collect();
        same!("distinct", ps.len(), seen.len());
        c.ev(seen.len() as u64);
        // The registry keeps its tables for ever; the harness gives them back.
        for (k, p) in seen {
            same!("changed", read(p, k.len()), &k[..]);
            unsafe { AllocPtr::<*const (), DefaultAllocator> { ptr: p, marker: Default::default() }.free(&mut DefaultAllocator::new()) }
        }
    }
    c.ev(regs.len() as u64);
}
fn new_btree<const S: usize>() -> VtBtree<S> {
    VtBtree::<S>::new()
}
fn new_vec() -> VtVec {
    VtVec::new(None)
}

// -------------------------------------------------- the lock-free set
#[derive(Clone)]
struct E(u32, Box<(u32, u32)>);
impl E {
    fn new(k: u32, tag: u32) -> Self {
        E(k, Box::new((k, tag)))
    }
    fn tag(&self) -> u32 {
        same!("set-entry", self.1 .0, self.0);
        self.1 .1
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.0 == o.0
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl PartialEq<u32> for E {
    fn eq(&self, o: &u32) -> bool {
        self.0 == *o
    }
}
impl PartialOrd<u32> for E {
    fn partial_cmp(&self, o: &u32) -> Option<std::cmp::Ordering> {
        Some(self.0.cmp(o))
    }
}
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}:{}>", self.0, self.tag())
    }
}
fn entries<const R: bool, const S: usize>(s: &ArcBTreeSet<E, DefaultAllocator, R, S>) -> Vec<(u32, u32)> {
    format!("{s:?}")
        .split('<')
        .skip(1)
        .map(|p| {
            let (k, v) = p[..p.find('>').unwrap()].split_once(':').unwrap();
            (k.parse().unwrap(), v.parse().unwrap())
        })
        .collect()
}
fn set<const R: bool, const S: usize>(c: &mut Case) {
    let n = c.rng.range(2, if cfg!(miri) { 3 } else { 4 });
    let rounds = c.scale(12, 1);
    let steps = c.rng.range(1, c.scale(20, 8));
    let small = c.rng.bool();
    let universe = 1 + c.rng.below(if small { 6 } else { 100 });
    // disjoint: each thread has its own keys, so that the final set is known exactly
    let disjoint = c.rng.bool();
    c.log(|| format!("AtomicArcBTreeSet<replace={R}, {S}>: {n} threads, {rounds} rounds of {steps} edits over {universe} keys, disjoint {disjoint}"));
    let sets: Vec<AtomicArcBTreeSet<E, R, S>> = (0..rounds).map(|_| AtomicArcBTreeSet::new()).collect();
    let gate = Gate::new();
    let (gate, ss) = (&gate, &sets);
    let done = race(
        c,
        (0..n)
            .map(|_| {
                Box::new(move |t: &mut Tc| {
                    let mut out: Vec<BTreeMap<u32, Vec<u32>>> = vec![];
                    let mut tag = t.me as u32 * 1_000_000;
                    for (r, set) in ss.iter().enumerate() {
                        gate.wait(r, t.n);
                        let mut mine = BTreeMap::<u32, Vec<u32>>::new();
                        let mut seen = BTreeSet::<u32>::new();
                        for _ in 0..steps {
                            t.jitter();
                            let mut k = t.rng.below(universe) as u32;
                            if disjoint {
                                k = k * 4 + t.me as u32;
                            }
                            match t.rng.below(4) {
                                0 => {
                                    // a key this thread inserted is there for good
                                    let mut calls = 0;
                                    let k = if mine.is_empty() || t.rng.chance(1, 4) { k } else { *mine.keys().nth(t.rng.idx(mine.len())).unwrap() };
                                    set.get(&k, |e| {
                                        calls += 1;
                                        let got = e.map(|e| (e.0, e.tag()));
                                        if (mine.contains_key(&k) || seen.contains(&k)) && got.is_none() {
                                            viol!("lost-entry", "the entry of key {k} is gone")
                                        }
                                        if disjoint {
                                            let want = mine.get(&k).map(|v| (k, if R { *v.last().unwrap() } else { v[0] }));
                                            same!("set-get", got, want);
                                        }
                                        if let Some((g, _)) = got {
                                            same!("set-get", g, k);
                                        }
                                    });
                                    same!("set-get", calls, 1);
                                    t.ev(k as u64);
                                }
                                1 => {
                                    // a snapshot: holds all that was seen before, in order
                                    let mut snap = None;
                                    set.edit(|s| {
                                        snap = Some(s.clone());
                                        s
                                    });
                                    let snap = snap.unwrap();
                                    let es = entries(&snap);
                                    same!("set-len", snap.len(), es.len());
                                    must!("set-order", es.windows(2).all(|w| w[0].0 < w[1].0), "{es:?}");
                                    let ks: BTreeSet<u32> = es.iter().map(|e| e.0).collect();
                                    if !seen.is_subset(&ks) {
                                        viol!("lost-entry", "entries {:?} are gone", seen.difference(&ks).collect::<Vec<_>>())
                                    }
                                    if let Some(k) = mine.keys().find(|k| !ks.contains(k)) {
                                        viol!("lost-entry", "the entry of key {k} is gone")
                                    }
                                    seen = ks;
                                    t.ev(es.len() as u64);
                                }
                                _ => {
                                    tag += 1;
                                    let mut runs = 0;
                                    set.edit(|mut s| {
                                        runs += 1;
                                        let had = s.get(&k).map(|e| e.tag());
                                        let back = s.insert(E::new(k, tag)).map(|e| e.tag());
                                        same!("set-insert", back, if R { had } else { had.map(|_| tag) });
                                        s
                                    });
                                    must!("set-edit", runs > 0);
                                    mine.entry(k).or_default().push(tag);
                                    t.ev((k as u64) << 8 | runs);
                                }
                            }
                        }
                        out.push(mine)
                    }
                    out
                }) as Box<dyn FnOnce(&mut Tc) -> Vec<BTreeMap<u32, Vec<u32>>> + Send>
            })
            .collect(),
    );
    for (r, s) in sets.iter().enumerate() {
        let mut snap = None;
        s.edit(|s| {
            snap = Some(s.clone());
            s
        });
        let es = entries(&snap.unwrap());
        let mut want: BTreeMap<u32, Vec<(usize, Vec<u32>)>> = BTreeMap::new();
        for (t, d) in done.iter().enumerate() {
            for (k, v) in &d[r] {
                want.entry(*k).or_default().push((t, v.clone()))
            }
        }
        same!("lost-entry", es.iter().map(|e| e.0).collect::<Vec<_>>(), want.keys().copied().collect::<Vec<_>>());
        for ((k, tag), cands) in es.iter().zip(want.values()) {
            // the first edit of some thread, or the last one
            must!(
                "set-value",
                cands.iter().any(|(_, v)| if R { v.last() == Some(tag) } else { v[0] == *tag }),
                "key {k} holds {tag}, edits were {cands:?}"
            );
        }
        c.ev(es.len() as u64);
    }
}

// -------------------------------------------------- the real registry
#[stabby::stabby]
pub trait Num {
    extern "C" fn num(&self) -> usize;
    extern "C" fn twice(&self) -> usize;
}
#[stabby::stabby]
pub trait Name {
    extern "C" fn name(&self) -> usize;
}
pub struct T<const N: usize>(u8);
impl<const N: usize> Num for T<N> {
    extern "C" fn num(&self) -> usize {
        N + self.0 as usize * 1000
    }
    extern "C" fn twice(&self) -> usize {
        2 * N
    }
}
impl<const N: usize> Name for T<N> {
    extern "C" fn name(&self) -> usize {
        7000 + N
    }
}
type A = stabby::dynptr!(SBox<dyn Num + Send + Sync>);
type B = stabby::dynptr!(SBox<dyn Num + Name + Send>);
type C = stabby::dynptr!(SBox<dyn Name + Num>);
/// Makes one object of a type, checks that it runs that type's code, and returns the address of its table.
fn probe<const N: usize>(k: usize) -> usize {
    match k {
        0 => {
            let d: A = SBox::new(T::<N>(1)).into();
            same!("dispatch", (d.num(), d.twice()), (1000 + N, 2 * N));
            d.vtable() as *const _ as usize
        }
        1 => {
            let d: B = SBox::new(T::<N>(2)).into();
            same!("dispatch", (d.num(), d.twice(), d.name()), (2000 + N, 2 * N, 7000 + N));
            d.vtable() as *const _ as usize
        }
        _ => {
            let d: C = SBox::new(T::<N>(3)).into();
            same!("dispatch", (d.num(), d.twice(), d.name()), (3000 + N, 2 * N, 7000 + N));
            d.vtable() as *const _ as usize
        }
    }
}
macro_rules! probes {
    ($($n:literal)*) => { [$(probe::<$n>),*] };
}
const PROBES: [fn(usize) -> usize; 48] = probes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);
static FIRST: [[AtomicUsize; 3]; 48] = [const { [const { AtomicUsize::new(0) }; 3] }; 48];
fn real(c: &mut Case) {
    let n = c.rng.range(2, 4);
    let rounds = c.scale(8, 2);
    let gate = Gate::new();
    let base = c.rng.idx(48);
    let idx = c.idx as usize;
    c.log(|| format!("real registry: {n} threads request the tables of {} types from {base}", 48.min(rounds * 6)));
    let gate = &gate;
    race(
        c,
        (0..n)
            .map(|_| {
                Box::new(move |t: &mut Tc| {
                    for r in 0..rounds {
                        gate.wait(r, t.n);
                        for i in 0..6 {
                            // The first cases go through the types in order: all threads ask for the same new table at once.
                            let ty = if t.rng.chance(1, 5) { t.rng.idx(48) } else { (base * (idx > 40) as usize + idx * 7 + r * 6 + i) % 48 };
                            let k = if t.rng.chance(1, 4) { t.rng.idx(3) } else { (idx + r) % 3 };
                            let a = PROBES[ty](k);
                            t.ev((ty * 3 + k) as u64);
                            // On nightly toolchains tables are constants, whose addresses are up to the compiler.
                            if !cfg!(miri) {
                                let was = FIRST[ty][k].swap(a, Relaxed);
                                if was != 0 && was != a {
                                    viol!("unique", "two tables of the same content for type {ty}/{k}: {was:#x} and {a:#x}")
                                }
                            }
                        }
                    }
                }) as Box<dyn FnOnce(&mut Tc) + Send>
            })
            .collect(),
    );
    let all: BTreeSet<usize> = FIRST.iter().flatten().map(|a| a.load(Relaxed)).filter(|a| *a != 0).collect();
    let cnt = FIRST.iter().flatten().filter(|a| a.load(Relaxed) != 0).count();
    same!("distinct", all.len(), cnt);
}
fn main() {
    let groups: &[Group] = &[
        ("real", 2, real),
        ("registry-btree5", 3, |c| registry(c, "VtBtree<5>", new_btree::<5>)),
        ("registry-btree3", 1, |c| registry(c, "VtBtree<3>", new_btree::<3>)),
        ("registry-vec", 2, |c| registry(c, "VtVec", new_vec)),
        ("set-keep-5", 2, set::<false, 5>),
        ("set-replace-5", 1, set::<true, 5>),
        ("set-keep-3", 1, set::<false, 3>),
    ];
    harness::run_suite(groups, &[]);
}
