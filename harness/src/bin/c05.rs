//! Shared pointers under racing threads.
use harness::conc::*;
use harness::{must, same, viol, Case, Group};
use stabby::alloc::string::{ArcStr, String as SString, WeakStr};
use stabby::alloc::sync::{Arc, ArcSlice, Weak, WeakSlice};
use stabby::alloc::vec::Vec as SVec;
use stabby::alloc::{DefaultAllocator, IAlloc};
use std::collections::HashMap;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

/// A kind of shared pointer.  `read` gives (identity, content); the content only changes through unique access.
trait Shr: Sized + Send + Sync + 'static {
    type W: Sized + Send + Sync + 'static;
    const NAME: &'static str;
    /// Destruction of the value is observed.
    const DROPS: bool = true;
    /// A weak owner can resurrect the (plain) content.
    const FORCE: bool = false;
    fn make(a: u64, len: usize) -> Self;
    fn read(&self) -> (u32, u64);
    fn touch(&self, t: usize);
    fn dup(&self) -> Self;
    fn weak(&self) -> Self::W;
    fn wdup(w: &Self::W) -> Self::W;
    fn up(w: &Self::W) -> Option<Self>;
    fn force(_: &Self::W) -> Self {
        unreachable!()
    }
    /// Writes `a` if unique; says whether it was granted.
    fn alter(&mut self, a: u64) -> bool;
    /// Copy-on-write, where supported.
    fn cow(&mut self, _a: u64) -> bool {
        false
    }
    fn unique(&self) -> Option<bool>;
    fn counts(&self) -> Option<(usize, usize)>;
    /// Takes the content out if unique. Ok(content)
    fn take(self) -> Result<(u32, u64), Self> {
        Err(self)
    }
}
impl<A: IAlloc + Default + Clone + Send + Sync + 'static> Shr for Arc<Shared, A> {
    type W = Weak<Shared, A>;
    const NAME: &'static str = "Arc";
    fn make(a: u64, _: usize) -> Self {
        Arc::new_in(Shared::new(a), A::default())
    }
    fn read(&self) -> (u32, u64) {
        (self.id, self.a())
    }
    fn touch(&self, t: usize) {
        (**self).touch(t)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn weak(&self) -> Self::W {
        Arc::downgrade(self)
    }
    fn wdup(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn alter(&mut self, a: u64) -> bool {
        Arc::get_mut(self).map(|s| s.alter(a)).is_some()
    }
    fn cow(&mut self, a: u64) -> bool {
        self.make_mut().alter(a);
        true
    }
    fn unique(&self) -> Option<bool> {
        Some(Arc::is_unique(self))
    }
    fn counts(&self) -> Option<(usize, usize)> {
        Some((Arc::strong_count(self), Arc::weak_count(self)))
    }
    fn take(self) -> Result<(u32, u64), Self> {
        Arc::try_into_inner(self).map(|s| (s.id, s.a()))
    }
}
impl<A: IAlloc + Default + Clone + Send + Sync + 'static> Shr for ArcSlice<Shared, A> {
    type W = WeakSlice<Shared, A>;
    const NAME: &'static str = "ArcSlice";
    fn make(a: u64, len: usize) -> Self {
        if len == 1 && a & 1 == 0 {
            // made from a single shared value
            return Arc::new_in(Shared::new(a), A::default()).into();
        }
        let mut v = SVec::new_in(A::default());
        for i in 0..len.max(1) {
            v.push(Shared::new(a + i as u64))
        }
        v.into()
    }
    fn read(&self) -> (u32, u64) {
        let s = self.as_slice();
        let a = s[0].a();
        for (i, x) in s.iter().enumerate() {
            must!("slice-content", x.a() == a + i as u64, "element {i} reads {} beside {a}", x.a())
        }
        (s[0].id, a)
    }
    fn touch(&self, t: usize) {
        for s in self.as_slice() {
            s.touch(t)
        }
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn weak(&self) -> Self::W {
        self.into()
    }
    fn wdup(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn alter(&mut self, a: u64) -> bool {
        self.as_slice_mut().map(|s| s.iter_mut().enumerate().for_each(|(i, s)| s.alter(a + i as u64))).is_some()
    }
    fn unique(&self) -> Option<bool> {
        Some(ArcSlice::is_unique(self))
    }
    fn counts(&self) -> Option<(usize, usize)> {
        Some((ArcSlice::strong_count(self), ArcSlice::weak_count(self)))
    }
    fn take(self) -> Result<(u32, u64), Self> {
        SVec::try_from(self).map(|v| {
            let a = v[0].a();
            for (i, x) in v.iter().enumerate() {
                same!("slice-content", x.a(), a + i as u64);
            }
            (v[0].id, a)
        })
    }
}
// Plain content: identity and content are both encoded in the text or the bytes.
fn parse(s: &[u8]) -> (u32, u64) {
    let n = s.len() / 24 * 24;
    must!("content", n >= 24, "content of {} bytes", s.len());
    let h = |s: &[u8]| u64::from_str_radix(std::str::from_utf8(s).unwrap_or("?"), 16).unwrap_or_else(|_| viol!("content", "content reads {s:?}"));
    for c in s[..n].chunks(24) {
        must!("content", c == &s[..24], "torn content {:?}", s);
    }
    (h(&s[..8]) as u32, h(&s[8..24]))
}
static IDS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn text(a: u64, len: usize) -> String {
    let id = IDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    format!("{id:08x}{a:016x}").repeat(len.max(1))
}
fn rewrite(b: &mut [u8], a: u64) {
    let t = format!("{a:016x}");
    for c in b.chunks_mut(24) {
        c[8..].copy_from_slice(t.as_bytes())
    }
}
impl<A: IAlloc + Default + Clone + Send + Sync + 'static> Shr for ArcStr<A> {
    type W = WeakStr<A>;
    const NAME: &'static str = "ArcStr";
    const DROPS: bool = false;
    const FORCE: bool = true;
    fn make(a: u64, len: usize) -> Self {
        SString::<A>::from(text(a, len).as_str()).into()
    }
    fn read(&self) -> (u32, u64) {
        parse(self.as_str().as_bytes())
    }
    fn touch(&self, _: usize) {
        self.read();
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn weak(&self) -> Self::W {
        self.into()
    }
    fn wdup(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn force(w: &Self::W) -> Self {
        w.force_upgrade()
    }
    fn alter(&mut self, a: u64) -> bool {
        self.as_str_mut().map(|s| rewrite(unsafe { s.as_bytes_mut() }, a)).is_some()
    }
    fn unique(&self) -> Option<bool> {
        Some(ArcStr::is_unique(self))
    }
    fn counts(&self) -> Option<(usize, usize)> {
        None
    }
    fn take(self) -> Result<(u32, u64), Self> {
        SString::try_from(self).map(|s| parse(s.as_str().as_bytes()))
    }
}
/// ArcSlice of plain bytes.
struct Bytes<A: IAlloc>(ArcSlice<u8, A>);
struct WBytes<A: IAlloc>(WeakSlice<u8, A>);
impl<A: IAlloc + Default + Clone + Send + Sync + 'static> Shr for Bytes<A> {
    type W = WBytes<A>;
    const NAME: &'static str = "ArcSlice<u8>";
    const DROPS: bool = false;
    const FORCE: bool = true;
    fn make(a: u64, len: usize) -> Self {
        Bytes(text(a, len).as_bytes().into())
    }
    fn read(&self) -> (u32, u64) {
        parse(&self.0)
    }
    fn touch(&self, _: usize) {
        self.read();
    }
    fn dup(&self) -> Self {
        Bytes((&self.0).into())
    }
    fn weak(&self) -> Self::W {
        WBytes((&self.0).into())
    }
    fn wdup(w: &Self::W) -> Self::W {
        WBytes((&w.0).into())
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.0.upgrade().map(Bytes)
    }
    fn force(w: &Self::W) -> Self {
        Bytes(w.0.force_upgrade())
    }
    fn alter(&mut self, a: u64) -> bool {
        self.0.as_slice_mut().map(|s| rewrite(s, a)).is_some()
    }
    fn unique(&self) -> Option<bool> {
        Some(ArcSlice::is_unique(&self.0))
    }
    fn counts(&self) -> Option<(usize, usize)> {
        Some((ArcSlice::strong_count(&self.0), ArcSlice::weak_count(&self.0)))
    }
    fn take(self) -> Result<(u32, u64), Self> {
        SVec::try_from(self.0).map(|v| parse(&v)).map_err(Bytes)
    }
}
// Trait objects over shared pointers.
#[stabby::stabby]
trait Sh {
    extern "C" fn id(&self) -> u32;
    extern "C" fn val(&self) -> u64;
    extern "C" fn visit(&self, t: usize);
    extern "C" fn set(&mut self, a: u64);
}
impl Sh for Shared {
    extern "C" fn id(&self) -> u32 {
        self.id
    }
    extern "C" fn val(&self) -> u64 {
        self.a()
    }
    extern "C" fn visit(&self, t: usize) {
        self.touch(t)
    }
    extern "C" fn set(&mut self, a: u64) {
        self.alter(a)
    }
}
type DynArc<A> = stabby::Dyn<'static, Arc<(), A>, stabby::vtable!(Sh + Send + Sync)>;
type DynWeak<A> = stabby::Dyn<'static, Weak<(), A>, stabby::vtable!(Sh + Send + Sync)>;
struct Obj<A: IAlloc + 'static>(DynArc<A>);
struct WObj<A: IAlloc + 'static>(DynWeak<A>);
unsafe impl<A: IAlloc> Send for WObj<A> {}
unsafe impl<A: IAlloc> Sync for WObj<A> {}
unsafe impl<A: IAlloc> Send for Obj<A> {}
unsafe impl<A: IAlloc> Sync for Obj<A> {}
impl<A: IAlloc + Default + Clone + Send + Sync + 'static> Shr for Obj<A> {
    type W = WObj<A>;
    const NAME: &'static str = "Dyn<Arc>";
    fn make(a: u64, _: usize) -> Self {
        Obj(Arc::new_in(Shared::new(a), A::default()).into())
    }
    fn read(&self) -> (u32, u64) {
        (self.0.id(), self.0.val())
    }
    fn touch(&self, t: usize) {
        self.0.visit(t)
    }
    fn dup(&self) -> Self {
        Obj(self.0.clone())
    }
    fn weak(&self) -> Self::W {
        // The conversion's signature ties the weak object to the borrow.
        WObj(unsafe { std::mem::transmute::<&DynArc<A>, &'static DynArc<A>>(&self.0) }.into())
    }
    fn wdup(w: &Self::W) -> Self::W {
        WObj(w.0.clone())
    }
    fn up(w: &Self::W) -> Option<Self> {
        let o: Option<DynArc<A>> = w.0.clone().upgrade().into();
        o.map(Obj)
    }
    fn alter(&mut self, a: u64) -> bool {
        self.0.try_as_mut().map(|mut s| s.set(a)).is_some()
    }
    fn unique(&self) -> Option<bool> {
        Some(Arc::is_unique(self.0.ptr()))
    }
    fn counts(&self) -> Option<(usize, usize)> {
        Some((Arc::strong_count(self.0.ptr()), Arc::weak_count(self.0.ptr())))
    }
}

struct H<S: Shr> {
    p: S,
    id: u32,
    a: u64,
}
struct HW<S: Shr> {
    w: S::W,
    id: u32,
    a: u64,
}
struct Own<S: Shr> {
    strong: Vec<H<S>>,
    weak: Vec<HW<S>>,
    dead: Vec<u32>,
    new_a: u64,
}
impl<S: Shr> Own<S> {
    fn check(&self, i: usize) {
        let h = &self.strong[i];
        let (id, a) = h.p.read();
        if (id, a) != (h.id, h.a) {
            viol!("content", "an owner of value {} ({:#x}) reads value {id} ({a:#x})", h.id, h.a)
        }
    }
    fn op(&mut self, t: &mut Tc, force: bool) {
        t.jitter();
        let k = t.rng.below(24);
        t.ev(k);
        let (ns, nw) = (self.strong.len(), self.weak.len());
        if ns == 0 && nw == 0 {
            return;
        }
        let i = t.rng.idx(ns.max(1));
        let j = t.rng.idx(nw.max(1));
        match k {
            0..=2 if ns > 0 && ns < 12 => {
                let h = &self.strong[i];
                let d = H { p: h.p.dup(), id: h.id, a: h.a };
                self.strong.push(d);
                self.check(ns)
            }
            3..=7 if ns > 0 => {
                self.check(i);
                self.strong[i].p.touch(t.me);
                drop(self.strong.swap_remove(i).p);
            }
            8 | 9 if ns > 0 && nw < 12 => {
                let h = &self.strong[i];
                self.weak.push(HW { w: h.p.weak(), id: h.id, a: h.a });
            }
            10 if nw > 0 && nw < 12 => {
                let h = &self.weak[j];
                let d = HW { w: S::wdup(&h.w), id: h.id, a: h.a };
                self.weak.push(d);
            }
            11 | 12 if nw > 0 => {
                drop(self.weak.swap_remove(j).w);
            }
            13..=15 if nw > 0 => {
                let h = &self.weak[j];
                let held = self.strong.iter().any(|s| s.id == h.id);
                let (id, a) = (h.id, h.a);
                match S::up(&h.w) {
                    Some(p) => {
                        t.ev(1);
                        if self.dead.contains(&id) && !force {
                            viol!("upgrade", "value {id} was upgraded after it was found dead")
                        }
                        p.touch(t.me);
                        self.strong.push(H { p, id, a });
                        self.check(ns);
                    }
                    None => {
                        t.ev(0);
                        if held {
                            viol!("upgrade", "upgrading value {id} failed while it has a strong owner")
                        }
                        if S::DROPS && !force {
                            self.dead.push(id)
                        }
                    }
                }
            }
            16 | 17 if ns > 0 => {
                self.new_a += 16;
                let n = self.new_a;
                let h = &mut self.strong[i];
                let ok = h.p.alter(n);
                t.ev(ok as u64);
                if ok {
                    h.a = n;
                    let id = h.id;
                    let s = self.strong.iter().filter(|s| s.id == id).count();
                    let w = self.weak.iter().filter(|s| s.id == id).count();
                    if (s, w) != (1, 0) {
                        viol!("unique", "mutable access to value {id} granted beside {s} strong and {w} weak owners in this very thread")
                    }
                }
                self.check(i);
            }
            18 if ns > 0 && room() > 64 => {
                self.new_a += 16;
                let n = self.new_a;
                let h = &mut self.strong[i];
                if h.p.cow(n) {
                    let was = h.id;
                    h.id = h.p.read().0;
                    h.a = n;
                    t.ev((was == h.id) as u64);
                    if was == h.id && (self.strong.iter().filter(|s| s.id == was).count() != 1 || self.weak.iter().any(|s| s.id == was)) {
                        viol!("unique", "copy-on-write altered value {was} in place beside other owners")
                    }
                }
                self.check(i);
            }
            19 if ns > 0 => {
                let h = &self.strong[i];
                if let Some((s, w)) = h.p.counts() {
                    let os = self.strong.iter().filter(|s| s.id == h.id).count();
                    let ow = self.weak.iter().filter(|s| s.id == h.id).count();
                    if s < os || (w != 1 && w < ow + 1) || w == 0 || s > 100 || w > 100 {
                        viol!("counts", "counts of value {} read {s} strong, {w} weak, while this thread alone has {os} and {ow}", h.id)
                    }
                }
            }
            20 if ns > 0 => {
                let h = &self.strong[i];
                if h.p.unique() == Some(true) {
                    t.ev(1);
                    let (os, ow) = (self.strong.iter().filter(|s| s.id == h.id).count(), self.weak.iter().filter(|s| s.id == h.id).count());
                    same!("unique", (os, ow), (1, 0));
                }
            }
            21 if ns > 0 => {
                let h = self.strong.swap_remove(i);
                match h.p.take() {
                    Ok(got) => {
                        t.ev(1);
                        same!("take", got, (h.id, h.a));
                    }
                    Err(p) => self.strong.push(H { p, ..h }),
                }
            }
            22 if force && nw > 0 => {
                let h = &self.weak[j];
                let (id, a) = (h.id, h.a);
                let p = S::force(&h.w);
                self.strong.push(H { p, id, a });
                self.check(ns);
            }
            _ if ns > 0 => {
                self.check(i);
                self.strong[i].p.touch(t.me);
            }
            _ => {}
        }
    }
}
fn case<S: Shr>(c: &mut Case) {
    reset();
    let n = c.rng.range(2, if cfg!(miri) { 3 } else { 4 });
    let rounds = c.scale(24, 1);
    let force = S::FORCE && c.rng.bool();
    let steps = c.rng.range(1, c.scale(24, 14));
    let drain = c.rng.below(3);
    c.log(|| format!("{} by {n} threads, {rounds} rounds of up to {steps} steps", S::NAME));
    let mut start: Vec<Vec<Own<S>>> = (0..n).map(|_| vec![]).collect();
    for r in 0..rounds {
        let mut owns: Vec<Own<S>> = (0..n)
            .map(|t| Own { strong: vec![], weak: vec![], dead: vec![], new_a: (t as u64 + 1) << 40 | (r as u64) << 20 })
            .collect();
        for o in 0..c.rng.range(1, 2) {
            let a = (o as u64 + 1) << 8 | c.rng.below(2);
            let p = S::make(a, c.rng.range(1, 3));
            let (id, got) = p.read();
            same!("content", got, a);
            for o in owns.iter_mut() {
                for _ in 0..c.rng.below(3) {
                    o.strong.push(H { p: p.dup(), id, a })
                }
                for _ in 0..c.rng.below(2) {
                    o.weak.push(HW { w: p.weak(), id, a })
                }
            }
            if c.rng.bool() {
                let i = c.rng.idx(n);
                owns[i].strong.push(H { p, id, a });
            }
        }
        for (s, o) in start.iter_mut().zip(owns) {
            s.push(o)
        }
    }
    let gate = Gate::new();
    let gate = &gate;
    let left = race(
        c,
        start
            .into_iter()
            .map(|owns| {
                Box::new(move |t: &mut Tc| {
                    let mut left = vec![];
                    for (r, mut o) in owns.into_iter().enumerate() {
                        gate.wait(r, t.n);
                        for _ in 0..t.rng.range(1, steps) {
                            o.op(t, force)
                        }
                        if drain == 0 || (drain == 1 && t.rng.bool()) {
                            o.strong.clear();
                            o.weak.clear();
                        }
                        left.push(o)
                    }
                    left
                }) as Box<dyn FnOnce(&mut Tc) -> Vec<Own<S>> + Send>
            })
            .collect(),
    );
    // At rest.
    let mut owners: HashMap<u32, (usize, usize)> = HashMap::new();
    let mut all: Vec<Own<S>> = left.into_iter().flatten().collect();
    for o in &all {
        for h in &o.strong {
            owners.entry(h.id).or_default().0 += 1
        }
        for h in &o.weak {
            owners.entry(h.id).or_default().1 += 1
        }
    }
    for o in &all {
        for i in 0..o.strong.len() {
            o.check(i);
            let h = &o.strong[i];
            let (s, w) = owners[&h.id];
            if let Some(got) = h.p.counts() {
                same!("counts", got, (s, w + 1), "at rest, value {}", h.id);
            }
            if let Some(u) = h.p.unique() {
                same!("unique", u, (s, w) == (1, 0), "at rest, value {}", h.id);
            }
        }
        for h in &o.weak {
            let up = S::up(&h.w);
            same!("upgrade", up.is_some(), owners[&h.id].0 > 0, "at rest, value {}", h.id);
            if let Some(p) = up {
                same!("content", p.read(), (h.id, h.a));
            }
        }
    }
    if S::DROPS && S::NAME != "ArcSlice" {
        for id in 0..born() as u32 {
            let want = if owners.get(&id).map_or(false, |o| o.0 > 0) { 1 } else { 2 };
            same!("liveness", state(id), want, "value {id} of {}", born());
        }
    }
    if c.rng.bool() {
        // the last owners go at the same time
        let mut parts: Vec<Vec<Own<S>>> = (0..n).map(|_| vec![]).collect();
        while let Some(o) = all.pop() {
            let i = c.rng.idx(n);
            parts[i].push(o);
        }
        race(
            c,
            parts
                .into_iter()
                .map(|mut p| {
                    Box::new(move |t: &mut Tc| {
                        while !p.is_empty() {
                            t.jitter();
                            let i = t.rng.idx(p.len());
                            let mut o = p.swap_remove(i);
                            if t.rng.bool() {
                                o.weak.clear();
                            }
                            for h in o.strong.drain(..) {
                                h.p.touch(t.me);
                            }
                        }
                    }) as Box<dyn FnOnce(&mut Tc) + Send>
                })
                .collect(),
        );
    } else {
        drop(all);
    }
    all_gone();
}
type D = DefaultAllocator;
fn main() {
    let groups: &[Group] = &[
        ("arc", 4, case::<Arc<Shared, CntAlloc>>),
        ("arc-default", 2, case::<Arc<Shared, D>>),
        ("arcslice", 3, case::<ArcSlice<Shared, CntAlloc>>),
        ("arcslice-default", 1, case::<ArcSlice<Shared, D>>),
        ("arcstr", 2, case::<ArcStr<CntAlloc>>),
        ("bytes", 2, case::<Bytes<CntAlloc>>),
        ("dyn", 3, case::<Obj<CntAlloc>>),
        ("dyn-default", 1, case::<Obj<D>>),
    ];
    harness::run_suite(groups, &[]);
}
