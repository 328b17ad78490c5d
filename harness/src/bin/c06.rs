//! The atomic shared cell: linearizability of recorded histories, ownership of its content.
use harness::conc::*;
use harness::{must, same, viol, Case, Group};
use stabby::alloc::sync::{Arc, AtomicArc, Weak};
use stabby::alloc::{DefaultAllocator, IAlloc};
use std::sync::atomic::Ordering::{self, *};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

/// Identity of a value, 0 for none.
type Id = u32;
#[derive(Clone, Debug)]
enum Op {
    Load(Id),
    Store(Id),
    Cas { expect: Id, new: Id, ok: bool, got: Id },
    Is { expect: Id, ok: bool, got: Id },
}
fn step(s: &Id, op: &Op) -> Option<Id> {
    match *op {
        Op::Load(v) => (v == *s).then_some(*s),
        Op::Store(v) => Some(v),
        Op::Cas { expect, new, ok: true, got } => (*s == expect && got == *s).then_some(new),
        Op::Cas { expect, ok: false, got, .. } => (*s != expect && got == *s).then_some(*s),
        Op::Is { expect, ok: true, .. } => (*s == expect).then_some(*s),
        Op::Is { expect, ok: false, got } => (*s != expect && got == *s).then_some(*s),
    }
}
type P<A> = Arc<Shared, A>;
fn id<A: IAlloc>(p: &Option<P<A>>) -> Id {
    p.as_ref().map_or(0, |p| {
        p.a();
        p.id + 1
    })
}
struct Own<A: IAlloc> {
    held: Vec<P<A>>,
    weak: Vec<(Weak<Shared, A>, Id)>,
}
fn order(t: &mut Tc, o: &[Ordering]) -> Ordering {
    *t.rng.pick(o)
}
impl<A: IAlloc + Default + Clone> Own<A> {
    fn keep(&mut self, t: &mut Tc, p: Option<P<A>>) {
        if let Some(p) = p {
            p.touch(t.me);
            if t.rng.chance(1, 3) && self.weak.len() < 4 {
                self.weak.push((Arc::downgrade(&p), p.id + 1));
            }
            if t.rng.chance(3, 5) && self.held.len() < 6 {
                self.held.push(p)
            }
        }
    }
    fn value(&mut self, t: &mut Tc) -> Option<P<A>> {
        match t.rng.below(10) {
            0 => None,
            1..=3 if !self.held.is_empty() => {
                let i = t.rng.idx(self.held.len());
                Some(if t.rng.bool() { self.held[i].clone() } else { self.held.swap_remove(i) })
            }
            _ if room() > 64 => Some(Arc::new_in(Shared::new(t.rng.next()), A::default())),
            _ => None,
        }
    }
    fn op(&mut self, t: &mut Tc, cell: &AtomicArc<Shared, A>, clock: Option<&Clock>) -> Option<Ev<Op>> {
        t.jitter();
        let now = || clock.map_or(0, |c| c.now());
        let k = t.rng.below(16);
        let (call, op, ret);
        match k {
            0..=3 => {
                let o = order(t, &[Acquire, SeqCst, Relaxed]);
                call = now();
                let v = cell.load(o);
                ret = now();
                op = Op::Load(id(&v));
                self.keep(t, v);
            }
            4 | 5 => {
                let v = self.value(t);
                let i = id(&v);
                let o = order(t, &[Release, SeqCst]);
                call = now();
                cell.store(v, o);
                ret = now();
                op = Op::Store(i);
            }
            6..=11 => {
                // mostly against what the cell is likely to hold
                let cur = match t.rng.below(4) {
                    0 => None,
                    1 if !self.held.is_empty() => Some(self.held[t.rng.idx(self.held.len())].clone()),
                    _ => {
                        let call = now();
                        let v = cell.load(Acquire);
                        // (not recorded: it is one more load, checked through its use below)
                        let _ = call;
                        v
                    }
                };
                let new = self.value(t);
                let (e, n) = (id(&cur), id(&new));
                let o = order(t, &[AcqRel, SeqCst]);
                let f = order(t, &[Acquire, SeqCst]);
                if t.rng.bool() {
                    t.jitter()
                }
                let weak = new.as_ref().map(Arc::downgrade);
                call = now();
                let r = cell.compare_exchange(cur.as_ref(), new, o, f);
                ret = now();
                let ok = r.is_ok();
                let got = match r {
                    Ok(v) | Err(v) => v,
                };
                op = Op::Cas { expect: e, new: n, ok, got: id(&got) };
                if ok {
                    same!("cas-value", id(&got), e);
                } else {
                    must!("cas-value", id(&got) != e, "a compare-and-exchange of {e} failed, returning {e}");
                }
                if let Some(w) = weak {
                    if clock.is_none() || t.rng.bool() {
                        self.weak.push((w, n))
                    }
                }
                drop(cur);
                self.keep(t, got);
            }
            12 | 13 => {
                let cur = match t.rng.below(3) {
                    0 => None,
                    1 if !self.held.is_empty() => Some(self.held[t.rng.idx(self.held.len())].clone()),
                    _ => cell.load(SeqCst),
                };
                let e = id(&cur);
                let o = order(t, &[Acquire, SeqCst]);
                call = now();
                let r = cell.is(cur.as_ref(), o);
                ret = now();
                op = Op::Is { expect: e, ok: r.is_ok(), got: r.as_ref().map_or_else(id, |_| 0) };
                if let Err(got) = r {
                    must!("is-value", id(&got) != e, "comparing with {e} failed, returning {e}");
                    self.keep(t, got);
                }
            }
            _ => {
                if !self.held.is_empty() {
                    let i = t.rng.idx(self.held.len());
                    self.held.swap_remove(i).a();
                }
                if !self.weak.is_empty() && t.rng.bool() {
                    let i = t.rng.idx(self.weak.len());
                    let (w, i) = self.weak.swap_remove(i);
                    let up = w.upgrade();
                    drop(w);
                    if let Some(p) = &up {
                        same!("content", p.id + 1, i);
                    }
                    self.keep(t, up);
                }
                t.ev(99);
                return None;
            }
        }
        t.ev(k);
        t.ev(match op {
            Op::Load(i) => i as u64,
            Op::Store(i) => 1 << 20 | i as u64,
            Op::Cas { expect, new, ok, got } => 2 << 20 | (ok as u64) << 30 | (expect as u64) << 32 | got as u64 ^ (new as u64) << 44,
            Op::Is { expect, ok, got } => 3 << 20 | (ok as u64) << 30 | (expect as u64) << 32 | got as u64,
        });
        Some(Ev { call, ret, op })
    }
}
fn case<A: IAlloc + Default + Clone + Send + Sync + 'static, const LIN: bool>(c: &mut Case) {
    reset();
    let n = c.rng.range(2, if cfg!(miri) { 3 } else { 4 });
    let rounds = c.scale(24, 1);
    let steps = if LIN { c.rng.range(2, c.scale(8, 6)) } else { c.rng.range(2, c.scale(30, 12)) };
    c.log(|| format!("AtomicArc by {n} threads, {rounds} rounds of {steps} steps, history recorded: {LIN}"));
    struct Round<A: IAlloc> {
        cell: AtomicArc<Shared, A>,
        clock: Clock,
        init: Id,
    }
    let mut cells: Vec<Round<A>> = vec![];
    let mut start: Vec<Vec<Own<A>>> = (0..n).map(|_| vec![]).collect();
    for _ in 0..rounds {
        let v = c.rng.bool().then(|| Arc::new_in(Shared::new(7), A::default()));
        for s in start.iter_mut() {
            s.push(Own { held: v.iter().filter(|_| c.rng.chance(1, 4)).cloned().collect(), weak: vec![] })
        }
        cells.push(Round { init: id(&v), cell: AtomicArc::new(v), clock: Clock::new() });
    }
    let gate = Gate::new();
    let (gate, rs) = (&gate, &cells);
    let left = race(
        c,
        start
            .into_iter()
            .map(|owns| {
                Box::new(move |t: &mut Tc| {
                    let mut out = vec![];
                    for (r, mut o) in owns.into_iter().enumerate() {
                        gate.wait(r, t.n);
                        let mut h = vec![];
                        for _ in 0..steps {
                            if let Some(e) = o.op(t, &rs[r].cell, LIN.then_some(&rs[r].clock)) {
                                if LIN {
                                    h.push(e)
                                }
                            }
                        }
                        out.push((o, h))
                    }
                    out
                }) as Box<dyn FnOnce(&mut Tc) -> Vec<(Own<A>, Vec<Ev<Op>>)> + Send>
            })
            .collect(),
    );
    let mut hist: Vec<Vec<Ev<Op>>> = (0..rounds).map(|_| vec![]).collect();
    let mut owns: Vec<Vec<Own<A>>> = (0..rounds).map(|_| vec![]).collect();
    for l in left {
        for (r, (o, h)) in l.into_iter().enumerate() {
            hist[r].extend(h);
            owns[r].push(o);
        }
    }
    for ((round, mut h), owns) in cells.into_iter().zip(hist).zip(owns) {
        let end = round.cell.load(SeqCst);
        // At rest: each value is owned by the handles and, once, by the cell.
        let mut strong = std::collections::HashMap::<Id, usize>::new();
        for p in owns.iter().flat_map(|o| &o.held).chain(&end) {
            *strong.entry(p.id + 1).or_default() += 1
        }
        *strong.entry(id(&end)).or_default() += 1;
        for p in owns.iter().flat_map(|o| &o.held).chain(&end) {
            same!("counts", Arc::strong_count(p), strong[&(p.id + 1)], "value {} at rest, the cell holds {}", p.id + 1, id(&end));
        }
        for (w, i) in owns.iter().flat_map(|o| &o.weak) {
            same!("liveness", w.upgrade().is_some(), strong.contains_key(i), "value {i} at rest");
        }
        if LIN {
            let now = round.clock.now();
            h.push(Ev { call: now, ret: now, op: Op::Load(id(&end)) });
            c.ev(h.len() as u64);
            if h.len() <= 40 && !linearizable(&h, round.init, step) {
                h.sort_by_key(|e| e.call);
                viol!("linearizability", "no order explains this history from {}: {h:?}", round.init)
            }
        }
        if c.rng.bool() {
            drop(owns);
            let last = id(&end);
            drop(end);
            if last != 0 {
                same!("liveness", state(last - 1), 1, "the value owned by the cell");
            }
            drop(round.cell);
        } else {
            drop(round.cell);
            drop(end);
            for o in &owns {
                for p in &o.held {
                    p.a();
                }
            }
        }
    }
    all_gone();
}
type D = DefaultAllocator;
fn main() {
    let groups: &[Group] = &[
        ("history", 3, case::<CntAlloc, true>),
        ("race", 3, case::<CntAlloc, false>),
        ("history-default", 1, case::<D, true>),
        ("race-default", 1, case::<D, false>),
    ];
    harness::run_suite(groups, &[]);
}
