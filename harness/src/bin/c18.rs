//! Times and durations against the standard ones and exact arithmetic.
use harness::conc::{linearizable, race, Clock, Ev, Gate, Tc};
use harness::{expect_panic, must, same, viol, Case, Group, Rng};
use stabby::time::{AtomicDuration, AtomicInstant, Duration as D, Instant, Sign, SystemTime};
use std::cell::UnsafeCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::{self, *};
use std::time::Duration as SD;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
const NS: u128 = 1_000_000_000;
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn nanos(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => 999_999_999,
        2 => r.below(1000) as u32,
        3 => r.below(1000) as u32 * 1_000_000 + *r.pick(&[0, 1, 999_999, 999, 1000]),
        4 => r.below(1_000_000) as u32 * 1000 + *r.pick(&[0, 1, 999]),
        _ => r.below(1_000_000_000) as u32,
    }
}
fn secs(r: &mut Rng, max: u64) -> u64 {
    let x = match r.below(6) {
        0 => 0,
        1 => max,
        2 => max - r.below(3).min(max),
        3 => r.below(100),
        4 => r.edgy() % (max as u128 + 1).min(u64::MAX as u128) as u64,
        _ => r.next() >> r.below(64),
    };
    x.min(max)
}
fn any(r: &mut Rng, max: u64) -> SD {
    SD::new(secs(r, max), nanos(r))
}
/// `d` is exactly `m`, whichever way it is looked at.
fn audit(d: D, m: SD, what: &str) {
    let got = (d.as_secs(), d.subsec_nanos());
    must!("duration", got == (m.as_secs(), m.subsec_nanos()), "{what}: {got:?} instead of {m:?}");
    same!("as_nanos", d.as_nanos(), m.as_nanos(), "{what}");
    same!("subsec_micros", d.subsec_micros(), m.subsec_micros(), "{what}");
    same!("subsec_millis", d.subsec_millis(), m.subsec_millis(), "{what}");
    let (f, w) = (d.as_secs_f64(), m.as_secs_f64());
    must!("as_secs_f64", (f - w).abs() <= w * 1e-15, "{what}: {f} instead of {w}");
    let back: SD = d.into();
    same!("to-std", back, m, "{what}");
    let again: D = m.into();
    must!("eq", d == again && h(&d) == h(&again), "{what}");
}
fn make(r: &mut Rng) -> (D, SD, &'static str) {
    match r.below(6) {
        0 | 1 => {
            let m = any(r, u64::MAX);
            (m.into(), m, "from std")
        }
        2 => {
            let (s, n) = (secs(r, u64::MAX - 5), if r.bool() { nanos(r) } else { r.next() as u32 });
            (D::new(s, n), SD::new(s, n), "new")
        }
        3 => {
            let x = r.edgy();
            (D::from_millis(x), SD::from_millis(x), "from_millis")
        }
        4 => {
            let x = r.edgy();
            (D::from_micros(x), SD::from_micros(x), "from_micros")
        }
        _ => {
            let x = r.edgy();
            let e = 2f64.powi(1 + r.below(60) as i32);
            let f = match r.below(4) {
                0 => x as f64 / 4.0,
                1 => x as f64 / e,
                2 => (x % 1_000_000) as f64 / 1000.0,
                _ => (x % 1_000_000) as f64 + 1.0 / e,
            };
            (D::from_secs_f64(f), SD::from_secs_f64(f), "from_secs_f64")
        }
    }
}
fn durations(c: &mut Case) {
    for _ in 0..c.scale(40, 12) {
        let (a, m, what) = make(&mut c.rng);
        c.ev(h(&m));
        c.log(|| format!("{what} {m:?}"));
        audit(a, m, what);
        let (b, n, w2) = match c.rng.below(4) {
            0 => (a, m, "same"),
            1 => {
                let n = SD::new(m.as_secs(), nanos(&mut c.rng));
                (n.into(), n, "same second")
            }
            _ => make(&mut c.rng),
        };
        same!("eq", a == b, m == n, "{m:?} {n:?}");
        same!("cmp", a.cmp(&b), m.cmp(&n), "{m:?} {n:?}");
        same!("partial_cmp", a.partial_cmp(&b), m.partial_cmp(&n), "{m:?} {n:?}");
        same!("lt", (a < b, a <= b, a > b, a >= b), (m < n, m <= n, m > n, m >= n), "{m:?} {n:?}");
        if m == n {
            same!("hash", h(&a), h(&b), "{m:?} ({what}, {w2})");
        }
        let assign = c.rng.bool();
        let got = expect_panic(|| {
            if assign {
                let mut k = a;
                k += b;
                k
            } else {
                a + b
            }
        });
        match (got, m.checked_add(n)) {
            (Ok(g), Some(w)) => audit(g, w, "sum"),
            (Err(_), None) => c.ev(0xBAD),
            (Ok(g), None) => viol!("overflow", "{m:?} + {n:?} gives {} s {} ns", g.as_secs(), g.subsec_nanos()),
            (Err(e), Some(_)) => viol!("sum-panics", "{m:?} + {n:?} panics: {e}"),
        }
        if c.rng.chance(1, 8) {
            let f = *c.rng.pick(&[-1.0, -1e-3, -1e300, f64::NEG_INFINITY, f64::NAN, f64::INFINITY, 1e20, 18446744073709551616.0]);
            must!("from_secs_f64-accepts", expect_panic(|| D::from_secs_f64(f)).is_err(), "from_secs_f64({f}) gives a duration");
        }
    }
    c.nontrivial = true;
}
fn systems(c: &mut Case) {
    use std::time::UNIX_EPOCH;
    must!("epoch", std::time::SystemTime::from(SystemTime::UNIX_EPOCH) == UNIX_EPOCH);
    for _ in 0..c.scale(30, 10) {
        let max = i64::MAX as u64 - 1;
        let (x, y) = (any(&mut c.rng, max), any(&mut c.rng, max));
        let (m, n) = (UNIX_EPOCH + x, UNIX_EPOCH + y);
        let (a, b) = (SystemTime::from(m), SystemTime::from(n));
        c.ev(h(&x));
        c.log(|| format!("{x:?}"));
        same!("system-back", std::time::SystemTime::from(a), m);
        same!("system-cmp", (a.cmp(&b), a.partial_cmp(&b), a == b), (m.cmp(&n), m.partial_cmp(&n), m == n), "{x:?} {y:?}");
        must!("system-epoch", a == SystemTime::UNIX_EPOCH + D::from(x) && h(&a) == h(&(SystemTime::UNIX_EPOCH + D::from(x))), "{x:?}");
        let d = any(&mut c.rng, 1 << 40);
        if let Some(w) = m.checked_add(d) {
            let mut k = a;
            k += d.into();
            same!("system-add", std::time::SystemTime::from(k), w, "{x:?} + {d:?}");
            must!("system-add", k == a + d.into());
        }
        // times before the epoch can't be represented: they are clamped to it
        if let Some(p) = UNIX_EPOCH.checked_sub(x) {
            must!("system-clamp", SystemTime::from(p) == SystemTime::UNIX_EPOCH);
        }
    }
    let (lo, k, hi) = (std::time::SystemTime::now(), SystemTime::now(), std::time::SystemTime::now());
    if lo <= hi {
        must!("system-now", SystemTime::from(lo) <= k && k <= SystemTime::from(hi));
    }
    c.nontrivial = true;
}
fn instants(c: &mut Case) {
    let zero = std::time::Instant::from(Instant::zero());
    for _ in 0..c.scale(30, 10) {
        let (x, y) = (any(&mut c.rng, i64::MAX as u64 - 1), any(&mut c.rng, i64::MAX as u64 - 1));
        let (Some(m), Some(n)) = (zero.checked_add(x), zero.checked_add(y)) else { continue };
        let (a, b) = (Instant::from(m), Instant::from(n));
        c.ev(h(&x));
        c.log(|| format!("{x:?}"));
        same!("instant-back", std::time::Instant::from(a), m);
        same!("instant-cmp", (a.cmp(&b), a.partial_cmp(&b), a == b), (m.cmp(&n), m.partial_cmp(&n), m == n), "{x:?} {y:?}");
        must!("instant-zero", a == Instant::zero() + D::from(x) && h(&a) == h(&(Instant::zero() + D::from(x))), "{x:?}");
        let d = any(&mut c.rng, 1 << 40);
        if let Some(w) = m.checked_add(d) {
            let mut k = a;
            k += d.into();
            same!("instant-add", std::time::Instant::from(k), w, "{x:?} + {d:?}");
            must!("instant-add", k == a + d.into());
        }
    }
    let (lo, k, hi) = (std::time::Instant::now(), Instant::now(), std::time::Instant::now());
    must!("instant-now", Instant::from(lo) <= k && k <= Instant::from(hi), "now() is outside of the interval it was called in");
    let s: std::time::Instant = k.into();
    must!("instant-now", lo <= s && s <= hi);
    c.nontrivial = true;
}
/// Signed nanoseconds.
fn signed((d, s): (D, Sign)) -> i128 {
    let n = d.as_nanos() as i128;
    if s == Sign::Negative {
        -n
    } else {
        n
    }
}
const MAXS: u64 = (1 << 43) - 1;
fn micros(d: SD, neg: bool) -> i128 {
    let n = d.as_nanos() as i128 / 1000 * 1000;
    if neg {
        -n
    } else {
        n
    }
}
fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}
/// One thread: the cell holds what was last put in, rounded towards zero to the microsecond.
fn cell(c: &mut Case) {
    let max: SD = AtomicDuration::MAX.into();
    same!("resolution", AtomicDuration::RESOLUTION.as_nanos(), 1000);
    must!("max-years", (278_736..=278_737).contains(&(max.as_secs() / 31_556_952)), "MAX is {max:?}");
    let pick = |r: &mut Rng| {
        let d = match r.below(8) {
            0 => max,
            1 => SD::new(MAXS, 999_999_999),
            _ => any(r, MAXS),
        };
        (d, r.bool())
    };
    let (d, n) = pick(&mut c.rng);
    let a = AtomicDuration::new(d.into(), sign(n));
    let mut m = micros(d, n);
    for _ in 0..c.scale(40, 12) {
        let (d, n) = pick(&mut c.rng);
        c.ev(h(&(d, n)));
        c.log(|| format!("{d:?}"));
        let ord = *c.rng.pick(&[Relaxed, Release, SeqCst]);
        if c.rng.bool() {
            a.store(d.into(), sign(n), ord)
        } else {
            let ord = *c.rng.pick(&[Relaxed, Acquire, Release, AcqRel, SeqCst]);
            same!("swap", signed(a.swap(d.into(), sign(n), ord)), m, "before {d:?}");
        }
        m = micros(d, n);
        let (g, s) = a.load(*c.rng.pick(&[Relaxed, Acquire, SeqCst]));
        same!("load", signed((g, s)), m, "after {d:?}");
        must!("load-denormal", g.subsec_nanos() < NS as u32 && g.subsec_nanos() % 1000 == 0);
        // what was loaded can be put back
        a.store(SD::from(g).into(), s, SeqCst);
        same!("reload", signed(a.load(SeqCst)), m, "after {d:?}");
    }
    // the same as an instant
    let i = AtomicInstant::epoch();
    must!("epoch", i.load(SeqCst) == Instant::zero());
    let mut m = Instant::zero();
    for _ in 0..10 {
        let d = any(&mut c.rng, MAXS);
        let k = Instant::zero() + D::from(d);
        if c.rng.bool() {
            i.store(k, SeqCst)
        } else {
            must!("instant-swap", i.swap(k, SeqCst) == m);
        }
        m = Instant::zero() + D::new(d.as_secs(), d.subsec_micros() * 1000);
        must!("instant-load", i.load(SeqCst) == m);
    }
    let us = |i: std::time::Instant| {
        let d = i.duration_since(Instant::zero().into());
        Instant::zero() + D::new(d.as_secs(), d.subsec_micros() * 1000)
    };
    let lo = us(std::time::Instant::now());
    must!("update-previous", i.update(SeqCst) == m);
    let k = i.load(SeqCst);
    let j = AtomicInstant::now().load(SeqCst);
    let hi = us(std::time::Instant::now());
    must!("update-now", lo <= k && k <= j && j <= hi);
    c.nontrivial = true;
}
// ------------------------------------------------------------------ races
fn value(t: usize, i: usize, r: &mut Rng) -> (SD, bool) {
    // unique, and different in the high and in the low part
    let k = (t * 64 + i + 1) as u64;
    (SD::new(k << (r.below(5) * 6), ((k * 7919) % 1_000_000) as u32 * 1000), r.bool())
}
/// Every value put into a cell comes out once (or stays); recorded histories are those of a register.
fn exchange(c: &mut Case) {
    let n = 2 + c.rng.idx(3);
    let cells = c.scale(16, 3);
    let instants = c.rng.chance(1, 3);
    let ops = 2 + c.rng.idx(if n == 2 { 8 } else { 5 });
    enum Cell {
        D(AtomicDuration),
        I(AtomicInstant),
    }
    let all: Vec<Cell> = (0..cells).map(|_| if instants { Cell::I(AtomicInstant::epoch()) } else { Cell::D(AtomicDuration::new(D::new(0, 0), Sign::Positive)) }).collect();
    impl Cell {
        fn swap(&self, v: (SD, bool), o: Ordering) -> i128 {
            match self {
                Cell::D(a) => signed(a.swap(v.0.into(), sign(v.1), o)),
                Cell::I(a) => SD::from_instant(a.swap(Instant::zero() + D::from(v.0), o)),
            }
        }
        fn store(&self, v: (SD, bool), o: Ordering) {
            match self {
                Cell::D(a) => a.store(v.0.into(), sign(v.1), o),
                Cell::I(a) => a.store(Instant::zero() + D::from(v.0), o),
            }
        }
        fn load(&self, o: Ordering) -> i128 {
            match self {
                Cell::D(a) => signed(a.load(o)),
                Cell::I(a) => SD::from_instant(a.load(o)),
            }
        }
    }
    #[derive(Clone, Debug)]
    enum Op {
        Swap(i128, i128),
        Store(i128),
        Load(i128),
    }
    let clock = Clock::new();
    let gate = Gate::new();
    let bodies = (0..n)
        .map(|me| {
            let (all, clock, gate) = (&all, &clock, &gate);
            Box::new(move |t: &mut Tc| {
                let mut ev: Vec<Vec<Ev<Op>>> = vec![];
                for (round, a) in all.iter().enumerate() {
                    let mut e = vec![];
                    gate.wait(round, t.n);
                    for i in 0..ops {
                        t.jitter();
                        let v = value(me, i, &mut t.rng);
                        let v = (v.0, v.1 && !instants);
                        let want = micros(v.0, v.1);
                        let call = clock.now();
                        let op = match t.rng.below(4) {
                            0 | 1 => Op::Swap(want, a.swap(v, SeqCst)),
                            2 => {
                                a.store(v, SeqCst);
                                Op::Store(want)
                            }
                            _ => Op::Load(a.load(SeqCst)),
                        };
                        let ret = clock.now();
                        t.ev(h(&format!("{op:?}")));
                        e.push(Ev { call, ret, op });
                    }
                    ev.push(e);
                }
                ev
            }) as Box<dyn FnOnce(&mut Tc) -> Vec<Vec<Ev<Op>>> + Send>
        })
        .collect();
    let r = race(c, bodies);
    for (i, a) in all.iter().enumerate() {
        let mut hist: Vec<Ev<Op>> = r.iter().flat_map(|t| t[i].iter().cloned()).collect();
        let call = clock.now();
        hist.push(Ev { call, ret: clock.now(), op: Op::Load(a.load(SeqCst)) });
        let ok = linearizable(&hist, 0i128, |s, o| match o {
            Op::Swap(new, old) => (old == s).then_some(*new),
            Op::Store(new) => Some(*new),
            Op::Load(g) => (g == s).then_some(*s),
        });
        must!("not-a-register", ok, "no order of these operations explains them: {hist:?}");
    }
    c.log(|| format!("{n} threads, {cells} cells, {ops} operations each"));
    c.nontrivial = true;
}
trait FromInstant {
    fn from_instant(i: Instant) -> i128;
}
impl FromInstant for SD {
    fn from_instant(i: Instant) -> i128 {
        std::time::Instant::from(i).duration_since(Instant::zero().into()).as_nanos() as i128
    }
}
/// Data written before a release store (or exchange) is visible after the acquire load (or exchange) that saw it.
fn publish(c: &mut Case) {
    struct Slot(UnsafeCell<u64>);
    unsafe impl Sync for Slot {}
    let n = 2 + c.rng.idx(2);
    let rounds = c.scale(60, 8);
    let instant = c.rng.bool();
    let slots: Vec<Vec<Slot>> = (0..n).map(|_| (0..rounds).map(|_| Slot(UnsafeCell::new(0))).collect()).collect();
    let a = AtomicDuration::new(D::new(0, 0), Sign::Positive);
    let b = AtomicInstant::epoch();
    let style = c.rng.below(4);
    let see = |x: SD, t: &mut Tc| {
        if x.as_secs() > 0 {
            let (w, i) = (x.as_secs() as usize - 1, x.subsec_micros() as usize);
            let g = unsafe { *slots[w][i].0.get() };
            must!("unpublished", g == (w * 1000 + i + 7) as u64, "slot {w}/{i} reads {g}");
            t.ev(g);
        }
    };
    let gate = Gate::new();
    let bodies = (0..n)
        .map(|me| {
            let (slots, a, b, see, gate) = (&slots, &a, &b, &see, &gate);
            Box::new(move |t: &mut Tc| {
                gate.wait(0, t.n);
                for i in 0..rounds {
                    unsafe { *slots[me][i].0.get() = (me * 1000 + i + 7) as u64 }
                    let v = D::new(me as u64 + 1, i as u32 * 1000);
                    t.jitter();
                    match (instant, style) {
                        (false, 0) => a.store(v, Sign::Positive, Release),
                        (false, 1) => see(a.swap(v, Sign::Negative, AcqRel).0.into(), t),
                        (false, 2) => drop(a.swap(v, Sign::Positive, Release)),
                        (false, _) => a.store(v, Sign::Negative, SeqCst),
                        (true, 0) => b.store(Instant::zero() + v, Release),
                        (true, 1) => see(SD::from_nanos(SD::from_instant(b.swap(Instant::zero() + v, AcqRel)) as u64), t),
                        (true, 2) => drop(b.swap(Instant::zero() + v, Release)),
                        (true, _) => b.store(Instant::zero() + v, SeqCst),
                    }
                    t.jitter();
                    let ord = if style == 3 { SeqCst } else { Acquire };
                    let g = if instant { SD::from_nanos(SD::from_instant(b.load(ord)) as u64) } else { a.load(ord).0.into() };
                    see(g, t);
                }
            }) as Box<dyn FnOnce(&mut Tc) + Send>
        })
        .collect();
    race(c, bodies);
    c.log(|| format!("{n} threads, {rounds} rounds, style {style}"));
    c.nontrivial = true;
}
fn main() {
    let groups: &[Group] = &[
        ("duration", 3, durations),
        ("system-time", 1, systems),
        ("instant", 1, instants),
        ("cell", 2, cell),
        ("exchange", 3, exchange),
        ("publish", 3, publish),
    ];
    harness::run_suite(groups, &[]);
}
