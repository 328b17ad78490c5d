//! Histories over stabby's Result and Option against the standard ones.
use crate::track::{self, Elem};
use crate::{expect_panic, must, same, viol, Case, Rng};
use core::fmt::Debug;
use core::hash::Hash;
use stabby::abi::{IDeterminantProvider, IStable};
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use std::collections::hash_map::DefaultHasher;
use std::hash::Hasher;
/// What sum types are made of.
pub trait Payload: IStable + Clone + PartialEq + Debug + Hash + 'static {
    fn gen(r: &mut Rng) -> Self;
    /// Monitors that only this payload can perform (called on every value read back).
    fn audit(&self) {}
    /// Alters the value in place (through whatever the type offers), like on a clone of it.
    fn alter(&mut self, r: &mut Rng) {
        *self = Self::gen(r)
    }
}
#[macro_export]
macro_rules! elem_payload {
    ($($t:ty),*) => {$(
        impl $crate::models::sum::Payload for $t {
            fn gen(r: &mut $crate::Rng) -> Self { <$t as $crate::track::Elem>::make(r.below(250) as u32) }
            fn audit(&self) { $crate::track::Elem::key(self); }
            fn alter(&mut self, r: &mut $crate::Rng) { let k = r.below(250) as u32; $crate::track::Elem::set(self, k) }
        }
    )*};
}
elem_payload!(crate::track::Tracked, crate::track::TrackedWide, crate::track::BoxElem);
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn gen<O: Payload, E: Payload>(r: &mut Rng) -> Result<O, E> {
    if r.bool() {
        Ok(O::gen(r))
    } else {
        Err(E::gen(r))
    }
}
pub fn to<O: Payload + IDeterminantProvider<E>, E: Payload>(r: &mut Rng, m: &Result<O, E>) -> SResult<O, E> {
    if r.bool() {
        m.clone().into()
    } else {
        match m {
            Ok(o) => SResult::Ok(o.clone()),
            Err(e) => SResult::Err(e.clone()),
        }
    }
}
pub fn check<O: Payload + IDeterminantProvider<E>, E: Payload>(s: &SResult<O, E>, m: &Result<O, E>) {
    track::check();
    same!("is_ok", s.is_ok(), m.is_ok());
    same!("is_err", s.is_err(), m.is_err());
    match s.as_ref() {
        Ok(o) => o.audit(),
        Err(e) => e.audit(),
    }
    same!("as_ref", s.as_ref(), m.as_ref());
    let al = core::mem::align_of_val(s);
    must!("misaligned", core::ptr::from_ref(s) as usize % al == 0);
    s.match_ref(
        |o| must!("misaligned-payload", core::ptr::from_ref(o) as usize % core::mem::align_of::<O>() == 0, "Ok payload at offset {}", core::ptr::from_ref(o) as usize - core::ptr::from_ref(s) as usize),
        |e| must!("misaligned-payload", core::ptr::from_ref(e) as usize % core::mem::align_of::<E>() == 0),
    );
}
pub fn result<O, E>(c: &mut Case)
where
    O: Payload + IDeterminantProvider<E>,
    E: Payload,
    (): IDeterminantProvider<E>,
{
    track::reset();
    {
        let mut m = gen::<O, E>(&mut c.rng);
        let mut s = to(&mut c.rng, &m);
        c.log(|| format!("Result<{},{}>({m:?}):", core::any::type_name::<O>(), core::any::type_name::<E>()));
        check(&s, &m);
        let n = c.scale(24, 8);
        for _ in 0..1 + c.rng.idx(n) {
            let op = c.rng.below(26);
            c.ev(op);
            c.log(|| format!("op{op}"));
            match op {
                0 => {
                    // replace the whole value
                    m = gen(&mut c.rng);
                    let n = to(&mut c.rng, &m);
                    s = n;
                }
                1 => {
                    m = gen(&mut c.rng);
                    let n = to(&mut c.rng, &m);
                    let old = core::mem::replace(&mut s, n);
                    drop(old);
                }
                2 => {
                    let r = s.match_ref(|o| Ok(o.clone()), |e| Err(e.clone()));
                    same!("match_ref", r, m);
                    let r = s.match_ref_ctx(7u8, |x, o| (x, Ok(o.clone())), |x, e| (x + 1, Err(e.clone())));
                    same!("match_ref_ctx", r, (if m.is_ok() { 7 } else { 8 }, m.clone()));
                }
                3..=5 => {
                    // write through a mutable borrow
                    let r1 = c.rng.fork();
                    let mut r2 = r1.clone();
                    s.match_mut(
                        |mut o| {
                            o.audit();
                            o.alter(&mut r1.clone())
                        },
                        |mut e| {
                            e.audit();
                            e.alter(&mut r1.clone())
                        },
                    );
                    match &mut m {
                        Ok(o) => o.alter(&mut r2),
                        Err(e) => e.alter(&mut r2),
                    }
                }
                6 | 7 => {
                    let mut r1 = c.rng.fork();
                    let n: Result<O, E> = match &m {
                        Ok(_) => Ok(O::gen(&mut r1)),
                        Err(_) => Err(E::gen(&mut r1)),
                    };
                    let k = n.clone();
                    s.match_mut_ctx(
                        n,
                        |n, mut o| {
                            if let Ok(n) = n {
                                *o = n
                            } else {
                                viol!("match_mut_ctx", "Ok branch on an Err")
                            }
                        },
                        |n, mut e| {
                            if let Err(n) = n {
                                *e = n
                            } else {
                                viol!("match_mut_ctx", "Err branch on an Ok")
                            }
                        },
                    );
                    m = k;
                }
                8 => {
                    // mem::replace and swap through guards
                    if c.rng.bool() {
                        if let Some(mut g) = s.ok_mut() {
                            let n = O::gen(&mut c.rng);
                            let old = core::mem::replace(&mut *g, n.clone());
                            old.audit();
                            match &mut m {
                                Ok(o) => {
                                    same!("ok_mut", old, *o);
                                    *o = n;
                                }
                                Err(_) => viol!("ok_mut", "ok_mut of an Err"),
                            }
                        } else {
                            must!("ok_mut", m.is_err());
                        }
                    } else if let Some(mut g) = s.err_mut() {
                        let n = E::gen(&mut c.rng);
                        let old = core::mem::replace(&mut *g, n.clone());
                        old.audit();
                        match &mut m {
                            Err(o) => {
                                same!("err_mut", old, *o);
                                *o = n;
                            }
                            Ok(_) => viol!("err_mut", "err_mut of an Ok"),
                        }
                    } else {
                        must!("err_mut", m.is_ok());
                    }
                }
                9 => {
                    same!("ok_ref", s.ok_ref(), m.as_ref().ok());
                    same!("err_ref", s.err_ref(), m.as_ref().err());
                    match s.ok_mut() {
                        Some(g) => same!("ok_mut", Some(&*g), m.as_ref().ok()),
                        None => must!("ok_mut", m.is_err()),
                    }
                    match s.err_mut() {
                        Some(g) => same!("err_mut", Some(&*g), m.as_ref().err()),
                        None => must!("err_mut", m.is_ok()),
                    }
                }
                10 => {
                    let t = s.clone();
                    check(&t, &m);
                    if c.rng.bool() {
                        s = t;
                    }
                }
                11 => {
                    let o = if c.rng.bool() { m.clone() } else { gen(&mut c.rng) };
                    let t = to(&mut c.rng, &o);
                    same!("eq", s == t, m == o);
                    same!("ne", s != t, m != o);
                    if m == o {
                        same!("hash-equal", h(&s), h(&t));
                    }
                    same!("debug", format!("{s:?}"), format!("{m:?}"));
                    same!("debug", format!("{s:#?}"), format!("{m:#?}"));
                }
                12 => {
                    let r: Result<O, E> = s.into();
                    if let Ok(o) = &r {
                        o.audit()
                    }
                    same!("into-std", r, m);
                    s = r.into();
                }
                13 => {
                    let r = s.match_owned(Ok, Err);
                    same!("match_owned", r, m);
                    s = to(&mut c.rng, &r);
                }
                14 => {
                    let r = s.match_owned_ctx(3u32, |x, o| (x, Ok(o)), |x, e| (x * 2, Err(e)));
                    same!("match_owned_ctx", r, (if m.is_ok() { 3 } else { 6 }, m.clone()));
                    s = r.1.into();
                }
                15 => {
                    let n = O::gen(&mut c.rng);
                    let mut called = 0;
                    let t = s.map(|o| {
                        called += 1;
                        if let Ok(w) = &m {
                            same!("map-arg", o, *w)
                        }
                        n.clone()
                    });
                    same!("map-calls", called, m.is_ok() as i32);
                    if m.is_ok() {
                        m = Ok(n);
                    }
                    s = t;
                }
                16 => {
                    let n = gen::<O, E>(&mut c.rng);
                    let sn = to(&mut c.rng, &n);
                    let t = s.and_then(|o| {
                        if let Ok(w) = &m {
                            same!("and_then-arg", o, *w)
                        }
                        sn
                    });
                    if m.is_ok() {
                        m = n;
                    }
                    s = t;
                }
                17 => {
                    let t = s.map(|_| ());
                    same!("map-unit", t.is_ok(), m.is_ok());
                    same!("map-unit", t.err_ref(), m.as_ref().err());
                    s = to(&mut c.rng, &m);
                }
                18 => {
                    let n = O::gen(&mut c.rng);
                    let got = s.unwrap_or_else(|e| {
                        same!("unwrap_or_else-arg", Some(&e), m.as_ref().err());
                        n.clone()
                    });
                    got.audit();
                    same!("unwrap_or_else", &got, m.as_ref().unwrap_or(&n));
                    m = Ok(got);
                    s = to(&mut c.rng, &m);
                }
                19 => {
                    let n = E::gen(&mut c.rng);
                    let got = s.unwrap_err_or_else(|o| {
                        same!("unwrap_err_or_else-arg", Some(&o), m.as_ref().ok());
                        n.clone()
                    });
                    got.audit();
                    same!("unwrap_err_or_else", &got, m.as_ref().err().unwrap_or(&n));
                    m = Err(got);
                    s = to(&mut c.rng, &m);
                }
                20 => {
                    match expect_panic(|| s.unwrap()) {
                        Ok(o) => same!("unwrap", Some(&o), m.as_ref().ok()),
                        Err(_) => must!("unwrap-panic", m.is_err(), "unwrap of an Ok panicked"),
                    }
                    s = to(&mut c.rng, &m);
                }
                21 => {
                    match expect_panic(|| s.unwrap_err()) {
                        Ok(o) => same!("unwrap_err", Some(&o), m.as_ref().err()),
                        Err(_) => must!("unwrap_err-panic", m.is_ok(), "unwrap_err of an Err panicked"),
                    }
                    s = to(&mut c.rng, &m);
                }
                22 => {
                    if c.rng.bool() {
                        same!("ok", s.ok(), m.clone().ok());
                    } else {
                        same!("err", s.err(), m.clone().err());
                    }
                    s = to(&mut c.rng, &m);
                }
                23 => {
                    if m.is_ok() {
                        same!("unwrap_unchecked", unsafe { s.unwrap_unchecked() }, m.clone().unwrap());
                    } else {
                        same!("unwrap_err_unchecked", unsafe { s.unwrap_err_unchecked() }, m.clone().unwrap_err());
                    }
                    s = to(&mut c.rng, &m);
                }
                24 => {
                    // a panic in a mapping closure loses nothing but the value it was given
                    let r = expect_panic(|| s.match_mut(|_g| panic!("x"), |_g| panic!("y")));
                    must!("swallowed-panic", r.is_err() || core::mem::size_of::<O>() == usize::MAX);
                    check(&s, &m);
                    let r = expect_panic(|| s.map(|_: O| -> O { panic!("x") }));
                    match r {
                        Ok(t) => {
                            must!("map-on-err", m.is_err());
                            s = t;
                        }
                        Err(_) => {
                            must!("map-on-ok", m.is_ok());
                            s = to(&mut c.rng, &m);
                        }
                    }
                }
                _ => {
                    // arrays of sum types: neighbours don't interfere
                    let ms = [m.clone(), gen(&mut c.rng), gen(&mut c.rng), m.clone()];
                    let mut ss = [to(&mut c.rng, &ms[0]), to(&mut c.rng, &ms[1]), to(&mut c.rng, &ms[2]), to(&mut c.rng, &ms[3])];
                    for (s, m) in ss.iter().zip(&ms) {
                        check(s, m);
                    }
                    ss.swap(0, 2);
                    let n = gen(&mut c.rng);
                    ss[1] = to(&mut c.rng, &n);
                    check(&ss[0], &ms[2]);
                    check(&ss[1], &n);
                    check(&ss[2], &ms[0]);
                    check(&ss[3], &ms[3]);
                }
            }
            check(&s, &m);
            c.ev(m.is_ok() as u64);
        }
        c.ev(h(&m));
    }
    track::assert_all_dropped("leak");
}
fn ocheck<T: Payload + IDeterminantProvider<()>>(s: &SOption<T>, m: &Option<T>) {
    track::check();
    same!("is_some", s.is_some(), m.is_some());
    same!("is_none", s.is_none(), m.is_none());
    if let Some(v) = s.as_ref() {
        v.audit();
        must!("misaligned-payload", core::ptr::from_ref(v) as usize % core::mem::align_of::<T>() == 0);
    }
    same!("as_ref", s.as_ref(), m.as_ref());
}
pub fn option<T>(c: &mut Case)
where
    T: Payload + IDeterminantProvider<()>,
{
    track::reset();
    {
        fn gen<T: Payload>(r: &mut Rng) -> Option<T> {
            if r.chance(2, 3) {
                Some(T::gen(r))
            } else {
                None
            }
        }
        fn to<T: Payload + IDeterminantProvider<()>>(r: &mut Rng, m: &Option<T>) -> SOption<T> {
            if r.bool() {
                m.clone().into()
            } else {
                match m {
                    Some(o) => SOption::Some(o.clone()),
                    None => {
                        if r.bool() {
                            SOption::None()
                        } else {
                            SOption::default()
                        }
                    }
                }
            }
        }
        let mut m: Option<T> = gen(&mut c.rng);
        let mut s = to(&mut c.rng, &m);
        c.log(|| format!("Option<{}>({m:?}):", core::any::type_name::<T>()));
        ocheck(&s, &m);
        let n = c.scale(24, 8);
        for _ in 0..1 + c.rng.idx(n) {
            let op = c.rng.below(14);
            c.ev(op);
            c.log(|| format!("op{op}"));
            match op {
                0 | 1 => {
                    m = gen(&mut c.rng);
                    let n = to(&mut c.rng, &m);
                    if c.rng.bool() {
                        s = n;
                    } else {
                        let _ = core::mem::replace(&mut s, n);
                    }
                }
                2 => same!("match_ref", s.match_ref(|v| Some(v.clone()), || None), m),
                3 => same!("match_ref_ctx", s.match_ref_ctx(5u8, |x, v| (x, Some(v.clone())), |x| (x + 1, None)), (if m.is_some() { 5 } else { 6 }, m.clone())),
                4 | 5 => {
                    let n = T::gen(&mut c.rng);
                    s.match_mut(|mut g| *g = n.clone(), || ());
                    if let Some(v) = &mut m {
                        *v = n;
                    }
                }
                6 => {
                    let n = T::gen(&mut c.rng);
                    let r = s.match_mut_ctx(n.clone(), |n, mut g| Some(core::mem::replace(&mut *g, n)), |_| None);
                    same!("match_mut_ctx", r, m);
                    if m.is_some() {
                        m = Some(n);
                    }
                }
                7 => {
                    let mut r1 = c.rng.fork();
                    let mut r2 = r1.clone();
                    match (s.as_mut(), &mut m) {
                        (Some(mut g), Some(v)) => {
                            g.alter(&mut r1);
                            v.alter(&mut r2);
                        }
                        (None, None) => (),
                        (a, b) => viol!("as_mut", "as_mut is {} but the option holds {b:?}", a.is_some()),
                    }
                }
                8 => {
                    same!("match_owned", s.match_owned(Some, || None), m);
                    s = to(&mut c.rng, &m);
                }
                9 => {
                    same!("match_owned_ctx", s.match_owned_ctx(2u8, |x, v| (x, Some(v)), |x| (x + 9, None)), (if m.is_some() { 2 } else { 11 }, m.clone()));
                    s = to(&mut c.rng, &m);
                }
                10 => {
                    let n = T::gen(&mut c.rng);
                    let g = s.unwrap_or_else(|| n.clone());
                    g.audit();
                    same!("unwrap_or_else", g, m.clone().unwrap_or(n));
                    s = to(&mut c.rng, &m);
                }
                11 => {
                    match expect_panic(|| s.unwrap()) {
                        Ok(v) => same!("unwrap", Some(v), m),
                        Err(_) => must!("unwrap-panic", m.is_none()),
                    }
                    s = to(&mut c.rng, &m);
                    if m.is_some() {
                        same!("unwrap_unchecked", Some(unsafe { s.unwrap_unchecked() }), m);
                        s = to(&mut c.rng, &m);
                    }
                }
                12 => {
                    let r: Option<T> = s.into();
                    same!("into-std", r, m);
                    s = r.into();
                    same!("debug", format!("{s:?}"), format!("{m:?}"));
                }
                _ => {
                    let ms = [m.clone(), gen(&mut c.rng), m.clone()];
                    let mut ss = [to(&mut c.rng, &ms[0]), to(&mut c.rng, &ms[1]), to(&mut c.rng, &ms[2])];
                    ss.swap(0, 1);
                    ocheck(&ss[0], &ms[1]);
                    ocheck(&ss[1], &ms[0]);
                    ocheck(&ss[2], &ms[2]);
                }
            }
            ocheck(&s, &m);
            c.ev(m.is_some() as u64);
        }
        c.ev(h(&m));
    }
    track::assert_all_dropped("leak");
}
pub use {option as run_option, result as run_result};
pub fn _k<T: Elem>() {}
