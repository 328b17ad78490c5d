//! Histories over String, BoxedStr, ArcStr, WeakStr, Str and StrMut against the standard string.
use super::{AllocKind, Mode};
use crate::{expect_panic, fnv, monalloc, must, same, viol, Case, Rng};
use core::cmp::Ordering::{self, *};
use core::hash::{Hash, Hasher};
use stabby::str::{Str, StrMut};
use stabby::string::{ArcStr, BoxedStr, String as SString, WeakStr};
use stabby::vec::Vec as SVec;
use std::collections::hash_map::DefaultHasher;
pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
pub fn text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => r.idx(12),
        _ => r.idx(if cfg!(miri) { 30 } else { 200 }),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push(match r.below(10) {
            0..=3 => (b'a' + r.below(26) as u8) as char,
            4 => *r.pick(&['"', '\\', '\n', '\0', '{', '}', '\u{7f}', ' ']),
            5 => char::from_u32(0x80 + r.below(0x700) as u32).unwrap(),
            6 => char::from_u32(0x800 + r.below(0xc000) as u32).unwrap(),
            7 => char::from_u32(0x1_0000 + r.below(0x10_0000) as u32).unwrap(),
            8 => *r.pick(&['\u{10ffff}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{d7ff}', '\u{e000}', '\u{ff}']),
            _ => 'é',
        })
    }
    s
}
fn valid(s: &str, m: &str) {
    let b = unsafe { core::slice::from_raw_parts(s.as_ptr(), s.len()) };
    must!("invalid-utf8", core::str::from_utf8(b).is_ok(), "not valid UTF-8: {b:?}");
    same!("content", b, m.as_bytes());
}
/// Formatting through every flag that strings honour.
fn formats<T: core::fmt::Display + core::fmt::Debug>(t: &T, m: &str, what: &str) {
    same!("display", format!("{t}"), format!("{m}"), "{what}");
    same!("debug", format!("{t:?}"), format!("{m:?}"), "{what}");
    same!("debug-alt", format!("{t:#?}"), format!("{m:#?}"), "{what}");
    same!("display-pad", format!("{t:*>14}|{t:<9}|{t:^11.3}"), format!("{m:*>14}|{m:<9}|{m:^11.3}"), "{what}");
}
enum O<A: AllocKind> {
    S(SString<A>),
    B(BoxedStr<A>),
    A(ArcStr<A>, Vec<ArcStr<A>>, Vec<WeakStr<A>>),
}
impl<A: AllocKind> O<A> {
    fn as_str(&self) -> &str {
        match self {
            O::S(s) => s.as_str(),
            O::B(s) => s.as_str(),
            O::A(s, ..) => s.as_str(),
        }
    }
}
fn mk<A: AllocKind>(r: &mut Rng, m: &str) -> SString<A> {
    match r.below(5) {
        0 => SString::from(m),
        4 => {
            // with room to spare
            let mut v = SVec::<u8, A>::with_capacity_in(m.len() + r.idx(40), A::default());
            v.copy_extend(m.as_bytes());
            must!("utf8-refused", SString::try_from(v.clone()).is_ok());
            SString::try_from(v).unwrap_or_else(|_| unreachable!())
        }
        1 => SString::from(Str::from(m)),
        2 => SString::from(m.to_string()),
        _ => SString::new_in(A::default()) + m,
    }
}
pub fn run<A: AllocKind>(c: &mut Case, mode: Mode) {
    monalloc::reset();
    c.hash = crate::mix(c.hash, fnv(A::NAME.as_bytes()));
    c.log(|| format!("String<{}> {mode:?}:", A::NAME));
    history::<A>(c, mode);
    monalloc::no_fail();
    monalloc::check_empty("memory-leak");
    monalloc::reset();
}
fn history<A: AllocKind>(c: &mut Case, mode: Mode) {
    let faults = mode == Mode::Faults;
    let mut m = text(&mut c.rng);
    let mut o = O::S(mk::<A>(&mut c.rng, &m));
    let n = c.scale(50, 16);
    for _ in 0..1 + c.rng.idx(n) {
        if m.len() > c.scale(5000, 200) {
            m = text(&mut c.rng);
            o = O::S(mk::<A>(&mut c.rng, &m));
        }
        let op = c.rng.below(20);
        c.ev(op);
        c.log(|| format!("{op}"));
        let fault = faults && c.rng.bool();
        if fault {
            monalloc::fail_after(0, 1 + c.rng.below(2));
        }
        let refused0 = monalloc::counts().3;
        o = match o {
            O::S(mut s) => match op {
                0..=3 => {
                    let t = text(&mut c.rng);
                    let old = s.as_str().len();
                    let r = match c.rng.below(4) {
                        0 => s.try_concat(&t),
                        1 => s.try_concat(t.as_str()),
                        2 => s.try_concat(&Str::from(t.as_str())),
                        _ => {
                            let was = monalloc::counts().3;
                            let t2: SString<stabby::alloc::allocators::RustAlloc> = t.as_str().into();
                            same!("no-mon", was, monalloc::counts().3);
                            s.try_concat(&t2)
                        }
                    };
                    match r {
                        Ok(()) => {
                            must!("fault-ignored", monalloc::counts().3 == refused0, "concatenation succeeded although a request was refused");
                            m.push_str(&t);
                        }
                        Err(_) => {
                            must!("spurious-failure", monalloc::counts().3 > refused0, "try_concat failed without a refused request");
                            same!("fault-changed", s.as_str().len(), old);
                            c.ev(0xFA11);
                        }
                    }
                    O::S(s)
                }
                4 | 5 => {
                    let t = text(&mut c.rng);
                    let r = expect_panic(|| s += t.as_str());
                    if r.is_err() {
                        must!("spurious-panic", monalloc::counts().3 > refused0, "+= panicked without a refused request: {r:?}");
                        c.ev(0xFA12);
                    } else {
                        must!("fault-ignored", monalloc::counts().3 == refused0);
                        m.push_str(&t);
                    }
                    O::S(s)
                }
                6 => {
                    monalloc::no_fail();
                    let t = text(&mut c.rng);
                    s = s + &t;
                    m.push_str(&t);
                    O::S(s)
                }
                7 => {
                    // bytes and back, valid or not
                    monalloc::no_fail();
                    let mut v: SVec<u8, A> = s.into();
                    same!("bytes", v.as_slice(), m.as_bytes());
                    if c.rng.bool() && !v.is_empty() {
                        let i = c.rng.idx(v.len());
                        v[i] = c.rng.below(256) as u8;
                        let want = core::str::from_utf8(v.as_slice()).map(|s| s.to_string()).map_err(|e| (e.valid_up_to(), e.error_len()));
                        match (SString::try_from(v), want) {
                            (Ok(s), Ok(w)) => {
                                m = w;
                                O::S(s)
                            }
                            (Err(e), Err(w)) => {
                                same!("utf8-error", (e.valid_up_to(), e.error_len()), w);
                                m = text(&mut c.rng);
                                O::S(mk(&mut c.rng, &m))
                            }
                            (g, w) => viol!("utf8-verdict", "{:?} where std says {w:?}", g.is_ok()),
                        }
                    } else {
                        match SString::try_from(v) {
                            Ok(s) => O::S(s),
                            Err(e) => viol!("utf8-refused", "valid text refused: {e}"),
                        }
                    }
                }
                8 => {
                    match c.rng.below(3) {
                        0 => {
                            s.as_str_mut().make_ascii_uppercase();
                            m.make_ascii_uppercase();
                        }
                        1 => {
                            s.make_ascii_lowercase();
                            m.make_ascii_lowercase();
                        }
                        _ => {
                            let mut v: StrMut = s.as_str_mut().into();
                            valid(&v, &m);
                            v.make_ascii_uppercase();
                            m.make_ascii_uppercase();
                            let b: &mut str = v.into();
                            valid(b, &m);
                        }
                    }
                    O::S(s)
                }
                9 | 10 => {
                    let r = expect_panic(|| s.clone());
                    match r {
                        Ok(k) => {
                            must!("fault-ignored", monalloc::counts().3 == refused0);
                            valid(k.as_str(), &m);
                            must!("clone-eq", k == s && k.cmp(&s) == Equal && h(&k) == h(&s));
                            if c.rng.bool() {
                                s = k
                            }
                        }
                        Err(e) => must!("spurious-panic", monalloc::counts().3 > refused0, "{e}"),
                    }
                    O::S(s)
                }
                11 | 12 => {
                    // may reallocate for nothing but must not lose anything
                    let r = expect_panic(|| BoxedStr::from(s));
                    match r {
                        Ok(b) => O::B(b),
                        Err(e) => {
                            must!("spurious-panic", monalloc::counts().3 > refused0, "{e}");
                            monalloc::no_fail();
                            O::S(mk(&mut c.rng, &m))
                        }
                    }
                }
                13..=15 => {
                    let r = expect_panic(|| ArcStr::from(s));
                    match r {
                        Ok(b) => O::A(b, vec![], vec![]),
                        Err(e) => {
                            must!("spurious-panic", monalloc::counts().3 > refused0, "{e}");
                            monalloc::no_fail();
                            O::S(mk(&mut c.rng, &m))
                        }
                    }
                }
                16 => {
                    let t: String = s.into();
                    same!("to-std", t, m);
                    monalloc::no_fail();
                    O::S(mk(&mut c.rng, &m))
                }
                17 => {
                    monalloc::no_fail();
                    let t = text(&mut c.rng);
                    m = t;
                    O::S(mk(&mut c.rng, &m))
                }
                _ => {
                    monalloc::no_fail();
                    formats(&s, &m, "String");
                    formats(&Str::from(s.as_str()), &m, "Str");
                    same!("hash", h(&s), h(m.as_str()));
                    O::S(s)
                }
            },
            O::B(mut b) => match op {
                0..=4 => {
                    b.as_str_mut().make_ascii_lowercase();
                    m.make_ascii_lowercase();
                    O::B(b)
                }
                5..=8 => {
                    monalloc::no_fail();
                    formats(&b, &m, "BoxedStr");
                    same!("hash", h(&b), h(m.as_str()));
                    same!("len", b.len(), m.len());
                    let t = text(&mut c.rng);
                    let k = BoxedStr::from(mk::<A>(&mut c.rng, &t));
                    same!("boxed-eq", b == k, m == t);
                    same!("boxed-cmp", b.cmp(&k), m.cmp(&t));
                    same!("boxed-partial_cmp", b.partial_cmp(&k), m.partial_cmp(&t));
                    O::B(b)
                }
                _ => {
                    let r = expect_panic(|| SString::from(b));
                    match r {
                        Ok(s) => O::S(s),
                        Err(e) => {
                            must!("spurious-panic", monalloc::counts().3 > refused0, "{e}");
                            monalloc::no_fail();
                            O::S(mk(&mut c.rng, &m))
                        }
                    }
                }
            },
            O::A(mut a, mut cl, mut wk) => match op {
                0..=3 => {
                    cl.push(a.clone());
                    O::A(a, cl, wk)
                }
                4 | 5 => {
                    wk.push(WeakStr::from(&a));
                    if c.rng.bool() {
                        let k = wk[0].clone();
                        wk.push(k);
                    }
                    O::A(a, cl, wk)
                }
                6 => {
                    cl.pop();
                    O::A(a, cl, wk)
                }
                7 | 8 => {
                    wk.pop();
                    O::A(a, cl, wk)
                }
                9 => {
                    for w in &wk {
                        match w.upgrade() {
                            Some(u) => valid(&u, &m),
                            None => viol!("upgrade-refused", "a live string could not be upgraded"),
                        }
                    }
                    O::A(a, cl, wk)
                }
                10 | 11 => {
                    let unique = cl.is_empty() && wk.is_empty();
                    same!("is_unique", ArcStr::is_unique(&a), unique);
                    match a.as_str_mut() {
                        Some(s) => {
                            must!("mut-shared", unique);
                            s.make_ascii_uppercase();
                            m.make_ascii_uppercase();
                        }
                        None => must!("mut-refused", !unique),
                    }
                    O::A(a, cl, wk)
                }
                12..=14 => {
                    let unique = cl.is_empty() && wk.is_empty();
                    match SString::try_from(a) {
                        Ok(s) => {
                            must!("string-shared", unique, "a shared string became an owned one");
                            O::S(s)
                        }
                        Err(a) => {
                            must!("string-refused", !unique);
                            O::A(a, cl, wk)
                        }
                    }
                }
                15 | 16 => {
                    monalloc::no_fail();
                    formats(&a, &m, "ArcStr");
                    same!("hash", h(&a), h(m.as_str()));
                    let t = text(&mut c.rng);
                    let k = ArcStr::from(mk::<A>(&mut c.rng, &t));
                    same!("arc-eq", a == k, m == t);
                    same!("arc-cmp", a.cmp(&k), m.cmp(&t));
                    same!("arc-partial_cmp", a.partial_cmp(&k), m.partial_cmp(&t));
                    O::A(a, cl, wk)
                }
                17 => {
                    // drop every strong owner: weak ones must notice
                    drop(a);
                    let left = cl.len();
                    for w in &wk {
                        same!("upgrade-alive", w.upgrade().is_some(), left > 0);
                    }
                    drop(cl);
                    for w in &wk {
                        must!("upgrade-dead", w.upgrade().is_none());
                    }
                    monalloc::no_fail();
                    O::S(mk(&mut c.rng, &m))
                }
                _ => {
                    for k in &cl {
                        valid(k, &m);
                        must!("arc-eq", *k == a && k.cmp(&a) == Equal);
                    }
                    O::A(a, cl, wk)
                }
            },
        };
        monalloc::no_fail();
        monalloc::check();
        valid(o.as_str(), &m);
        if let O::S(s) = &o {
            compare(c, s, &m);
        }
        c.ev(h(&m));
    }
}
fn compare<A: AllocKind>(c: &mut Case, s: &SString<A>, m: &str) {
    let t = if c.rng.bool() {
        // a neighbour of m
        let mut t = m.to_string();
        if c.rng.bool() {
            t.pop();
        } else {
            t.push(*c.rng.pick(&['\0', 'a', '\u{10ffff}']));
        }
        t
    } else if c.rng.bool() {
        m.to_string()
    } else {
        text(&mut c.rng)
    };
    let t = t.as_str();
    same!("eq", *s == t, m == t);
    same!("partial_cmp", s.partial_cmp(&t), m.partial_cmp(t));
    let o: SString<stabby::alloc::allocators::RustAlloc> = t.into();
    same!("eq-string", *s == o, m == t);
    same!("cmp-other", s.partial_cmp(&o), m.partial_cmp(t));
    let k: SString<A> = t.into();
    let ord: Ordering = s.cmp(&k);
    same!("cmp", ord, m.cmp(t));
    let (x, y) = (Str::from(s.as_str()), Str::from(t));
    same!("str-eq", x == y, m == t);
    same!("str-cmp", x.partial_cmp(&y), m.partial_cmp(t));
    same!("str-hash", h(&x) == h(&y), m == t);
    valid(x.as_str(), m);
    let z: &str = x.into();
    valid(z, m);
    same!("as_ref", AsRef::<str>::as_ref(s), m);
    same!("deref-len", s.len(), m.len());
}
/// `write!` and `to_stabby`-like construction by formatting.
pub fn formatting(c: &mut Case) {
    use core::fmt::Write;
    let mut s = SString::new();
    let mut m = String::new();
    c.log(|| "write!:".into());
    let n = c.scale(20, 8);
    for _ in 0..1 + c.rng.idx(n) {
        let t = text(&mut c.rng);
        let x = c.rng.edgy();
        match c.rng.below(4) {
            0 => {
                write!(s, "{t}/{x:#x}/{t:?}").unwrap();
                write!(m, "{t}/{x:#x}/{t:?}").unwrap();
            }
            1 => {
                s.write_str(&t).unwrap();
                m.write_str(&t).unwrap();
            }
            2 => {
                let ch = text(&mut c.rng).chars().next().unwrap_or('x');
                s.write_char(ch).unwrap();
                m.write_char(ch).unwrap();
            }
            _ => {
                write!(s, "{:>12.3}|{:+}|{:?}", t, x as i64, [x as f32]).unwrap();
                write!(m, "{:>12.3}|{:+}|{:?}", t, x as i64, [x as f32]).unwrap();
            }
        }
        c.ev(h(&m));
        valid(s.as_str(), &m);
    }
}
/// Sorting owned strings gives the order of the standard ones.
pub fn sorted(c: &mut Case) {
    let n = c.rng.idx(c.scale(40, 10));
    let mut m: Vec<String> = (0..n).map(|_| text(&mut c.rng)).collect();
    let mut s: Vec<SString> = m.iter().map(|t| t.as_str().into()).collect();
    let mut b: Vec<BoxedStr> = s.iter().map(|t| t.clone().into()).collect();
    let mut a: Vec<ArcStr> = s.iter().map(|t| t.clone().into()).collect();
    m.sort();
    s.sort();
    a.sort();
    b.sort();
    for i in 0..n {
        same!("sorted", s[i].as_str(), m[i].as_str());
        same!("sorted-boxed", b[i].as_str(), m[i].as_str());
        same!("sorted-arc", a[i].as_str(), m[i].as_str());
        c.ev(h(&m[i]));
    }
    c.nontrivial = n > 1;
}
