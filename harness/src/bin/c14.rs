//! Strings against the standard one; external forms of text, sequences and sums.
use harness::models::ser::{replay, tokens, Style, Tok};
use harness::models::string::{formatting, h, run, sorted, text};
use harness::models::{AllocKind, Mode::Plain};
use harness::monalloc::{self, FatMon, MonAlloc, PlainMon};
use harness::{must, same, viol, Case, Group, Rng};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::boxed::BoxedSlice;
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use stabby::string::{ArcStr, BoxedStr, String as SString};
use stabby::sync::ArcSlice;
use stabby::vec::Vec as SVec;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

/// Serialises both, compares, reads back in several ways, also after altering the form.
fn trip<S: Serialize + DeserializeOwned, M: Serialize + DeserializeOwned>(c: &mut Case, s: &S, m: &M) {
    let what = std::any::type_name::<S>();
    c.log(|| what.to_string());
    form(c, s, m, what);
    let want = tokens(m);
    for _ in 0..3 {
        let style = Style::random(&mut c.rng);
        read::<S, M>(c, &want, style, what);
    }
    let mut t = want.clone();
    for _ in 0..3 {
        alter(&mut c.rng, &mut t);
        let style = Style::random(&mut c.rng);
        read::<S, M>(c, &t, style, what);
    }
    // and through a text format
    let j = serde_json::to_string(m).unwrap();
    same!("json", serde_json::to_string(s).unwrap(), j, "{what}");
    if let Ok(k) = serde_json::from_str::<M>(&j) {
        match serde_json::from_str::<S>(&j) {
            Ok(g) => same!("json-back", tokens(&g), tokens(&k), "{what}"),
            Err(e) => viol!("json-not-read", "{what}: {j} gives {e}"),
        }
        match serde_json::from_reader::<_, S>(j.as_bytes()) {
            Ok(g) => same!("json-back", tokens(&g), tokens(&k), "{what}"),
            Err(e) => viol!("json-not-read-stream", "{what}: {j} gives {e}"),
        }
        match serde_json::from_value::<S>(serde_json::to_value(s).unwrap()) {
            Ok(g) => same!("json-back", tokens(&g), tokens(&k), "{what}"),
            Err(e) => viol!("json-not-read-value", "{what}: {j} gives {e}"),
        }
        c.ev(0x15);
    }
}
fn form<S: Serialize + ?Sized, M: Serialize + ?Sized>(c: &mut Case, s: &S, m: &M, what: &str) {
    let (g, w) = (tokens(s), tokens(m));
    c.ev(h(&format!("{w:?}")));
    must!("external-form", g == w, "{what}: {g:?} instead of {w:?}");
}
fn read<'a, S: Serialize + Deserialize<'a>, M: Serialize + Deserialize<'a>>(c: &mut Case, t: &'a [Tok], style: Style, what: &str) {
    let w = replay::<M>(t, style);
    let g = replay::<S>(t, style);
    c.ev(w.is_ok() as u64);
    match (w, g) {
        (Ok(w), Ok(g)) => must!("read-back", tokens(&g) == tokens(&w), "{what}: {:?} instead of {:?}", tokens(&g), tokens(&w)),
        (Ok(_), Err(e)) => viol!("not-read", "{what}: {t:?} ({style:?}) gives {}", e.0),
        (Err(_), Ok(g)) => {
            // whatever was read must at least be sound
            for k in tokens(&g) {
                if let Tok::Str(s) = k {
                    must!("invalid-utf8", core::str::from_utf8(s.as_bytes()).is_ok(), "{what}: read {:?}", s.as_bytes());
                }
            }
        }
        (Err(_), Err(_)) => {}
    }
}
fn alter(r: &mut Rng, t: &mut Vec<Tok>) {
    if t.is_empty() {
        return;
    }
    let i = r.idx(t.len());
    match r.below(5) {
        0 => {
            t.remove(i);
        }
        1 => {
            let k = t[i].clone();
            t.insert(i, k);
        }
        2 => t[i] = Tok::Bytes((0..r.idx(6)).map(|_| *r.pick(&[0x61u8, 0x7f, 0xc3, 0xa9, 0xff, 0xed, 0xa0, 0x80, 0xf0, 0x9f])).collect()),
        3 => t[i] = Tok::Str(text(r)),
        _ => t[i] = Tok::U(8, r.below(256) as u128),
    }
}
/// Owned and shared text.
fn texts<A: AllocKind>(c: &mut Case) {
    monalloc::reset();
    let m = text(&mut c.rng);
    let s = SString::<A>::from(m.as_str());
    trip(c, &s, &m);
    let b = BoxedStr::from(s.clone());
    trip(c, &b, &m.clone().into_boxed_str());
    let a = ArcStr::from(s.clone());
    trip(c, &a, &m.clone().into_boxed_str());
    views(c, &m);
    drop((s, b, a));
    monalloc::check_empty("serde-leak");
    monalloc::reset();
}
/// Borrowed text and bytes.
fn views(c: &mut Case, m: &str) {
    form(c, &Str::from(m), m, "Str");
    let mut k = m.to_string();
    form(c, &StrMut::from(k.as_mut_str()), m, "StrMut");
    form(c, &Slice::from(m.as_bytes()), m.as_bytes(), "Slice<u8>");
    form(c, &SliceMut::from(m.to_string().into_bytes().as_mut_slice()), m.as_bytes(), "SliceMut<u8>");
    let toks = [tokens(m), vec![Tok::Bytes(m.as_bytes().to_vec())], vec![Tok::Bytes(vec![b'a', 0xff])], vec![Tok::U(8, 1)], tokens(m.as_bytes())];
    for t in &toks {
        let style = Style::random(&mut c.rng);
        read::<Str, &str>(c, t, style, "Str");
        read::<Slice<u8>, &[u8]>(c, t, style, "Slice<u8>");
    }
    let j = serde_json::to_string(m).unwrap();
    if let Ok(w) = serde_json::from_str::<&str>(&j) {
        match serde_json::from_str::<Str>(&j) {
            Ok(g) => same!("json-back", g.as_str(), w),
            Err(e) => viol!("json-not-read", "Str: {j} gives {e}"),
        }
    }
}
/// Sequences of `T`, whose standard counterpart is `M`.
fn seqs<A: AllocKind, T: Elem>(c: &mut Case) {
    monalloc::reset();
    for kind in 0..3 {
        let n = c.rng.idx(c.scale(24, 8));
        let mut s = SVec::<T, A>::new_in(A::default());
        let mut m = Vec::new();
        for _ in 0..n {
            let (x, y) = T::pair(&mut c.rng);
            s.push(x);
            m.push(y);
        }
        form(c, &Slice::from(s.as_slice()), m.as_slice(), "Slice");
        form(c, &SliceMut::from(s.as_slice_mut()), m.as_slice(), "SliceMut");
        match kind {
            0 => trip(c, &s, &m),
            1 => trip(c, &BoxedSlice::from(s), &m),
            _ => trip(c, &ArcSlice::from(s), &m),
        }
    }
    monalloc::check_empty("serde-leak");
    monalloc::reset();
}
trait Elem: Serialize + DeserializeOwned + 'static {
    type Std: Serialize + DeserializeOwned;
    fn pair(r: &mut Rng) -> (Self, Self::Std);
}
macro_rules! prim { ($($t:ty => $e:expr),* $(,)?) => { $(impl Elem for $t {
    type Std = $t;
    fn pair(r: &mut Rng) -> ($t, $t) { let f: fn(&mut Rng) -> $t = $e; let x = f(r); (x, x) }
})* } }
prim! {
    u8 => |r| r.next() as u8, i16 => |r| r.next() as i16, u32 => |r| r.edgy() as u32, i64 => |r| r.edgy() as i64, bool => |r| r.bool(),
    char => |r| text(r).chars().next().unwrap_or('c'), () => |_| (), f32 => |r| (r.next() as i32) as f32 / 7.0,
}
impl<A: AllocKind> Elem for SString<A> {
    type Std = String;
    fn pair(r: &mut Rng) -> (Self, String) {
        let t = text(r);
        (t.as_str().into(), t)
    }
}
impl<T: Elem, A: AllocKind> Elem for SVec<T, A> {
    type Std = Vec<T::Std>;
    fn pair(r: &mut Rng) -> (Self, Self::Std) {
        let mut s = SVec::new_in(A::default());
        let mut m = vec![];
        for _ in 0..r.idx(5) {
            let (x, y) = T::pair(r);
            s.push(x);
            m.push(y);
        }
        (s, m)
    }
}
use stabby::{option::Option as SOption, result::Result as SResult};
impl<T: Elem + stabby::IStable> Elem for SOption<T>
where
    T: stabby::abi::IDeterminantProvider<()>,
{
    type Std = Option<T::Std>;
    fn pair(r: &mut Rng) -> (Self, Self::Std) {
        if r.bool() {
            (SOption::None(), None)
        } else {
            let (x, y) = T::pair(r);
            (SOption::Some(x), Some(y))
        }
    }
}
impl<T: Elem + stabby::IStable, U: Elem + stabby::IStable> Elem for SResult<T, U>
where
    T: stabby::abi::IDeterminantProvider<U>,
{
    type Std = Result<T::Std, U::Std>;
    fn pair(r: &mut Rng) -> (Self, Self::Std) {
        if r.bool() {
            let (x, y) = T::pair(r);
            (SResult::Ok(x), Ok(y))
        } else {
            let (x, y) = U::pair(r);
            (SResult::Err(x), Err(y))
        }
    }
}
fn one<T: Elem>(c: &mut Case) {
    monalloc::reset();
    let (s, m) = T::pair(&mut c.rng);
    trip(c, &s, &m);
    drop(s);
    monalloc::check_empty("serde-leak");
    monalloc::reset();
}
fn sums(c: &mut Case) {
    type V = SVec<u16, MonAlloc>;
    type S = SString<MonAlloc>;
    match c.rng.below(18) {
        0 => one::<SOption<u8>>(c),
        1 => one::<SOption<bool>>(c),
        2 => one::<SOption<S>>(c),
        3 => one::<SOption<SOption<u8>>>(c),
        4 => one::<SOption<SOption<bool>>>(c),
        5 => one::<SOption<()>>(c),
        6 => one::<SOption<V2>>(c),
        7 => one::<SResult<u8, S>>(c),
        8 => one::<SResult<S, S>>(c),
        9 => one::<SResult<V2, bool>>(c),
        10 => one::<SResult<(), ()>>(c),
        11 => one::<SResult<u32, i16>>(c),
        12 => one::<SResult<SOption<S>, SResult<bool, V2>>>(c),
        13 => seqs::<MonAlloc, SOption<S>>(c),
        14 => seqs::<RustAlloc, SResult<S, u32>>(c),
        15 => one::<SOption<SResult<i16, S>>>(c),
        16 => one::<SResult<f32, V2>>(c),
        _ => one::<SResult<SResult<(), bool>, SOption<i64>>>(c),
    }
    type V2 = V;
}
impl Elem for u16 {
    type Std = u16;
    fn pair(r: &mut Rng) -> (u16, u16) {
        let x = r.next() as u16;
        (x, x)
    }
}
fn main() {
    let groups: &[Group] = &[
        ("string-rust", 4, |c| run::<RustAlloc>(c, Plain)),
        ("string-libc", 2, |c| run::<LibcAlloc>(c, Plain)),
        ("string-mon", 3, |c| run::<MonAlloc>(c, Plain)),
        ("string-fat", 2, |c| run::<FatMon>(c, Plain)),
        ("string-plain", 1, |c| run::<PlainMon>(c, Plain)),
        ("write", 2, formatting),
        ("sorted", 1, sorted),
        ("serde-text-mon", 2, texts::<MonAlloc>),
        ("serde-text-rust", 1, texts::<RustAlloc>),
        ("serde-seq-u8", 1, seqs::<MonAlloc, u8>),
        ("serde-seq-unit", 1, seqs::<RustAlloc, ()>),
        ("serde-seq-text", 2, seqs::<MonAlloc, SString<MonAlloc>>),
        ("serde-seq-vec", 1, seqs::<LibcAlloc, SVec<i16, FatMon>>),
        ("serde-seq-nums", 1, |c| match c.rng.below(5) {
            0 => seqs::<MonAlloc, u32>(c),
            1 => seqs::<RustAlloc, i64>(c),
            2 => seqs::<MonAlloc, bool>(c),
            3 => seqs::<FatMon, f32>(c),
            _ => seqs::<LibcAlloc, char>(c),
        }),
        ("serde-sums", 3, sums),
    ];
    harness::run_suite(groups, &[]);
}
