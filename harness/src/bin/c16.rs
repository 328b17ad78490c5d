//! Type descriptions tell compatible types from incompatible ones.
#![recursion_limit = "1024"]
#![allow(dead_code, deprecated)]
use harness::{fnv, mix, must, same, viol, Case, Group, Rng};
use stabby::abi::report::{gen_id, FieldReport, TyTy, TypeReport};
use stabby::abi::{IStable, StableLike};
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::str::Str;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// A description as a plain value.
#[derive(Clone, PartialEq, Eq, Debug)]
struct M {
    name: String,
    module: String,
    version: u32,
    kind: Kind,
    fields: Vec<(String, M)>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum Kind {
    Struct,
    Union,
    Enum(String),
}
fn model(r: &TypeReport) -> M {
    M {
        name: r.name.to_string(),
        module: r.module.to_string(),
        version: r.version,
        kind: match r.tyty {
            TyTy::Struct => Kind::Struct,
            TyTy::Union => Kind::Union,
            TyTy::Enum(s) => Kind::Enum(s.to_string()),
        },
        fields: r.fields().map(|f| (f.name.to_string(), model(f.ty))).collect(),
    }
}
impl M {
    fn size(&self) -> usize {
        1 + self.fields.iter().map(|f| f.1.size()).sum::<usize>()
    }
    fn depth(&self) -> usize {
        1 + self.fields.iter().map(|f| f.1.depth()).max().unwrap_or(0)
    }
    /// The names in the order a rendering gives them.
    fn words<'a>(&'a self, out: &mut Vec<&'a str>) {
        if let Kind::Enum(s) = &self.kind {
            out.push(s)
        }
        out.extend([self.module.as_str(), self.name.as_str()]);
        for (n, t) in &self.fields {
            out.push(n);
            t.words(out);
        }
    }
}
#[track_caller]
fn rendering(text: &str, m: &M) {
    let mut w = vec![];
    m.words(&mut w);
    let mut at = 0;
    for x in w {
        match text[at..].find(x) {
            Some(p) => at += p + x.len(),
            None => viol!("rendering", "{text:?} doesn't mention {x:?} after byte {at}"),
        }
    }
    must!("rendering-version", m.version == 0 || text.contains(&m.version.to_string()), "{text:?} doesn't mention version {}", m.version);
}
// ----------------------------------------- descriptions built at run time
/// Descriptions must be 'static: these live until the arena is dropped, after every use.
#[derive(Default)]
struct Arena {
    text: Vec<Box<str>>,
    types: Vec<Box<TypeReport>>,
    fields: Vec<Box<FieldReport>>,
}
impl Arena {
    fn str(&mut self, s: &str) -> Str<'static> {
        let b: Box<str> = s.into();
        let r: &'static str = unsafe { &*(&*b as *const str) };
        self.text.push(b);
        Str::new(r)
    }
    fn build(&mut self, m: &M) -> &'static TypeReport {
        let mut next: Option<&'static FieldReport> = None;
        for (n, t) in m.fields.iter().rev() {
            let ty = self.build(t);
            let name = self.str(n);
            self.fields.push(Box::new(FieldReport { name, ty, next_field: StableLike::new(next) }));
            next = Some(unsafe { &*(&**self.fields.last().unwrap() as *const FieldReport) });
        }
        let t = TypeReport {
            name: self.str(&m.name),
            module: self.str(&m.module),
            fields: StableLike::new(next),
            version: m.version,
            tyty: match &m.kind {
                Kind::Struct => TyTy::Struct,
                Kind::Union => TyTy::Union,
                Kind::Enum(s) => TyTy::Enum(self.str(s)),
            },
        };
        self.types.push(Box::new(t));
        unsafe { &*(&**self.types.last().unwrap() as *const TypeReport) }
    }
}
/// Names all have 5 bytes, so that none is the beginning of another.
fn word(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        r.pick(&["alpha", "bravo", "gamma", "delta", "naïv"]).to_string()
    } else {
        (0..5).map(|_| (b'a' + r.below(26) as u8) as char).collect()
    }
}
fn kind(r: &mut Rng) -> Kind {
    match r.below(5) {
        0 => Kind::Union,
        1 | 2 => Kind::Enum(r.pick(&["stabby", "u8", "u16", "u32", "i8", "usize", "rust"]).to_string()),
        _ => Kind::Struct,
    }
}
fn tree(r: &mut Rng, depth: usize) -> M {
    let n = if depth == 0 { 0 } else { *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4]) };
    M {
        name: word(r),
        module: word(r),
        version: if r.bool() { 0 } else { r.edgy() as u32 },
        kind: kind(r),
        fields: (0..n).map(|_| (word(r), tree(r, depth - 1))).collect(),
    }
}
/// Alters one thing somewhere; tells what, and whether identifiers must differ too.
fn mutate(r: &mut Rng, m: &mut M) -> Option<(&'static str, bool)> {
    // at a node chosen uniformly
    let mut left = r.idx(m.size());
    fn at<'a>(m: &'a mut M, left: &mut usize) -> Option<&'a mut M> {
        if *left == 0 {
            return Some(m);
        }
        *left -= 1;
        for (_, t) in &mut m.fields {
            if let Some(m) = at(t, left) {
                return Some(m);
            }
        }
        None
    }
    let t = at(m, &mut left)?;
    let before = t.clone();
    let what = match r.below(11) {
        0 => {
            t.name = word(r);
            ("name", true)
        }
        1 => {
            t.module = word(r);
            ("module", true)
        }
        2 => {
            t.version = t.version.wrapping_add(*r.pick(&[1, u32::MAX, 1 << 8, 1 << 16, 1 << 31]));
            ("version", false)
        }
        3 => {
            t.kind = kind(r);
            ("kind", true)
        }
        4 if !t.fields.is_empty() => {
            let i = r.idx(t.fields.len());
            t.fields.remove(i);
            ("missing field", true)
        }
        5 => {
            let i = r.range(0, t.fields.len());
            let f = (word(r), tree(r, 1));
            t.fields.insert(i, f);
            ("extra field", true)
        }
        6 if t.fields.len() > 1 => {
            let i = r.range(1, t.fields.len() - 1);
            t.fields.swap(i - 1, i);
            ("fields exchanged", true)
        }
        7 if !t.fields.is_empty() => {
            let i = r.idx(t.fields.len());
            t.fields[i].0 = word(r);
            ("field renamed", true)
        }
        8 if t.fields.len() > 1 => {
            let (i, j) = (r.idx(t.fields.len()), r.idx(t.fields.len()));
            let x = t.fields[i].1.clone();
            t.fields[i].1 = std::mem::replace(&mut t.fields[j].1, x);
            ("types exchanged", true)
        }
        9 if !t.fields.is_empty() => {
            let n = t.fields.len();
            let f = t.fields[n - 1].clone();
            t.fields.push(f);
            ("last field repeated", true)
        }
        10 if !t.fields.is_empty() => {
            // one level in between, or gone
            let i = r.idx(t.fields.len());
            let f = &mut t.fields[i].1;
            if r.bool() && !f.fields.is_empty() {
                *f = f.fields[0].1.clone();
            } else {
                *f = M { name: word(r), module: word(r), version: 0, kind: Kind::Struct, fields: vec![("inner".into(), f.clone())] };
            }
            ("type wrapped", true)
        }
        _ => {
            std::mem::swap(&mut t.name, &mut t.module);
            ("name and module exchanged", true)
        }
    };
    (*t != before).then_some(what)
}
#[track_caller]
fn compare(a: &'static TypeReport, b: &'static TypeReport, equal: bool, what: &str) {
    let f = || format!("{what}: {a} / {b}");
    must!("compatible", a.is_compatible(b) == equal && b.is_compatible(a) == equal, "{} / {} where {equal} was expected: {}", a.is_compatible(b), b.is_compatible(a), f());
    must!("equality", (a == b) == equal && (b == a) == equal, "{} where {equal} was expected: {}", a == b, f());
    if equal {
        if !cfg!(miri) || h(a) % 4 == 0 {
            must!("identifier", gen_id(a) == gen_id(b), "two identifiers: {}", f());
        }
        must!("hash", h(a) == h(b), "two hashes: {}", f());
        must!("same-rendering", a.to_string() == b.to_string(), "{}", f());
        must!("fields", a.fields().eq(b.fields()));
    }
}
fn built(c: &mut Case) {
    let d = c.scale(4, 2);
    let d = c.rng.range(0, d);
    let m = tree(&mut c.rng, d);
    let mut arena = Arena::default();
    let a = arena.build(&m);
    c.log(|| format!("{a}"));
    same!("fields", model(a), m);
    rendering(&a.to_string(), &m);
    let b = arena.build(&m);
    compare(a, b, true, "identical");
    compare(a, a, true, "itself");
    for _ in 0..c.scale(12, 4) {
        let mut x = m.clone();
        let Some((what, ids)) = mutate(&mut c.rng, &mut x) else { continue };
        let equal = x == m;
        let y = arena.build(&x);
        c.ev(mix(fnv(what.as_bytes()), h(y)));
        compare(a, y, equal, what);
        if ids && !equal && x.version == m.version && c.rng.chance(1, 3) {
            must!("identifier-shared", gen_id(a) != gen_id(y), "{what}: {a} / {y}");
        }
        rendering(&y.to_string(), &x);
        // a second alteration may undo the first
        if c.rng.bool() {
            let mut z = x.clone();
            if mutate(&mut c.rng, &mut z).is_some() {
                compare(arena.build(&z), a, z == m, "altered twice");
            }
        }
        c.nontrivial = true;
    }
    // an unrelated one
    let z = tree(&mut c.rng, d);
    let y = arena.build(&z);
    compare(a, y, z == m, "unrelated");
    // standard iterator and const walk agree
    let mut f = a.fields();
    let mut names = vec![];
    while let (new, Some(n)) = f.next_const() {
        f = new;
        names.push(n.name.to_string());
    }
    same!("const-walk", names, m.fields.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
}
// -------------------------------------------------- declarations compared
/// One declaration: what it is called in reports, its report and identifier, and what the macro was given.
struct Decl {
    what: &'static str,
    report: &'static TypeReport,
    id: u64,
    /// Declarations of the same class describe the same type.
    class: usize,
    fields: &'static [&'static str],
}
macro_rules! family {
    ($f:ident: $($class:literal $m:ident [$($field:literal)*] { $($body:tt)* })*) => {
        #[cfg(not(miri))] // compiling these takes longer than interpreting the rest, and they are only read
        mod $f {
            use super::Decl;
            use stabby::abi::IStable;
            $(pub mod $m { #[allow(unused_imports)] use super::super::*; $($body)* })*
            pub fn all() -> Vec<Decl> {
                vec![$(Decl { what: concat!(stringify!($f), "::", stringify!($m)), report: <$m::T as IStable>::REPORT, id: <$m::T as IStable>::ID, class: $class, fields: &[$($field),*] }),*]
            }
        }
    };
}
family! { structs:
    0 base ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u32, c: u16 } }
    0 again ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { pub a: u8, pub b: u32, pub c: u16 } }
    0 zero ["a" "b" "c"] { #[stabby::stabby(module = "fam", version = 0, no_opt)] pub struct T { pub a: u8, b: u32, c: u16 } }
    1 missing_last ["a" "b"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u32 } }
    2 missing_first ["b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { b: u32, c: u16 } }
    3 missing_mid ["a" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, c: u16 } }
    4 none [] { #[stabby::stabby(module = "fam", no_opt)] pub struct T {} }
    5 extra_zst ["a" "b" "c" "d"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u32, c: u16, d: () } }
    6 extra ["a" "b" "c" "d"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u32, c: u16, d: u8 } }
    7 renamed_first ["z" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { z: u8, b: u32, c: u16 } }
    8 renamed_last ["a" "b" "z"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u32, z: u16 } }
    9 renamed_longer ["a" "bb" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, bb: u32, c: u16 } }
    10 reordered ["b" "a" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { b: u32, a: u8, c: u16 } }
    11 swapped_names ["b" "a" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { b: u8, a: u32, c: u16 } }
    12 signed ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: i8, b: u32, c: u16 } }
    13 signed_last ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u32, c: i16 } }
    14 float ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: f32, c: u16 } }
    15 wide ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: u8, b: u64, c: u16 } }
    16 version ["a" "b" "c"] { #[stabby::stabby(module = "fam", version = 1, no_opt)] pub struct T { a: u8, b: u32, c: u16 } }
    17 version2 ["a" "b" "c"] { #[stabby::stabby(module = "fam", version = 2, no_opt)] pub struct T { a: u8, b: u32, c: u16 } }
    18 module ["a" "b" "c"] { #[stabby::stabby(module = "fan", no_opt)] pub struct T { a: u8, b: u32, c: u16 } }
    19 tuple ["0" "1" "2"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T(u8, u32, u16); }
    20 tuple_order ["0" "1" "2"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T(u32, u8, u16); }
    21 union ["a" "b" "c"] { #[stabby::stabby(module = "fam")] pub union T { a: u8, b: u32, c: u16 } }
    22 union_order ["a" "c" "b"] { #[stabby::stabby(module = "fam")] pub union T { a: u8, c: u16, b: u32 } }
    23 other_name ["a" "b" "c"] { #[stabby::stabby(module = "fam", no_opt)] pub struct U { a: u8, b: u32, c: u16 } pub type T = U; }
    24 own_module ["a" "b" "c"] { #[stabby::stabby(no_opt)] pub struct T { a: u8, b: u32, c: u16 } }
    25 own_module_too ["a" "b" "c"] { #[stabby::stabby(no_opt)] pub struct T { a: u8, b: u32, c: u16 } }
    26 nested ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: super::base::T } }
    26 nested_again ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: super::again::T } }
    27 nested_version ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: super::version::T } }
    28 nested_order ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: super::reordered::T } }
    29 nested_twice ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: super::nested::T } }
    30 nested_twice_version ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: super::nested_version::T } }
    31 pointed ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: &'static super::base::T } }
    32 pointed_version ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: &'static super::version::T } }
    33 pointed_deep ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: stabby::vec::Vec<stabby::boxed::Box<super::base::T>> } }
    34 pointed_deep_version ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: stabby::vec::Vec<stabby::boxed::Box<super::version::T>> } }
    35 generic_u8 ["a" "b"] { #[stabby::stabby(module = "fam", no_opt)] pub struct G<A> { a: A, b: u32 } pub type T = G<u8>; }
    36 generic_i8 ["a" "b"] { #[stabby::stabby(module = "fam", no_opt)] pub struct G<A> { a: A, b: u32 } pub type T = G<i8>; }
    35 generic_default ["a" "b"] { #[stabby::stabby(module = "fam", no_opt)] pub struct G<A = u8> { a: A, b: u32 } pub type T = G; }
    35 not_generic ["a" "b"] { #[stabby::stabby(module = "fam", no_opt)] pub struct G { a: u8, b: u32 } pub type T = G; }
    37 generic_lt ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct G<'a> { a: &'a u8 } pub type T = G<'static>; }
    38 arrays ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: [u8; 7] } }
    39 arrays8 ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: [u8; 8] } }
    40 function ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: extern "C" fn(u8, u16) -> u8 } }
    41 function_args ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: extern "C" fn(u16, u8) -> u8 } }
    42 function_ret ["a"] { #[stabby::stabby(module = "fam", no_opt)] pub struct T { a: extern "C" fn(u8, u16) -> u16 } }
}
family! { enums:
    0 base ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B, C } }
    0 again ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B, C } }
    1 u16 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u16)] pub enum T { A, B, C } }
    2 u32 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u32)] pub enum T { A, B, C } }
    3 u64 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u64)] pub enum T { A, B, C } }
    4 usize ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(usize)] pub enum T { A, B, C } }
    5 i8 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(i8)] pub enum T { A, B, C } }
    6 i16 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(i16)] pub enum T { A, B, C } }
    7 i32 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(i32)] pub enum T { A, B, C } }
    8 i64 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(i64)] pub enum T { A, B, C } }
    9 isize ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(isize)] pub enum T { A, B, C } }
    10 missing ["A" "B"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B } }
    11 extra ["A" "B" "C" "D"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B, C, D } }
    12 renamed ["A" "X" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, X, C } }
    13 reordered ["B" "A" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { B, A, C } }
    14 rotated ["C" "A" "B"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { C, A, B } }
    15 version ["A" "B" "C"] { #[stabby::stabby(module = "fam", version = 3)] #[repr(u8)] pub enum T { A, B, C } }
    16 payload ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B(u32), C } }
    17 payload_first ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A(u32), B, C } }
    18 payload_type ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B(i32), C } }
    19 payload_u16 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u16)] pub enum T { A, B(u32), C } }
    20 compact ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(stabby)] pub enum T { A, B(u32), C } }
    21 stabby_type ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(stabby)] pub enum T { A, B(i32), C } }
    22 stabby_order ["B" "A" "C"] { #[stabby::stabby(module = "fam")] #[repr(stabby)] pub enum T { B(u32), A, C } }
    23 stabby_name ["A" "B" "D"] { #[stabby::stabby(module = "fam")] #[repr(stabby)] pub enum T { A, B(u32), D } }
    24 stabby_version ["A" "B" "C"] { #[stabby::stabby(module = "fam", version = 9)] #[repr(stabby)] pub enum T { A, B(u32), C } }
    25 structure ["A" "B" "C"] { #[stabby::stabby(module = "fam")] pub struct T { A: (), B: u32, C: () } }
    26 c_u8 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A, B(u32, u8), C { x: u8, y: u16 } } }
    27 c_u8_order ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A, B(u8, u32), C { x: u8, y: u16 } } }
    28 c_u8_names ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A, B(u32, u8), C { x: u8, z: u16 } } }
    29 c_u8_swap ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A, B(u32, u8), C { y: u16, x: u8 } } }
    30 c_u8_less ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A, B(u32, u8), C { x: u8 } } }
    31 c_u16 ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u16)] pub enum T { A, B(u32, u8), C { x: u8, y: u16 } } }
    32 c_payload ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A, B(u32), C } }
    33 tagged_pair ["A" "B"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A(u8), B(stabby::tuple::Tuple2<u64, u8>) } }
    34 c_tagged_pair ["A" "B"] { #[stabby::stabby(module = "fam")] #[repr(C, u8)] pub enum T { A(u8), B(stabby::tuple::Tuple2<u64, u8>) } }
    35 numbered ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A = 1, B = 2, C = 4 } }
    35 numbered_again ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A = 1, B = 2, C = 4 } }
    36 renumbered ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A = 2, B = 1, C = 4 } }
    37 numbered_last ["A" "B" "C"] { #[stabby::stabby(module = "fam")] #[repr(u8)] pub enum T { A, B, C = 200 } }
}
family! { aligned:
    0 base ["a" "b"] { #[stabby::stabby(module = "fam")] pub struct T { a: u8, b: u16 } }
    1 align8 ["a" "b"] { #[stabby::stabby(module = "fam")] #[repr(align(8))] pub struct T { a: u8, b: u16 } }
    1 align8_again ["a" "b"] { #[stabby::stabby(module = "fam")] #[repr(align(8))] pub struct T { a: u8, b: u16 } }
    2 align16 ["a" "b"] { #[stabby::stabby(module = "fam")] #[repr(align(16))] pub struct T { a: u8, b: u16 } }
}
fn declarations() -> &'static Vec<Decl> {
    static A: OnceLock<Vec<Decl>> = OnceLock::new();
    #[cfg(not(miri))]
    let of = || [structs::all(), enums::all(), aligned::all()].into_iter().flatten().collect();
    #[cfg(miri)]
    let of = Vec::new;
    A.get_or_init(of)
}
fn declared(c: &mut Case) {
    let all = declarations();
    let n = all.len();
    for _ in 0..c.scale(40, 12) {
        let i = c.rng.idx(n);
        // mostly near misses: of the same family
        let j = if c.rng.chance(3, 4) { (0..50).map(|_| c.rng.idx(n)).find(|j| all[*j].what.split(':').next() == all[i].what.split(':').next()).unwrap_or(i) } else { c.rng.idx(n) };
        let (a, b) = (&all[i], &all[j]);
        c.ev((i * n + j) as u64);
        let fam = |d: &Decl| d.what.split(':').next().unwrap().to_string();
        let equal = fam(a) == fam(b) && a.class == b.class;
        if fam(a) == fam(b) {
            compare(a.report, b.report, equal, &format!("{} and {}", a.what, b.what));
        }
        if equal {
            same!("identifier", a.id, b.id, "{} and {}", a.what, b.what);
        }
        if c.rng.chance(1, 6) {
            same!("identifier", a.id, gen_id(a.report));
        }
        let m = model(a.report);
        let text = a.report.to_string();
        rendering(&text, &m);
        let names: Vec<_> = m.fields.iter().map(|f| f.0.as_str()).collect();
        // every field once, in the order of the declaration or backwards
        for f in a.fields {
            same!("declared-field", names.iter().filter(|x| x.split([' ', '=']).next() == Some(f)).count(), 1, "{} of {}: {names:?}", f, a.what);
        }
        let order: Vec<_> = a.fields.iter().map(|f| names.iter().position(|x| x.split([' ', '=']).next() == Some(f)).unwrap()).collect();
        must!("declared-order", order.is_sorted() || order.iter().rev().is_sorted(), "{}: {names:?}", a.what);
    }
    c.log(|| format!("{n} declarations"));
    c.nontrivial = true;
}
// ------------------------------------------------------- the built-in types
struct Known {
    what: &'static str,
    report: &'static TypeReport,
    id: u64,
    /// What the description must mention, at any depth.
    parts: Vec<&'static TypeReport>,
}
macro_rules! known { ($v:ident, $($t:ty $(, $p:ty)*;)*) => { $($v.push(Known { what: stringify!($t), report: <$t as IStable>::REPORT, id: <$t as IStable>::ID, parts: vec![$(<$p as IStable>::REPORT),*] });)* } }
macro_rules! around { ($v:ident, $($t:ty),*) => { $(known!($v,
    &'static $t, $t; &'static mut $t, $t; *const $t, $t; *mut $t, $t; core::ptr::NonNull<$t>, $t; Option<&'static $t>, $t;
    core::mem::MaybeUninit<$t>, $t; core::cell::UnsafeCell<$t>, $t; core::mem::ManuallyDrop<$t>, $t; core::sync::atomic::AtomicPtr<$t>, $t;
    [$t; 1], $t; [$t; 2], $t; [$t; 3], $t; [$t; 127], $t; [$t; 128], $t; [[$t; 2]; 3], $t; [[$t; 3]; 2], $t;
    stabby::vec::Vec<$t>, $t; stabby::boxed::Box<$t>, $t; stabby::sync::Arc<$t>, $t; stabby::sync::Weak<$t>, $t; stabby::sync::ArcSlice<$t>, $t; stabby::sync::WeakSlice<$t>, $t;
    stabby::boxed::BoxedSlice<$t>, $t; stabby::slice::Slice<'static, $t>, $t; stabby::slice::SliceMut<'static, $t>, $t;
    stabby::option::Option<$t>, $t; stabby::result::Result<$t, ()>, $t, (); stabby::result::Result<(), $t>, (), $t; stabby::result::Result<$t, u64>, $t, u64; stabby::result::Result<u64, $t>, u64, $t;
    stabby::abi::alloc::sync::AtomicArc<$t, LibcAlloc>, $t;
    stabby::tuple::Tuple1<$t>, $t; stabby::tuple::Tuple2<$t, u64>, $t, u64; stabby::tuple::Tuple2<u64, $t>, u64, $t; stabby::tuple::Tuple3<$t, (), u64>, $t, u64;
    Result<&'static $t, ()>, $t, (); Result<(), &'static $t>, $t, ();
    extern "C" fn($t); extern "C" fn() -> $t, $t; unsafe extern "C" fn() -> $t, $t; extern "C-unwind" fn() -> $t, $t; unsafe extern "C-unwind" fn() -> $t, $t;
    extern "C" fn($t, $t); extern "C" fn($t) -> $t, $t; unsafe extern "C" fn($t) -> $t, $t; extern "C-unwind" fn($t) -> $t, $t; extern "C" fn(u64, $t) -> $t, $t, u64; extern "C" fn($t, u64) -> $t, $t, u64;
    extern "C" fn(u64, u64, u64, $t), $t, u64; extern "C" fn(u64, u64, $t, u64), $t, u64; extern "C" fn($t, u64, u64, u64), $t, u64; extern "C" fn(u64, u64, u64) -> $t, $t, u64;
);)* } }
fn known() -> &'static Vec<Known> {
    static A: OnceLock<Vec<Known>> = OnceLock::new();
    A.get_or_init(|| {
        use core::num::*;
        use core::sync::atomic::*;
        let mut v = vec![];
        known!(v,
            (); bool; u8; u16; u32; u64; u128; usize; i8; i16; i32; i64; i128; isize; f32; f64; core::cmp::Ordering;
            NonZeroU8; NonZeroU16; NonZeroU32; NonZeroU64; NonZeroU128; NonZeroUsize; NonZeroI8; NonZeroI16; NonZeroI32; NonZeroI64; NonZeroI128; NonZeroIsize;
            AtomicBool; AtomicU8; AtomicU16; AtomicU32; AtomicU64; AtomicUsize; AtomicI8; AtomicI16; AtomicI32; AtomicI64; AtomicIsize;
            core::marker::PhantomData<u8>; core::marker::PhantomPinned;
            stabby::string::String; stabby::str::Str<'static>; stabby::str::StrMut<'static>; stabby::boxed::BoxedStr; stabby::sync::ArcStr; stabby::sync::WeakStr;
            stabby::time::Duration; stabby::time::Instant; stabby::time::SystemTime; stabby::time::AtomicDuration; stabby::time::AtomicInstant;
            stabby::abi::num::NonMaxU8; stabby::abi::num::NonMaxU16; stabby::abi::num::NonMaxU32; stabby::abi::num::NonMaxU64; stabby::abi::num::NonMaxU128; stabby::abi::num::NonMaxUsize;
            stabby::abi::num::NonXU8<1>; stabby::abi::num::NonXU8<2>; stabby::abi::num::NonXU8<12>; stabby::abi::num::NonXU8<255>; stabby::abi::num::NonXU16<1>; stabby::abi::num::NonXU16<256>; stabby::abi::num::NonXU32<1>;
            stabby::abi::num::NonXU64<1>; stabby::abi::num::NonXU64<0x1_0000_0001>; stabby::abi::num::NonXU64<{ u64::MAX }>; stabby::abi::num::NonXU128<{ 1 << 64 }>; stabby::abi::num::NonXU128<{ u128::MAX }>; stabby::abi::num::NonXUsize<7>; stabby::abi::num::NonXUsize<8>;
            LibcAlloc; RustAlloc; stabby::abi::report::TypeReport; stabby::abi::report::FieldReport; stabby::abi::report::TyTy;
            [u8; 0], u8; [u16; 0], u16; [(); 5], ();
            Result<&'static u8, core::marker::PhantomData<u16>>, core::marker::PhantomData<u16>; Result<&'static u8, core::marker::PhantomPinned>, core::marker::PhantomPinned;
            Result<core::marker::PhantomPinned, &'static u8>, core::marker::PhantomPinned; Result<core::marker::PhantomData<u16>, &'static u8>, core::marker::PhantomData<u16>;
            Option<NonZeroU8>, NonZeroU8; Option<NonZeroU16>, NonZeroU16; Result<NonZeroU8, ()>, NonZeroU8;
            extern "C" fn(); unsafe extern "C" fn(); extern "C-unwind" fn(); unsafe extern "C-unwind" fn();
        );
        // each costs the interpreter a hash at its first use, and time to compile
        #[cfg(not(miri))]
        more(&mut v);
        #[cfg(miri)]
        some(&mut v);
        v
    })
}
#[cfg(miri)]
fn some(v: &mut Vec<Known>) {
    known!(v, &'static u8, u8; &'static u16, u16; [u8; 1], u8; [u8; 2], u8; stabby::option::Option<u8>, u8; stabby::vec::Vec<u8>, u8; Result<&'static u8, ()>, u8, (); extern "C" fn(u8) -> u16, u8, u16; extern "C" fn(u16) -> u8, u8, u16;);
}
#[cfg(not(miri))]
fn more(v: &mut Vec<Known>) {
    use core::num::*;
    around!(v, u8, i8, bool, NonZeroU16, u32, f32, stabby::string::String);
}
fn mentions(r: &TypeReport, part: &TypeReport) -> bool {
    r == part || r.fields().any(|f| mentions(f.ty, part))
}
fn builtins(c: &mut Case) {
    let all = known();
    let n = all.len();
    for _ in 0..c.scale(60, 10) {
        let i = c.rng.idx(n);
        // neighbours are alike
        let j = if c.rng.bool() { c.rng.idx(n) } else { (i + c.rng.idx(12)) % n };
        let (a, b) = (&all[i], &all[j]);
        c.ev((i * n + j) as u64);
        if a.what == b.what {
            compare(a.report, b.report, true, a.what);
        } else {
            compare(a.report, b.report, false, &format!("{} and {}", a.what, b.what));
            must!("identifier-shared", a.id != b.id, "{} and {}", a.what, b.what);
        }
        if c.rng.chance(1, 6) {
            same!("identifier", a.id, gen_id(a.report), "{}", a.what);
        }
        for p in &a.parts {
            must!("mentions", mentions(a.report, p), "{}: {} isn't in {}", a.what, p, a.report);
        }
        rendering(&a.report.to_string(), &model(a.report));
    }
    c.log(|| format!("{n} types"));
    c.nontrivial = true;
}
// ------------------------------------------------ trait objects, and findings
#[stabby::stabby]
pub trait One {
    extern "C" fn one(&self) -> u32;
}
#[stabby::stabby]
pub trait Two {
    extern "C" fn two(&self) -> u32;
}
#[stabby::stabby]
pub trait Three {
    extern "C" fn one(&self) -> u32;
    extern "C" fn two(&self) -> u32;
}
#[stabby::stabby]
pub trait ThreeMut {
    extern "C" fn one(&self) -> u32;
    extern "C" fn two(&mut self) -> u32;
    extern "C" fn three(&mut self) -> u32;
}
fn objects() -> &'static Vec<Known> {
    static A: OnceLock<Vec<Known>> = OnceLock::new();
    A.get_or_init(|| {
        use stabby::{boxed::Box, dynptr, sync::Arc};
        let mut v = vec![];
        known!(v,
            dynptr!(Box<dyn One>); dynptr!(Box<dyn Two>); dynptr!(Box<dyn Three>); dynptr!(Box<dyn ThreeMut>); dynptr!(Box<dyn Send>); dynptr!(Box<dyn Sync>);
            dynptr!(Arc<dyn One>); dynptr!(Arc<dyn Two>); dynptr!(&'static dyn One); dynptr!(&'static dyn Two); dynptr!(&'static mut dyn One); dynptr!(&'static mut dyn Two);
            dynptr!(Box<dyn One + Two>); dynptr!(Box<dyn Two + One>); dynptr!(Box<dyn One + Send>); dynptr!(Box<dyn One + Sync>); dynptr!(Box<dyn One + Send + Sync>);
            dynptr!(Box<dyn Two + Send>); dynptr!(Box<dyn One + One>); dynptr!(Box<dyn One + Two + Three>); dynptr!(Box<dyn One + Three + Two>);
            dynptr!(Arc<dyn One + Two>); dynptr!(Arc<dyn One + Send + Sync>);
        );
        v
    })
}
fn trait_objects(c: &mut Case) {
    let all = objects();
    let n = all.len();
    for _ in 0..c.scale(60, 10) {
        let (i, j) = (c.rng.idx(n), c.rng.idx(n));
        c.ev((i * n + j) as u64);
        compare(all[i].report, all[j].report, i == j, &format!("{} and {}", all[i].what, all[j].what));
        must!("identifier", (all[i].id == all[j].id) == (i == j), "{} and {}", all[i].what, all[j].what);
    }
    c.log(|| format!("{n} trait objects"));
    c.nontrivial = true;
}
mod narrow {
    #[stabby::stabby(module = "fam")]
    pub struct Arg(pub u8);
    #[stabby::stabby]
    pub trait Call {
        extern "C" fn call(&self, x: Arg) -> u8;
    }
}
fn kf_method_signatures() {
    use stabby::{boxed::Box, dynptr};
    let a = <dynptr!(Box<dyn Fn(u8) -> u8>) as IStable>::REPORT;
    let b = <dynptr!(Box<dyn Fn(u64, ) -> stabby::string::String>) as IStable>::REPORT;
    compare(a, b, false, "Fn(u8) -> u8 and Fn(u64) -> String");
}
fn main() {
    let groups: &[Group] = &[
        ("built", 5, built),
        #[cfg(not(miri))]
        ("declared", 2, declared),
        ("builtins", 3, builtins),
        ("objects", 1, trait_objects),
    ];
    harness::run_suite(groups, &[("method-signatures", kf_method_signatures)]);
}
