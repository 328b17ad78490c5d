//! Dynamic imports hand out a symbol only when its type matches.
#![allow(dead_code, clashing_extern_declarations, improper_ctypes, improper_ctypes_definitions)]
use harness::conc::*;
use harness::models::plug::*;
use harness::{fnv, must, same, viol, Case, Group, Rng};
use stabby::abi::checked_import::{CanariedImport, CheckedImport};
use stabby::abi::report::TypeReport;
use stabby::abi::IStable;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;

// ------------------------------------------------------------------ shared libraries
#[cfg(not(miri))]
mod libs {
    use super::*;
    use libloading::Library;
    use stabby::boxed::Box as SBox;
    use stabby::libloading::StabbyLibrary;
    use stabby::option::Option as SOption;
    use stabby::result::Result as SResult;
    use stabby::slice::Slice;
    use stabby::str::Str;
    use stabby::string::String as SString;
    use stabby::sync::Arc as SArc;
    use stabby::tuple::{Tuple2, Tuple3};
    use stabby::vec::Vec as SVec;
    use std::path::PathBuf;
    use std::sync::OnceLock;

    fn plugin() -> PathBuf {
        let out = std::env::var("SUITE_OUT").unwrap_or_else(|_| std::env::current_exe().unwrap().parent().unwrap().display().to_string());
        PathBuf::from(out).join("examples").join("libplugin.so")
    }
    fn open(p: &std::path::Path) -> Library {
        unsafe { Library::new(p) }.unwrap_or_else(|e| panic!("harness: {e}"))
    }
    /// A type that a symbol can be requested as.
    struct Request {
        what: &'static str,
        sig: &'static str,
        report: fn() -> &'static TypeReport,
        /// Loads the symbol, calls it with the arguments of that seed, and tells the result.
        go: fn(&Library, &[u8], u64) -> Result<String, String>,
    }
    /// A function that the library exports.
    struct Export {
        name: &'static str,
        sig: &'static str,
        /// what it should answer
        model: fn(u64) -> String,
    }
    fn load<T: IStable>(lib: &Library, sym: &[u8], f: impl FnOnce(&T) -> String) -> Result<String, String> {
        match unsafe { lib.get_stabbied::<T>(sym) } {
            Ok(s) => Ok(f(&*s)),
            Err(e) => Err(e.to_string()),
        }
    }
    macro_rules! table {
        ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
            fn requests() -> Vec<Request> { vec![$(Request {
                what: stringify!($n),
                sig: stringify!(fn($($t),*) -> $r),
                report: || <extern "C" fn($($t),*) -> $r as IStable>::REPORT,
                go: |lib, sym, seed| load::<extern "C" fn($($t),*) -> $r>(lib, sym, |f| {
                    let mut _rng = Rng::new(seed);
                    $(let $a = <$t as Arg>::arg(&mut _rng);)*
                    f($($a),*).obs()
                }),
            }),*] }
            fn exports() -> Vec<Export> { vec![$(Export {
                name: stringify!($n),
                sig: stringify!(fn($($t),*) -> $r),
                model: |seed| {
                    let mut _rng = Rng::new(seed);
                    $(let $a = <$t as Arg>::arg(&mut _rng);)*
                    model::$n($($a),*).obs()
                },
            }),*] }
        };
    }
    harness::plug_signatures!(table);

    macro_rules! configs { ($($m:ident $sig:literal { $($d:tt)* })*) => {
        $(mod $m { #[allow(unused_imports)] use super::*; $($d)* })*
        fn configs() -> Vec<Request> { vec![$(Request {
            what: stringify!($m),
            sig: concat!("config ", $sig),
            report: || <extern "C" fn($m::T) -> u32 as IStable>::REPORT,
            go: |lib, sym, seed| load::<extern "C" fn($m::T) -> u32>(lib, sym, |f| {
                if $sig != "same" { viol!("mismatch-accepted", "a function of another Config was handed out as one of {}", $sig) }
                f(unsafe { std::mem::transmute_copy(&conf(seed)) }).obs()
            }),
        }, Request {
            what: concat!(stringify!($m), " boxed"),
            sig: concat!("boxed config ", $sig),
            report: || <extern "C" fn(SVec<SBox<$m::T>>) -> u32 as IStable>::REPORT,
            go: |lib, sym, seed| load::<extern "C" fn(SVec<SBox<$m::T>>) -> u32>(lib, sym, |f| {
                if $sig != "same" { viol!("mismatch-accepted", "a function of another Config was handed out as one of {}", $sig) }
                let mut v = SVec::new();
                for i in 0..seed % 5 {
                    v.push(SBox::new(unsafe { std::mem::transmute_copy(&conf(seed + i)) }))
                }
                f(v).obs()
            }),
        }),*] }
    } }
    fn conf(seed: u64) -> same::T {
        let mut r = Rng::new(seed);
        same::T { a: Arg::arg(&mut r), b: Arg::arg(&mut r), c: Arg::arg(&mut r) }
    }
    fn conf_answer(seed: u64) -> u32 {
        let c = conf(seed);
        c.a ^ c.b as u32 ^ (c.c as u32) << 16
    }
    configs! {
        same "same" { #[stabby::stabby(module = "shared", version = 3)] #[derive(Clone, Copy)] pub struct Config { pub a: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        older "older" { #[stabby::stabby(module = "shared", version = 2)] pub struct Config { pub a: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        unversioned "unversioned" { #[stabby::stabby(module = "shared")] pub struct Config { pub a: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        elsewhere "elsewhere" { #[stabby::stabby(module = "shared2", version = 3)] pub struct Config { pub a: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        here "here" { #[stabby::stabby(version = 3)] pub struct Config { pub a: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        named "named" { #[stabby::stabby(module = "shared", version = 3)] pub struct Konfig { pub a: u32, pub b: u16, pub c: u16 } pub type T = Konfig; }
        first "first" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub z: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        last "last" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub a: u32, pub b: u16, pub z: u16 } pub type T = Config; }
        swapped "swapped" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub a: u32, pub c: u16, pub b: u16 } pub type T = Config; }
        reordered "reordered" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub b: u16, pub c: u16, pub a: u32 } pub type T = Config; }
        signed "signed" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub a: u32, pub b: u16, pub c: i16 } pub type T = Config; }
        retyped "retyped" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub a: f32, pub b: u16, pub c: u16 } pub type T = Config; }
        shorter "shorter" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub a: u32, pub b: u16 } pub type T = Config; }
        tail "tail" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub b: u16, pub c: u16 } pub type T = Config; }
        longer "longer" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config { pub a: u32, pub b: u16, pub c: u16, pub d: () } pub type T = Config; }
        union "union" { #[stabby::stabby(module = "shared", version = 3)] #[derive(Clone, Copy)] pub union Config { pub a: u32, pub b: u16, pub c: u16 } pub type T = Config; }
        enumeration "enumeration" { #[stabby::stabby(module = "shared", version = 3)] #[repr(u8)] pub enum Config { A(u32), B(u16), C(u16) } pub type T = Config; }
        nothing "nothing" { #[stabby::stabby(module = "shared", version = 3)] pub struct Config {} pub type T = Config; }
    }
    fn all_requests() -> Vec<Request> {
        let mut v = requests();
        v.extend(configs());
        macro_rules! two { ($w:literal, $t:ty) => { v.push(Request { what: $w, sig: $w, report: || <$t as IStable>::REPORT, go: |lib, sym, seed| load::<$t>(lib, sym, |f| {
            let mut r = Rng::new(seed);
            let (a, b) = (Arg::arg(&mut r), Arg::arg(&mut r));
            #[allow(unused_unsafe)]
            unsafe { f(a, b) }.obs()
        }) }) } }
        two!("unsafe", unsafe extern "C" fn(u32, u32) -> u32);
        two!("unwind", extern "C-unwind" fn(u32, u32) -> u32);
        two!("unsafe unwind", unsafe extern "C-unwind" fn(u32, u32) -> u32);
        macro_rules! never { ($($w:literal $t:ty;)*) => { $(v.push(Request { what: $w, sig: $w, report: || <$t as IStable>::REPORT, go: |lib, sym, _| load::<$t>(lib, sym, |_| String::from("(not a function of the library)")) });)* } }
        never! {
            "usize" usize;
            "nonzero" std::num::NonZeroUsize;
            "unit" ();
            "reference" &'static u32;
            "option" Option<extern "C" fn(u32, u32) -> u32>;
            "boxed u32" SBox<u32>;
            "function of function" extern "C" fn(extern "C" fn(u32, u32) -> u32) -> u32;
            "function to function" extern "C" fn() -> extern "C" fn(u32, u32) -> u32;
        }
        v
    }
    fn all_exports() -> Vec<Export> {
        let mut v = exports();
        fn two(seed: u64) -> (u32, u32) {
            let mut r = Rng::new(seed);
            (Arg::arg(&mut r), Arg::arg(&mut r))
        }
        v.push(Export { name: "config", sig: "config same", model: |s| conf_answer(s).obs() });
        v.push(Export { name: "config_boxed", sig: "boxed config same", model: |s| (0..s % 5).map(|i| conf_answer(s + i)).fold(0, |a, b| a ^ b).obs() });
        v.push(Export { name: "kind_unsafe", sig: "unsafe", model: |s| (two(s).0 & two(s).1).obs() });
        v.push(Export { name: "kind_unwind", sig: "unwind", model: |s| (two(s).0 | two(s).1).obs() });
        v
    }
    struct Tables {
        requests: Vec<Request>,
        exports: Vec<Export>,
    }
    fn tables() -> &'static Tables {
        static T: OnceLock<Tables> = OnceLock::new();
        T.get_or_init(|| Tables { requests: all_requests(), exports: all_exports() })
    }
    /// Requests export `e` as `q`, and judges the outcome.
    fn judge(lib: &Library, e: &Export, q: &Request, seed: u64) -> u64 {
        let got = (q.go)(lib, e.name.as_bytes(), seed);
        let wants = tables().requests.iter().find(|x| x.sig == e.sig);
        match got {
            Ok(answer) => {
                if e.sig != q.sig {
                    viol!("mismatch-accepted", "{} (exported as {}) was handed out as {} ({})", e.name, e.sig, q.what, q.sig)
                }
                let want = (e.model)(seed);
                if answer != want {
                    viol!("behaviour", "{} answers {answer}, the exported function {want}", e.name)
                }
                fnv(answer.as_bytes())
            }
            Err(m) => {
                if e.sig == q.sig {
                    viol!("match-refused", "{} was refused as {} though it is exported as that: {m}", e.name, q.sig)
                }
                must!("message", std::str::from_utf8(m.as_bytes()).is_ok());
                let (mine, theirs) = ((q.report)().to_string(), (wants.unwrap().report)().to_string());
                must!("message", m.contains(&mine), "{} requested as {}: the message does not describe what was requested ({mine}): {m}", e.name, q.what);
                must!("message", m.contains(&theirs), "{} requested as {}: the message does not describe what was found ({theirs}): {m}", e.name, q.what);
                1
            }
        }
    }
    pub fn matching(c: &mut Case) {
        let lib = open(&plugin());
        let t = tables();
        let n = c.rng.range(1, 40);
        let sole = if c.rng.chance(1, 3) { Some(c.rng.idx(t.exports.len())) } else { None };
        for _ in 0..n {
            let e = &t.exports[sole.unwrap_or_else(|| c.rng.idx(t.exports.len()))];
            let seed = c.rng.next() >> 8;
            let q = if c.rng.chance(1, 3) {
                let same: Vec<_> = t.requests.iter().filter(|q| q.sig == e.sig).collect();
                same[c.rng.idx(same.len())]
            } else {
                &t.requests[c.rng.idx(t.requests.len())]
            };
            c.log(|| format!("{} as {}", e.name, q.what));
            let h = judge(&lib, e, q, seed);
            c.ev(fnv(e.name.as_bytes()) ^ fnv(q.what.as_bytes()).rotate_left(7) ^ h);
        }
    }
    /// Every exported function requested as every type, once.
    pub fn matrix(c: &mut Case) {
        let lib = open(&plugin());
        let t = tables();
        let e = &t.exports[c.idx as usize % t.exports.len()];
        c.log(|| format!("{} as {} types", e.name, t.requests.len()));
        for q in &t.requests {
            let h = judge(&lib, e, q, c.rng.next() >> 8);
            c.ev(fnv(e.name.as_bytes()) ^ fnv(q.what.as_bytes()).rotate_left(7) ^ h);
        }
    }
    /// A name that is not exported, or not with a description.
    pub fn absent(c: &mut Case) {
        let lib = open(&plugin());
        let t = tables();
        for _ in 0..c.rng.range(1, 20) {
            let e = t.exports[c.rng.idx(t.exports.len())].name;
            let mut name: Vec<u8> = match c.rng.below(12) {
                0 => b"bare".to_vec(),
                1 => b"can_add".to_vec(),
                2 => b"can_sum".to_vec(),
                3 => e.as_bytes()[1..].to_vec(),
                4 => e.as_bytes()[..e.len() - 1].to_vec(),
                5 => format!("{e}_stabbied_v3").into_bytes(),
                6 => e.to_uppercase().into_bytes(),
                7 => vec![],
                8 => format!("{e}\0").into_bytes(),
                9 => {
                    let mut v = e.as_bytes().to_vec();
                    v.insert(c.rng.idx(v.len() + 1), 0);
                    v
                }
                10 => (0..c.rng.below(9)).map(|_| c.rng.next() as u8).collect(),
                _ => e.bytes().chain([c.rng.next() as u8]).collect(),
            };
            if t.exports.iter().any(|e| e.name.as_bytes() == name) {
                name.push(b'?')
            }
            let q = &t.requests[c.rng.idx(t.requests.len())];
            c.log(|| format!("{name:?} as {}", q.what));
            match (q.go)(&lib, &name, 7) {
                Ok(a) => viol!("absent-accepted", "{:?} is not exported with a description, but was handed out as {} (answers {a})", String::from_utf8_lossy(&name), q.what),
                Err(m) => {
                    must!("message", std::str::from_utf8(m.as_bytes()).is_ok());
                    must!("message", !m.is_empty());
                    if !name.is_empty() && name.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'_') {
                        let n = std::str::from_utf8(&name).unwrap();
                        must!("message", m.contains(n), "the message does not mention the missing symbol {n}: {m}");
                    }
                }
            }
            c.ev(fnv(&name));
        }
    }
    /// Threads request symbols of one library at the same time, the library having just been opened.
    pub fn threads(c: &mut Case) {
        let lib = open(&plugin());
        let t = tables();
        let n = c.rng.range(2, 4);
        let few = c.rng.range(1, 4);
        let es: Vec<usize> = (0..few).map(|_| c.rng.idx(t.exports.len())).collect();
        let qs: Vec<usize> = es
            .iter()
            .flat_map(|e| [t.requests.iter().position(|q| q.sig == t.exports[*e].sig).unwrap(), c.rng.idx(t.requests.len())])
            .collect();
        let (lib, es, qs) = (&lib, &es, &qs);
        c.log(|| format!("{n} threads, {es:?} as {qs:?}"));
        let gate = Gate::new();
        let gate = &gate;
        race(
            c,
            (0..n)
                .map(|_| {
                    Box::new(move |tc: &mut Tc| {
                        gate.wait(0, tc.n);
                        for _ in 0..12 {
                            let e = &t.exports[es[tc.rng.idx(es.len())]];
                            let q = &t.requests[qs[tc.rng.idx(qs.len())]];
                            tc.jitter();
                            let s = tc.rng.next() >> 8;
                            let h = judge(lib, e, q, s);
                            tc.ev(h);
                        }
                    }) as Box<dyn FnOnce(&mut Tc) + Send>
                })
                .collect(),
        );
    }

    // -------------------------------------------------------------- canaries
    mod suffixes {
        stabby::abi::canary_suffixes!();
    }
    /// The sixth is not required by the loader.
    fn canaries() -> [&'static str; 6] {
        use suffixes::*;
        [CANARY_RUSTC, CANARY_OPT_LEVEL, CANARY_DEBUG, CANARY_TARGET, CANARY_NUM_JOBS, CANARY_HOST]
    }
    /// Builds a shared library of C functions, each with the given further symbols beside it.
    fn make_lib(tag: u64, fns: &[(String, Vec<String>)]) -> Library {
        let out = std::env::var("SUITE_OUT").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
        let dir = PathBuf::from(out).join(format!("c17-{}-{tag}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("harness: scratch directory");
        let (src, so) = (dir.join("l.c"), dir.join("l.so"));
        let mut s: Vec<u8> = vec![];
        let mut defined = std::collections::HashSet::new();
        for (i, (f, more)) in fns.iter().enumerate() {
            s.extend(format!("unsigned f{i}(unsigned x) __asm__(\"{f}\");\nunsigned f{i}(unsigned x) {{ return x * 7u + {i}u; }}\n").into_bytes());
            defined.insert(f.clone());
            for (k, m) in more.iter().enumerate() {
                if defined.insert(m.clone()) {
                    s.extend(format!("void g{i}_{k}(void) __asm__(\"{m}\");\nvoid g{i}_{k}(void) {{}}\n").into_bytes());
                }
            }
        }
        // bytes 0x80.. stand for themselves
        let s: Vec<u8> = String::from_utf8(s).unwrap().chars().map(|c| u8::try_from(c as u32).expect("harness: name")).collect();
        std::fs::write(&src, s).expect("harness: write");
        let r = std::process::Command::new("cc").args(["-shared", "-fPIC", "-O0", "-o"]).arg(&so).arg(&src).output().expect("harness: cc");
        assert!(r.status.success(), "harness: cc failed: {}", String::from_utf8_lossy(&r.stderr));
        let lib = open(&so);
        for f in [&src, &so] {
            let _ = std::fs::remove_file(f);
        }
        let _ = std::fs::remove_dir(&dir);
        lib
    }
    type Made = (Library, Vec<(String, Vec<String>)>);
    fn near(r: &mut Rng, s: &str) -> String {
        let mut b: Vec<char> = s.chars().collect();
        match r.below(5) {
            0 => {
                b.pop();
            }
            1 => b.push(*r.pick(&['0', '_', 'x'])),
            2 => {
                // some digit altered
                let ds: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
                if ds.is_empty() {
                    b.push('1')
                } else {
                    let i = ds[r.idx(ds.len())];
                    b[i] = if b[i] == '9' { '0' } else { (b[i] as u8 + 1) as char }
                }
            }
            3 => {
                let i = 1 + r.idx(b.len() - 1);
                b[i] = if b[i] == 'q' { 'p' } else { 'q' }
            }
            _ => {
                b.remove(1 + r.idx(b.len() - 1));
            }
        }
        b.into_iter().collect()
    }
    /// A library with every choice of canaries, and one of random near-misses.
    fn made() -> &'static [Made; 2] {
        static M: OnceLock<[Made; 2]> = OnceLock::new();
        M.get_or_init(|| {
            let k = canaries();
            let all: Vec<_> = (0..64u32)
                .map(|set| {
                    let f = format!("c{set}_");
                    let more = (0..6).filter(|i| set >> i & 1 == 1).map(|i| format!("{f}{}", k[i])).collect();
                    (f, more)
                })
                .collect();
            let mut r = Rng::new(std::env::args().map(|a| fnv(a.as_bytes())).fold(17, harness::mix));
            let mut odd: Vec<(String, Vec<String>)> = vec![];
            for i in 0..80 {
                let f = match r.below(6) {
                    0 => format!("\u{ff}\u{fe}{i}"),
                    1 => format!("n{i}\u{e9}"),
                    2 => format!("{}_{}", odd.last().map_or("", |l| &l.0), i),
                    _ => format!("d{i}"),
                };
                let victim = r.idx(6);
                let mut more: Vec<String> = k
                    .iter()
                    .enumerate()
                    .filter_map(|(j, s)| {
                        if j == victim {
                            match r.below(4) {
                                0 => None,
                                1 => Some(format!("{f}{s}")),
                                _ => Some(format!("{f}{}", near(&mut r, s))),
                            }
                        } else if r.chance(1, 30) {
                            None
                        } else {
                            Some(format!("{f}{s}"))
                        }
                    })
                    .collect();
                if r.bool() {
                    more.reverse()
                }
                odd.push((f, more))
            }
            [(make_lib(0, &all), all.clone()), (make_lib(1, &odd), odd.clone())]
        })
    }
    pub fn canaried(c: &mut Case) {
        if c.rng.chance(1, 10) {
            compiler(c)
        }
        let k = canaries();
        for i in 0..6 {
            for j in 0..i {
                must!("canary", k[i] != k[j], "canaries {i} and {j} are the same: {}", k[i]);
            }
            // each says something that the others do not: none is the start of another
            for j in (0..6).filter(|j| *j != i) {
                must!("canary", !k[j].starts_with(k[i]), "canary {i} ({}) says nothing that {} does not", k[i], k[j]);
            }
        }
        let (lib, fns) = &made()[(c.rng.chance(2, 3)) as usize];
        let plug = if c.rng.chance(1, 4) { Some(open(&plugin())) } else { None };
        // every symbol the library has
        for _ in 0..c.rng.range(1, 40) {
            if let (Some(p), true) = (&plug, c.rng.bool()) {
                native(c, p);
                continue;
            }
            let i = c.rng.idx(fns.len());
            let (f, _) = &fns[i];
            let sym: Vec<u8> = f.chars().map(|c| c as u32 as u8).collect();
            // A canary can also be there as another function's.
            let have: Vec<bool> = k.iter().map(|s| fns.iter().any(|(g, more)| g == &format!("{f}{s}") || more.contains(&format!("{f}{s}")))).collect();
            let x = c.rng.next() as u32;
            let ok = have[..5].iter().all(|h| *h);
            c.log(|| format!("{f:?} with {have:?}"));
            match unsafe { lib.get_canaried::<extern "C" fn(u32) -> u32>(&sym) } {
                Ok(s) => {
                    must!("canary-missing-accepted", ok, "{f:?} was handed out though of its canaries only {have:?} are there");
                    same!("behaviour", s(x), x.wrapping_mul(7).wrapping_add(i as u32));
                }
                Err(e) => {
                    let m = e.to_string();
                    must!("canaries-refused", !ok, "{f:?} was refused though all canaries are there: {m:?}");
                    must!("message", std::str::from_utf8(m.as_bytes()).is_ok(), "the message is no text: {:?}", m.as_bytes());
                    must!("message", (0..5).any(|j| !have[j] && m.contains(k[j])), "the message mentions no missing canary: {m}");
                    if f.is_ascii() {
                        must!("message", m.contains(f.as_str()), "the message does not mention {f}: {m}");
                    }
                }
            }
            c.ev(harness::mix(fnv(&sym), x as u64));
        }
    }
    /// The Rust library's functions.
    fn native(c: &mut Case, p: &Library) {
        let (a, b): (u32, u32) = (c.rng.next() as u32, c.rng.next() as u32);
        let which = c.rng.below(6);
        c.log(|| format!("plugin {which}"));
        unsafe {
            match which {
                0 => {
                    let f = p.get_canaried::<extern "C" fn(&[u8]) -> u64>(b"can_sum").unwrap_or_else(|e| viol!("canaries-refused", "can_sum: {e}"));
                    let v: Vec<u8> = (0..c.rng.below(50)).map(|_| c.rng.next() as u8).collect();
                    same!("behaviour", f(&v), v.iter().map(|b| *b as u64 * 5).sum::<u64>());
                }
                1 => {
                    let f = p.get_canaried::<fn(&str, Vec<String>) -> String>(b"can_join").unwrap_or_else(|e| viol!("canaries-refused", "can_join: {e}"));
                    let v: Vec<String> = (0..c.rng.below(5)).map(|i| i.to_string()).collect();
                    same!("behaviour", f("-é-", v.clone()), v.join("-é-"));
                }
                2 => {
                    let f = p.get_canaried::<extern "C" fn(u32, u32) -> u32>(b"can_add").unwrap_or_else(|e| viol!("canaries-refused", "can_add: {e}"));
                    same!("behaviour", f(a, b), a.wrapping_add(b) ^ 1);
                }
                3 => {
                    let e = p.get_canaried::<extern "C" fn(u32, u32) -> u32>(b"bare").err();
                    must!("canary-missing-accepted", e.is_some_and(|e| e.to_string().contains("bare")));
                }
                4 => {
                    let t = tables();
                    let x = t.exports[c.rng.idx(t.exports.len())].name;
                    let e = p.get_canaried::<extern "C" fn(u32, u32) -> u32>(x.as_bytes()).err();
                    must!("canary-missing-accepted", e.is_some_and(|e| e.to_string().contains(x)), "{x}");
                }
                _ => {
                    let n = format!("no_such_{a}");
                    let e = p.get_canaried::<extern "C" fn(u32, u32) -> u32>(n.as_bytes()).err();
                    must!("absent-accepted", e.is_some_and(|e| e.to_string().contains(&n)), "{n}");
                }
            }
        }
        c.ev(which << 32 | a as u64);
    }
    /// The compiler's canary tells this compiler from others.
    fn compiler(c: &mut Case) {
        let k = canaries();
        static V: OnceLock<Option<String>> = OnceLock::new();
        let v = V.get_or_init(|| std::process::Command::new("rustc").args(["-vV"]).output().ok().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()));
        if let Some(v) = v {
            let line = |p: &str| v.lines().find_map(|l| l.strip_prefix(p)).unwrap_or("").trim().to_string();
            let release = line("release: ");
            for n in release.split('-').next().unwrap_or("").split('.') {
                must!("canary", k[0].split(|c: char| !c.is_ascii_digit()).any(|x| x == n), "{:?} does not mention {n} of the compiler's version {release}", k[0]);
            }
            let commit = line("commit-hash: ");
            if commit.len() > 8 && commit != "unknown" {
                must!("canary", k[0].contains(&commit[..7]), "{:?} does not mention the compiler's commit {commit}", k[0]);
            }
            for part in line("host: ").split(['-', '_']) {
                must!("canary", k[3].contains(part) && k[5].contains(part), "{:?} and {:?} do not mention {part}", k[3], k[5]);
            }
        }
        c.log(|| format!("{k:?}"));
        c.ev(fnv(k.concat().as_bytes()));
    }
}

// ------------------------------------------------------------------ static imports of functions of this very program
mod local {
    #[stabby::export]
    pub extern "C" fn c17_add(a: u32, b: u32) -> u32 {
        a.wrapping_add(b) ^ 5
    }
    #[stabby::export]
    pub extern "C" fn c17_text(a: stabby::string::String) -> stabby::string::String {
        let mut a = a;
        a += "+";
        a
    }
    #[stabby::export]
    pub unsafe extern "C" fn c17_unsafe(a: u8) -> u8 {
        !a
    }
    #[stabby::export(canaries)]
    pub extern "C" fn c17_bytes(a: &[u8]) -> usize {
        a.len() * 3
    }
    #[stabby::export(canaries)]
    pub extern "C" fn c17_some(a: u64) -> u64 {
        a ^ 0xFFFF
    }
}
mod right {
    #[stabby::import(name = "c")]
    extern "C" {
        pub fn c17_add(a: u32, b: u32) -> u32;
        pub fn c17_text(a: stabby::string::String) -> stabby::string::String;
        pub unsafe fn c17_unsafe(a: u8) -> u8;
    }
    #[stabby::import(canaries = "", name = "c")]
    extern "C" {
        pub fn c17_bytes(a: &[u8]) -> usize;
    }
    #[stabby::import(canaries = "rustc, opt_level, num_jobs", name = "c")]
    extern "C" {
        pub fn c17_some(a: u64) -> u64;
    }
}
mod wrong {
    #[stabby::import(name = "c")]
    extern "C" {
        pub fn c17_add(a: u32, b: u64) -> u32;
        pub fn c17_text(a: stabby::string::String) -> stabby::str::Str<'static>;
        pub fn c17_unsafe(a: u8) -> u8;
    }
}
fn verdict<F>(i: &'static CheckedImport<F>, good: bool, local: &'static TypeReport, found: &'static TypeReport) {
    match i.as_ref() {
        Ok(_) => must!("mismatch-accepted", good, "an import declared as {local} was given {found}"),
        Err(e) => {
            must!("match-refused", !good, "{e}");
            same!("report", e.local, local);
            same!("report", e.loaded, found);
            let m = e.to_string();
            for r in [local, found] {
                for f in r.fields() {
                    must!("message", m.contains(f.ty.name.as_str()), "{} is not in {m}", f.ty.name);
                }
            }
        }
    }
}
fn imports(c: &mut Case) {
    type Add = extern "C" fn(u32, u32) -> u32;
    type AddW = extern "C" fn(u32, u64) -> u32;
    type Text = extern "C" fn(stabby::string::String) -> stabby::string::String;
    type TextW = extern "C" fn(stabby::string::String) -> stabby::str::Str<'static>;
    type Un = unsafe extern "C" fn(u8) -> u8;
    type UnW = extern "C" fn(u8) -> u8;
    fn r<T: IStable>() -> &'static TypeReport {
        T::REPORT
    }
    let n = c.rng.range(1, if cfg!(miri) { 2 } else { 4 });
    let gate = Gate::new();
    let gate = &gate;
    c.log(|| format!("{n} threads"));
    race(
        c,
        (0..n)
            .map(|_| {
                Box::new(move |t: &mut Tc| {
                    gate.wait(0, t.n);
                    for _ in 0..if cfg!(miri) { 3 } else { 12 } {
                        let (a, b) = (t.rng.next() as u32, t.rng.next() as u32);
                        let k = t.rng.below(12);
                        t.ev(k);
                        match k {
                            0 => verdict(&right::c17_add, true, r::<Add>(), r::<Add>()),
                            1 => verdict(&wrong::c17_add, false, r::<AddW>(), r::<Add>()),
                            2 => verdict(&right::c17_text, true, r::<Text>(), r::<Text>()),
                            3 => verdict(&wrong::c17_text, false, r::<TextW>(), r::<Text>()),
                            4 => verdict(&right::c17_unsafe, true, r::<Un>(), r::<Un>()),
                            5 => verdict(&wrong::c17_unsafe, false, r::<UnW>(), r::<Un>()),
                            6 => same!("behaviour", (right::c17_add)(a, b), a.wrapping_add(b) ^ 5),
                            7 => same!("behaviour", (right::c17_text)(a.to_string().as_str().into()).to_string(), format!("{a}+")),
                            8 => same!("behaviour", unsafe { (right::c17_unsafe)(a as u8) }, !(a as u8)),
                            9 => same!("behaviour", unsafe { (right::c17_bytes)(&[1, 2, 3][..a as usize % 4]) }, a as usize % 4 * 3),
                            10 => same!("behaviour", unsafe { (right::c17_some)(a as u64) }, a as u64 ^ 0xFFFF),
                            _ => {
                                let p = std::panic::catch_unwind(|| {
                                    let _ = *wrong::c17_add;
                                });
                                must!("mismatch-accepted", p.is_err());
                            }
                        }
                    }
                }) as Box<dyn FnOnce(&mut Tc) + Send>
            })
            .collect(),
    );
}

// ------------------------------------------------------------------ first accesses
/// What the library would describe its symbol as.
static EXPORTED: AtomicUsize = AtomicUsize::new(0);
static DELAY: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicU32 = AtomicU32::new(0);
fn descriptions() -> [&'static TypeReport; 6] {
    [
        <u32 as IStable>::REPORT,
        <u64 as IStable>::REPORT,
        <Point as IStable>::REPORT,
        <Spot as IStable>::REPORT,
        <extern "C" fn(u32, u64) -> u8 as IStable>::REPORT,
        <extern "C" fn(u64, u32) -> u8 as IStable>::REPORT,
    ]
}
fn dawdle() {
    let d = DELAY.load(Relaxed);
    if cfg!(miri) {
        for _ in 0..d % 3 {
            std::thread::yield_now()
        }
    } else {
        for _ in 0..d {
            std::hint::spin_loop()
        }
        if d % 3 == 0 {
            std::thread::yield_now()
        }
    }
}
extern "C" fn checker(asked: &TypeReport) -> Option<Shared> {
    let n = CALLS.fetch_add(1, Relaxed);
    let ok = descriptions()[EXPORTED.load(Relaxed)].is_compatible(asked);
    dawdle();
    ok.then(|| Shared::new(0xF00D + n as u64))
}
extern "C" fn described() -> &'static TypeReport {
    descriptions()[EXPORTED.load(Relaxed)]
}
extern "C" fn canary() {
    dawdle();
    CALLS.fetch_add(1, Relaxed);
}
fn checked(c: &mut Case) {
    let n = c.rng.range(1, if cfg!(miri) { 3 } else { 4 });
    let rounds = c.scale(20, 2);
    let d = descriptions();
    reset();
    let mut done = 0;
    for _ in 0..rounds {
        let exported = c.rng.idx(6);
        let wanted = if c.rng.chance(2, 3) { exported } else { c.rng.idx(6) };
        EXPORTED.store(exported, Relaxed);
        DELAY.store(c.rng.below(*c.rng.clone().pick(&[2, 40, 400])) as u32, Relaxed);
        CALLS.store(0, Relaxed);
        if room() < 64 {
            break;
        }
        let accesses = c.rng.range(0, 5);
        c.log(|| format!("{n} threads, {accesses} accesses of {exported} as {wanted}"));
        let before = born();
        let import = CheckedImport::<Shared>::new(checker, described, d[wanted]);
        let i = &import;
        let gate = Gate::new();
        let gate = &gate;
        let seen = race(
            c,
            (0..n)
                .map(|_| {
                    Box::new(move |t: &mut Tc| {
                        let mut first = None;
                        gate.wait(0, t.n);
                        for k in 0..accesses {
                            t.jitter();
                            let v = match i.as_ref() {
                                Ok(s) => {
                                    must!("mismatch-accepted", exported == wanted, "{} handed out as {}", d[exported], d[wanted]);
                                    s.touch(t.me);
                                    Some((s as *const Shared as usize, s.a()))
                                }
                                Err(e) => {
                                    must!("match-refused", exported != wanted, "{e}");
                                    must!("report", std::ptr::eq(e.local, d[wanted]) || e.local == d[wanted]);
                                    must!("report", e.loaded == d[exported]);
                                    None
                                }
                            };
                            t.ev(v.is_some() as u64);
                            if k == 0 {
                                first = Some(v)
                            } else {
                                same!("verdict", Some(v), first, "another access by the same thread");
                            }
                        }
                        first
                    }) as Box<dyn FnOnce(&mut Tc) -> Option<Option<(usize, u64)>> + Send>
                })
                .collect(),
        );
        for s in &seen[1..] {
            same!("verdict", *s, seen[0], "in another thread");
        }
        if accesses > 0 {
            must!("unchecked", CALLS.load(Relaxed) > 0);
            same!("verdict", i.as_ref().ok().map(|s| (s as *const Shared as usize, s.a())), seen[0].unwrap(), "after the race");
            if exported == wanted {
                let s = i.as_ref().unwrap_or_else(|_| unreachable!());
                for t in 0..n {
                    same!("other-value", s.touches(t), accesses as u32, "accesses of thread {t} arrived");
                }
            }
        }
        // every value the checker made, but the one handed out, is gone; that one goes with the import
        let alive = (before..born()).filter(|x| state(*x as u32) == 1).count();
        same!("leak", alive, (accesses > 0 && exported == wanted) as usize);
        done += 1;
        drop(import);
        for x in before..born() {
            same!("drop-balance", state(x as u32), 2, "value {x}");
        }
    }
    c.ev(done as u64);
    canaried_import(c, n);
}
fn canaried_import(c: &mut Case, n: usize) {
    CALLS.store(0, Relaxed);
    let v = c.rng.next();
    let import = CanariedImport::new(v, canary as extern "C" fn());
    let i = &import;
    race(
        c,
        (0..n)
            .map(|_| {
                Box::new(move |t: &mut Tc| {
                    for _ in 0..3 {
                        t.jitter();
                        same!("other-value", **i, v);
                        t.ev(1);
                    }
                }) as Box<dyn FnOnce(&mut Tc) + Send>
            })
            .collect(),
    );
    must!("unchecked", CALLS.load(Relaxed) > 0, "nobody looked at the canaries");
    same!("other-value", *import, v);
}

fn main() {
    let groups: &[Group] = &[
        #[cfg(not(miri))]
        ("matrix", 3, libs::matrix),
        #[cfg(not(miri))]
        ("matching", 3, libs::matching),
        #[cfg(not(miri))]
        ("absent", 2, libs::absent),
        #[cfg(not(miri))]
        ("threads", 2, libs::threads),
        #[cfg(not(miri))]
        ("canaried", 3, libs::canaried),
        ("imports", 1, imports),
        ("checked", 4, checked),
    ];
    harness::run_suite(groups, &[]);
}
