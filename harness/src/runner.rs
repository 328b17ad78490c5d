use crate::Rng;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Violation {
    pub sig: String,
    pub msg: String,
}
#[cold]
#[inline(never)]
#[track_caller]
pub fn violation(sig: &str, msg: String) -> ! {
    // If we are already unwinding, a second panic would abort without a message: print first.
    if std::thread::panicking() {
        println!("MONITOR-VIOLATION sig={sig} (while unwinding) {msg}");
    }
    let loc = std::panic::Location::caller();
    // A panic that crosses an `extern "C"` function aborts the process before it is reported.
    println!("NOTE monitor sig={sig} {msg}");
    std::panic::panic_any(Violation {
        sig: sig.to_string(),
        msg: format!("{msg} (monitor at {}:{})", loc.file(), loc.line()),
    })
}
thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Message and location of the last panic seen by this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}
/// Runs `f`, which is allowed to panic (with anything but a monitor violation).
/// Returns Err(message) if it did.
pub fn expect_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p)
            }
            Err(last_panic())
        }
    }
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z ^ (z >> 29)
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    /// Hash of what this case did/observed; distinct hashes are counted when `nontrivial`.
    pub hash: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub want_sample: bool,
    pub trace: String,
}
impl Case {
    /// Records one observed event in the case's trace hash.
    #[inline]
    pub fn ev(&mut self, v: u64) {
        self.events += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        self.hash = mix(self.hash, v);
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.trace.len() < 600 {
            let s = f();
            self.trace.push_str(&s);
            self.trace.push(' ');
        }
    }
    /// Scales a size: small under Miri.
    pub fn scale(&self, native: usize, miri: usize) -> usize {
        if cfg!(miri) {
            miri
        } else {
            native
        }
    }
}
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub type Group = (&'static str, u32, fn(&mut Case));

fn cpu_ms() -> u64 {
    // utime+stime of this process in ms
    #[cfg(not(miri))]
    if let Ok(s) = std::fs::read_to_string("/proc/self/stat") {
        if let Some(p) = s.rfind(')') {
            let f: Vec<&str> = s[p + 2..].split(' ').collect();
            let u: u64 = f[11].parse().unwrap_or(0);
            let k: u64 = f[12].parse().unwrap_or(0);
            return (u + k) * 10;
        }
    }
    0
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of every suite binary.
/// Arguments: --seed N --millis N --max N --only IDX --group NAME --kf NAME --shard I/N --thorough --marker FILE
/// Each group is (name, weight, function); the time is divided according to weights.
/// `kfs` are the scenarios of known findings, run only on request.
pub fn run_suite(groups: &[Group], kfs: &[(&'static str, fn())]) {
    let mut seed = 1u64;
    let mut millis = 2000u64;
    let mut max = u64::MAX;
    let mut only = None;
    let mut group = None;
    let mut kf = None;
    let mut shard = (0u64, 1u64);
    let mut thorough = false;
    let mut marker: Option<String> = None;
    let mut min = 1u64;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("missing argument value");
        match a.as_str() {
            "--seed" => seed = v().parse().unwrap(),
            "--millis" => millis = v().parse().unwrap(),
            "--max" => max = v().parse().unwrap(),
            "--min" => min = v().parse().unwrap(),
            "--only" => only = Some(v().parse::<u64>().unwrap()),
            "--group" => group = Some(v()),
            "--kf" => kf = Some(v()),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--thorough" => thorough = true,
            "--marker" => marker = Some(v()),
            "--list" => {
                for g in groups {
                    println!("GROUP {}", g.0);
                }
                for g in kfs {
                    println!("KF {}", g.0);
                }
                return;
            }
            a => panic!("unknown argument {a}"),
        }
    }
    let default_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(v) = i.payload().downcast_ref::<Violation>() {
            let _ = v;
            String::from("violation")
        } else {
            String::from("<non-string panic>")
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{msg}{loc}"));
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(0);
        if quiet == 0 && !i.payload().is::<Violation>() && std::env::var_os("VERBOSE").is_some() {
            default_hook(i)
        }
        if msg.contains("panic in a function that cannot unwind") || msg.contains("panic in a destructor during cleanup") {
            println!("MONITOR-VIOLATION sig=abort {msg}{loc}");
        }
    }));
    if let Some(k) = kf {
        for (n, f) in kfs {
            if *n == k {
                let r = catch_unwind(AssertUnwindSafe(f));
                match r {
                    Ok(()) => println!("KF-HOLDS {k}"),
                    Err(p) => {
                        let m = match p.downcast_ref::<Violation>() {
                            Some(v) => format!("sig={} {}", v.sig, v.msg),
                            None => format!("panic: {}", last_panic()),
                        };
                        println!("KF-FAILS {k} {m}")
                    }
                }
                return;
            }
        }
        println!("KF-UNKNOWN {k}");
        return;
    }
    if !cfg!(miri) {
        // Progress watchdog: a case that burns a minute of CPU without one observable step is stuck.
        std::thread::spawn(|| {
            let mut last = (0, cpu_ms());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::Relaxed);
                let c = cpu_ms();
                if p != last.0 {
                    last = (p, c);
                } else if c.saturating_sub(last.1) > 40_000 {
                    println!("MONITOR-VIOLATION sig=no-progress a case used 40 s of CPU without completing one step");
                    std::process::exit(101);
                }
            }
        });
    }
    let mut mark = marker.map(|m| {
        use std::io::Write;
        let mut f = std::fs::File::create(m).unwrap();
        f.write_all(&[b' '; 64]).unwrap();
        f
    });
    let mut sel: Vec<&Group> = groups
        .iter()
        .filter(|g| group.as_ref().map_or(true, |n| n == g.0))
        .collect();
    assert!(!sel.is_empty(), "no such group");
    if cfg!(miri) && sel.len() as u64 >= 4 * shard.1 {
        // Interpreting a type for the first time is what costs most: each process takes its share of the groups.
        sel = sel.into_iter().skip(shard.0 as usize).step_by(shard.1 as usize).collect();
        shard = (0, 1);
    }
    let tw: u64 = sel.iter().map(|g| g.1 as u64).sum();
    let mut total = 0u64;
    let mut events = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per_group: Vec<(String, u64, u64)> = vec![];
    for g in sel {
        let start = std::time::Instant::now();
        let cap = std::time::Duration::from_millis(millis * g.1 as u64 / tw);
        let gh = fnv(g.0.as_bytes());
        let (mut n, mut nt) = (0u64, 0u64);
        let mut idx = shard.0;
        if let Some(o) = only {
            idx = o;
        }
        loop {
            if n >= max || (n >= min && start.elapsed() > cap) {
                break;
            }
            if let Some(f) = &mut mark {
                #[cfg(unix)]
                {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_all_at(format!("{:<63}\n", format!("{}:{}", g.0, idx)).as_bytes(), 0);
                }
                let _ = &f;
            }
            let mut c = Case {
                rng: Rng::new(mix(mix(seed, gh), idx)),
                idx,
                seed,
                thorough,
                hash: gh,
                events: 0,
                nontrivial: true,
                want_sample: n < 2,
                trace: String::new(),
            };
            let r = catch_unwind(AssertUnwindSafe(|| (g.2)(&mut c)));
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            if let Err(p) = r {
                let (sig, msg) = match p.downcast_ref::<Violation>() {
                    Some(v) => (v.sig.clone(), v.msg.clone()),
                    None => ("unexpected-panic".to_string(), last_panic()),
                };
                println!("MONITOR-VIOLATION sig={}/{} group={} case={} seed={} {}", g.0, sig, g.0, idx, seed, msg.replace('\n', " "));
                if !c.trace.is_empty() {
                    println!("TRACE {}", c.trace.replace('\n', " "));
                }
                std::process::exit(101);
            }
            n += 1;
            events += c.events;
            if c.nontrivial {
                nt += 1;
                distinct.insert(c.hash);
            }
            if c.want_sample && samples.len() < 24 && !c.trace.is_empty() {
                samples.push(format!("{}#{}: {}", g.0, idx, c.trace.trim()));
            }
            if only.is_some() {
                break;
            }
            idx += shard.1;
        }
        total += n;
        per_group.push((g.0.to_string(), n, nt));
    }
    let groups_json: Vec<String> = per_group.iter().map(|(g, n, nt)| format!("{}:[{n},{nt}]", json_str(g))).collect();
    let samples_json: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    // distinct hashes are sent so that shards can be merged exactly (capped).
    let mut hs: Vec<u64> = distinct.iter().copied().collect();
    hs.sort();
    let shown: Vec<String> = hs.iter().take(if cfg!(miri) { 2000 } else { 50_000 }).map(|h| format!("\"{h:x}\"")).collect();
    println!(
        "STATS {{\"evaluations\":{total},\"events\":{events},\"distinct\":{},\"groups\":{{{}}},\"samples\":[{}],\"hashes\":[{}]}}",
        distinct.len(),
        groups_json.join(","),
        samples_json.join(","),
        shown.join(",")
    );
}
