//! Direct histories over the allocators and the allocation helpers.
use super::AllocKind;
use crate::{fnv, galloc, monalloc, must, same, viol, Case};
use stabby::alloc::{AllocPtr, IAlloc, Layout};
use std::collections::BTreeMap;
#[cfg(not(miri))]
extern "C" {
    fn dlsym(h: *mut std::ffi::c_void, n: *const std::ffi::c_char) -> *mut std::ffi::c_void;
}
/// Bytes the sanitizer's runtime holds for the process (None without one).
pub fn sanitizer_bytes() -> Option<usize> {
    #[cfg(not(miri))]
    unsafe {
        let p = dlsym(core::ptr::null_mut(), c"__sanitizer_get_current_allocated_bytes".as_ptr());
        if !p.is_null() {
            let f: extern "C" fn() -> usize = core::mem::transmute(p);
            return Some(f());
        }
    }
    None
}
struct Blk {
    size: usize,
    align: usize,
    pat: u8,
}
fn fill(p: *mut u8, n: usize, pat: u8) {
    for i in 0..n {
        unsafe { p.add(i).write(pat.wrapping_add((i % 251) as u8)) }
    }
}
fn verify(p: *const u8, n: usize, pat: u8, what: &str) {
    for i in 0..n {
        let g = unsafe { p.add(i).read() };
        if g != pat.wrapping_add((i % 251) as u8) {
            viol!("content-lost", "{what}: byte {i} of {n} is {g:#x}, was {:#x}", pat.wrapping_add((i % 251) as u8))
        }
    }
}
fn check_new(live: &BTreeMap<usize, Blk>, p: usize, size: usize, align: usize) {
    must!("misaligned-block", p % align == 0, "block of alignment {align} at {p:x}");
    if let Some((a, b)) = live.range(..p + size).next_back() {
        must!("overlapping-blocks", a + b.size <= p, "block {p:x}+{size} overlaps live block {a:x}+{}", b.size);
    }
}
fn layout(c: &mut Case) -> (usize, usize) {
    let align = 1usize << c.rng.below(if cfg!(miri) { 8 } else { 13 });
    let size = match c.rng.below(6) {
        0 => 1 + c.rng.idx(16),
        1 | 2 => 1 + c.rng.idx(300),
        3 => 1usize << c.rng.below(if cfg!(miri) { 9 } else { 15 }),
        4 => align * (1 + c.rng.idx(4)),
        _ => 1 + c.rng.idx(if cfg!(miri) { 600 } else { 40_000 }),
    };
    (size, align)
}
/// A random history of alloc/realloc/free requests through one allocator.
pub fn raw<A: IAlloc>(c: &mut Case, name: &str, mut a: A, ledger: bool) {
    c.hash = crate::mix(c.hash, fnv(name.as_bytes()));
    c.log(|| format!("raw {name}:"));
    let mut live: BTreeMap<usize, Blk> = BTreeMap::new();
    let base = galloc::live();
    let mut mem = 0i64;
    let steps = 1 + c.rng.idx(c.scale(60, 20));
    for _ in 0..steps {
        let op = c.rng.below(12);
        c.ev(op);
        match op {
            0..=4 => {
                let (size, align) = layout(c);
                let g0 = galloc::live();
                let p = a.alloc(Layout { size, align });
                let g1 = galloc::live();
                must!("alloc-null", !p.is_null(), "request of size {size}, align {align} refused");
                check_new(&live, p as usize, size, align);
                c.log(|| format!("alloc({size},{align})"));
                let pat = c.rng.below(256) as u8;
                fill(p.cast(), size, pat);
                if ledger {
                    mem += g1.1 - g0.1;
                    same!("ledger-alloc", g1.0 - g0.0, 1);
                }
                live.insert(p as usize, Blk { size, align, pat });
                c.ev(size as u64 ^ (align as u64) << 32);
            }
            5..=7 if !live.is_empty() => {
                let k = *live.keys().nth(c.rng.idx(live.len())).unwrap();
                let b = live.remove(&k).unwrap();
                let new = if c.rng.chance(1, 3) { b.size.saturating_mul(2) } else { layout(c).0 };
                c.log(|| format!("realloc({}->{new},{})", b.size, b.align));
                let g0 = galloc::live();
                let p = unsafe { a.realloc(k as *mut (), Layout { size: b.size, align: b.align }, new) };
                let g1 = galloc::live();
                must!("realloc-null", !p.is_null(), "reallocation from {} to {new}, align {} refused", b.size, b.align);
                check_new(&live, p as usize, new, b.align);
                verify(p.cast(), b.size.min(new), b.pat, "after reallocation");
                fill(p.cast(), new, b.pat.wrapping_add(17));
                if ledger {
                    mem += g1.1 - g0.1;
                    same!("ledger-realloc", g1.0, g0.0);
                }
                live.insert(p as usize, Blk { size: new, align: b.align, pat: b.pat.wrapping_add(17) });
                c.ev(new as u64);
            }
            8 | 9 if !live.is_empty() => {
                let k = *live.keys().nth(c.rng.idx(live.len())).unwrap();
                let b = live.remove(&k).unwrap();
                verify(k as *const u8, b.size, b.pat, "before release");
                c.log(|| "free".into());
                let g0 = galloc::live();
                unsafe { a.free(k as *mut ()) };
                let g1 = galloc::live();
                if ledger {
                    same!("ledger-free", g1.0 - g0.0, -1);
                    mem += g1.1 - g0.1;
                }
            }
            10 => {
                let align = 1usize << c.rng.below(8);
                let p = a.alloc(Layout { size: 0, align });
                must!("zero-size", p.is_null(), "a request of size 0 gave {p:p}");
            }
            // (Miri ends the program instead of refusing libc's)
            11 if !(cfg!(miri) && name == "libc") => {
                // requests that cannot be satisfied are refused and leave the block alone
                let align = 1usize << c.rng.below(8);
                let huge = match c.rng.below(if cfg!(miri) { 2 } else { 4 }) {
                    0 => usize::MAX,
                    1 => usize::MAX - c.rng.idx(300),
                    2 => isize::MAX as usize,
                    _ => isize::MAX as usize - c.rng.idx(300),
                };
                if live.is_empty() || c.rng.bool() {
                    let p = a.alloc(Layout { size: huge, align });
                    must!("huge", p.is_null(), "a request of {huge} bytes gave {p:p}");
                } else {
                    let k = *live.keys().nth(c.rng.idx(live.len())).unwrap();
                    let b = &live[&k];
                    let n = if c.rng.chance(1, 3) { 0 } else { huge };
                    let p = unsafe { a.realloc(k as *mut (), Layout { size: b.size, align: b.align }, n) };
                    must!("huge", p.is_null(), "a reallocation to {n} bytes gave {p:p}");
                    verify(k as *const u8, b.size, b.pat, "after a refused reallocation");
                }
                c.ev(huge as u64);
            }
            _ => {}
        }
        if c.rng.chance(1, 4) {
            for (k, b) in &live {
                verify(*k as *const u8, b.size, b.pat, "while live");
            }
        }
    }
    for (k, b) in &live {
        verify(*k as *const u8, b.size, b.pat, "at the end");
        let g0 = galloc::live();
        unsafe { a.free(*k as *mut ()) };
        if ledger {
            mem += galloc::live().1 - g0.1;
        }
    }
    drop(live);
    if ledger {
        same!("ledger-bytes", mem, 0);
        let _ = base;
    }
}
/// Leaks of an allocator that bypasses the global one show in the sanitizer's books.
pub fn bulk_free<A: AllocKind>(c: &mut Case) {
    let Some(b0) = sanitizer_bytes() else {
        c.nontrivial = false;
        return;
    };
    let mut a = A::default();
    let size = 150_000 + c.rng.idx(50_000);
    let align = 1usize << c.rng.below(10);
    let n = 40;
    let ps: Vec<*mut ()> = (0..n).map(|_| a.alloc(Layout { size, align })).collect();
    let b1 = sanitizer_bytes().unwrap();
    must!("bulk-alloc", b1 >= b0 + n * size, "{n} blocks of {size} bytes made the sanitizer's total grow from {b0} to {b1}");
    let ps: Vec<*mut ()> = ps.into_iter().map(|p| if c.rng.bool() { unsafe { a.realloc(p, Layout { size, align }, size * 2) } } else { p }).collect();
    for p in ps {
        unsafe { a.free(p) }
    }
    let b2 = sanitizer_bytes().unwrap();
    must!("bulk-leak", b2 < b0 + 100_000, "after freeing all, {} bytes remain allocated", b2 as i64 - b0 as i64);
    c.ev(size as u64 ^ (align as u64) << 40);
}
/// The allocation helpers behind every container.
pub fn helpers<T: 'static, A: AllocKind>(c: &mut Case) {
    use std::sync::atomic::Ordering::Relaxed;
    monalloc::reset();
    c.hash = crate::mix(c.hash, fnv(core::any::type_name::<(T, A)>().as_bytes()));
    c.log(|| format!("helpers<{},{}>:", core::any::type_name::<T>(), A::NAME));
    let ts = core::mem::size_of::<T>();
    let g0 = galloc::live();
    {
        let mut a = A::default();
        let mut cap = c.rng.idx(20);
        let mut p = match if cap == 1 { AllocPtr::<T, A>::alloc(&mut a) } else { AllocPtr::<T, A>::alloc_array(&mut a, cap) } {
            Some(p) => p,
            None => viol!("helper-refused", "alloc_array({cap}) refused"),
        };
        let mut pat = c.rng.below(256) as u8;
        for _ in 0..1 + c.rng.idx(6) {
            let addr = p.ptr.as_ptr() as usize;
            must!("helper-misaligned", addr % core::mem::align_of::<T>() == 0);
            must!("prefix-misaligned", (unsafe { p.prefix() } as *const _ as usize) % core::mem::align_of::<stabby::alloc::AllocPrefix<A>>() == 0);
            {
                let x = unsafe { p.prefix() };
                same!("prefix", (x.strong.load(Relaxed), x.weak.load(Relaxed), x.capacity.load(Relaxed)), (1, 1, cap));
                must!("prefix-origin", (x.origin.as_ptr() as usize) <= x as *const _ as usize);
                must!("prefix-overlap", x as *const _ as usize + core::mem::size_of_val(x) <= addr);
            }
            fill(p.ptr.as_ptr().cast(), ts * cap, pat);
            let n = c.rng.idx(40);
            c.ev(n as u64);
            match unsafe { p.realloc(&mut a, cap, n) } {
                Some(q) => {
                    verify(q.ptr.as_ptr().cast(), ts * cap.min(n), pat, "after AllocPtr::realloc");
                    p = q;
                    cap = n;
                    pat = pat.wrapping_add(9);
                }
                None => viol!("helper-refused", "realloc({cap} -> {n}) refused"),
            }
            // a size that cannot be represented
            if ts > 0 && c.rng.chance(1, 3) && !(cfg!(miri) && A::NAME == "libc") {
                let n = usize::MAX / ts - c.rng.idx(2);
                must!("helper-huge", unsafe { p.realloc(&mut a, cap, n) }.is_none());
                must!("helper-huge", AllocPtr::<T, A>::alloc_array(&mut a, n).is_none());
            }
        }
        unsafe { p.free(&mut a) };
    }
    monalloc::check_empty("helper-leak");
    if A::NAME == "rust" && !c.want_sample {
        same!("helper-ledger", galloc::live(), g0);
    }
    // layout arithmetic against core's
    for _ in 0..20 {
        let l = Layout { size: c.rng.idx(300), align: 1 << c.rng.below(9) };
        let m = Layout { size: c.rng.idx(300), align: 1 << c.rng.below(9) };
        let cl = core::alloc::Layout::from_size_align(l.size, l.align).unwrap();
        let cm = core::alloc::Layout::from_size_align(m.size, m.align).unwrap();
        let (e, off) = cl.extend(cm).unwrap();
        let _ = off;
        let g = l.concat(m);
        must!("layout-concat", g.size >= off + m.size && g.align >= e.align() && g.size % g.align == 0, "{l:?}.concat({m:?}) = {g:?}");
        same!("layout-concat-size", g.size, e.pad_to_align().size());
        let r = l.realign(m.align);
        same!("layout-realign", (r.size, r.align), (l.size.next_multiple_of(m.align), m.align));
        let mut buf = [0u8; 1024];
        let p = unsafe { buf.as_mut_ptr().add(c.rng.idx(500)) };
        let q = l.next_matching(p);
        same!("next_matching", q as usize, (p as usize).next_multiple_of(l.align));
    }
    let n = c.rng.edgy() as usize;
    let l = Layout::array::<T>(n);
    same!("layout-array", (l.size, l.align), (ts.saturating_mul(n), core::mem::align_of::<T>()));
    monalloc::reset();
}
