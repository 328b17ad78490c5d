use harness::models::Mode::Faults;
use harness::models::{btree, ptr, string, vec};
use harness::monalloc::{FatMon, MonAlloc, PlainMon};
use harness::track::*;
use harness::{expect_panic, galloc, must, same, track, Case, Group};
use stabby::alloc::allocators::RustAlloc;
harness::sov_model!(sov_tracked, harness::track::Tracked, harness::monalloc::MonAlloc);
harness::sov_model!(sov_u16, u16, harness::monalloc::PlainMon);
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
/// The bundled allocator on top of a global allocator that refuses.
fn global_refuses(c: &mut Case) {
    use stabby::vec::Vec as SVec;
    track::reset();
    {
        let mut v: SVec<Tracked, RustAlloc> = SVec::new();
        let mut m: std::vec::Vec<u32> = vec![];
        let steps = c.scale(40, 12);
        for _ in 0..1 + c.rng.idx(steps) {
            let k = c.rng.below(250) as u32;
            let full = v.len() == v.capacity();
            let op = c.rng.below(6);
            c.ev(op);
            c.log(|| format!("{op}"));
            let t = Tracked::make(k);
            m.reserve(4);
            let refuse = c.rng.bool();
            let mut guard = refuse.then(|| galloc::fail_after(0));
            match op {
                0..=2 => {
                    let cap = v.capacity();
                    let r = v.try_push(t);
                    drop(guard.take());
                    match r {
                        Ok(()) => {
                            must!("fault-ignored", !(refuse && full), "push succeeded without memory");
                            m.push(k)
                        }
                        Err(t) => {
                            must!("spurious-failure", refuse && full, "push refused (len {}, capacity {cap})", m.len());
                            same!("given-back", t.key(), k);
                        }
                    }
                }
                3 => {
                    let n = c.rng.idx(20);
                    let fits = v.capacity() - v.len() >= n;
                    let r = v.try_reserve(n).map(|n| n.get());
                    drop(guard.take());
                    same!("reserve", r.is_ok(), fits || !refuse);
                    if r.is_ok() {
                        must!("reserve-room", v.capacity() - v.len() >= n);
                    }
                    drop(t);
                }
                4 => {
                    let r = stabby::boxed::Box::<Tracked, RustAlloc>::try_new_in(t, RustAlloc::new());
                    drop(guard.take());
                    match r {
                        Ok(b) => {
                            must!("fault-ignored", !refuse);
                            same!("box", b.key(), k)
                        }
                        Err((t, _)) => {
                            must!("spurious-failure", refuse);
                            same!("given-back", t.key(), k)
                        }
                    }
                }
                _ => {
                    let r = stabby::sync::Arc::<Tracked, RustAlloc>::try_new_in(t, RustAlloc::new());
                    drop(guard.take());
                    match r {
                        Ok(b) => {
                            must!("fault-ignored", !refuse);
                            same!("arc", b.key(), k)
                        }
                        Err((t, _)) => {
                            must!("spurious-failure", refuse);
                            same!("given-back", t.key(), k)
                        }
                    }
                }
            }
            same!("content", v.iter().map(|t| t.key()).collect::<std::vec::Vec<_>>(), m);
            track::check();
            same!("live", track::live(), m.len());
        }
    }
    track::assert_all_dropped("leak");
}
/// Unrepresentable sizes are failed allocations, whatever the allocator would say.
fn unrepresentable<T: Elem, A: harness::models::AllocKind>(c: &mut Case) {
    if cfg!(miri) && A::NAME == "libc" {
        c.nontrivial = false; // Miri ends the program instead of refusing
        return;
    }
    use stabby::vec::Vec as SVec;
    track::reset();
    harness::monalloc::reset();
    {
        let ts = core::mem::size_of::<T>().max(1);
        let n = match c.rng.below(6) {
            0 => usize::MAX,
            1 => usize::MAX - c.rng.idx(100),
            2 => usize::MAX / ts - c.rng.idx(3),
            3 if ts > 1 => (usize::MAX / ts).wrapping_add(1 + c.rng.idx(3)),
            4 => isize::MAX as usize / ts + 1 + c.rng.idx(8),
            _ => (1 << 63) + c.rng.idx(1000),
        };
        c.ev(n as u64);
        c.log(|| format!("{}: capacity {n}", T::NAME));
        let zst = core::mem::size_of::<T>() == 0;
        let len = c.rng.idx(5);
        let mut v: SVec<T, A> = (0..len).map(|k| T::make(k as u32)).collect();
        let cap = v.capacity();
        if !zst {
            let r = v.try_reserve(n);
            must!("huge-reserve", r.is_err(), "reserving {n} more elements of {ts} bytes succeeded: capacity {}", v.capacity());
            same!("huge-changed", (v.len(), v.capacity()), (len, cap));
            must!("huge-capacity", SVec::<T, A>::try_with_capacity_in(n, A::default()).is_err());
            must!("huge-infallible", expect_panic(|| v.reserve(n)).is_err(), "reserve({n}) did not panic");
            must!("huge-infallible", expect_panic(|| SVec::<T, A>::with_capacity_in(n, A::default())).is_err(), "with_capacity({n}) did not panic");
            same!("huge-changed", (v.len(), v.capacity()), (len, cap));
        }
        for k in 0..len {
            same!("huge-content", v[k].key(), if T::DISTINCT { k as u32 } else { 0 });
        }
        v.push(T::make(7));
        same!("still-usable", v.len(), len + 1);
    }
    track::assert_all_dropped("leak");
    harness::monalloc::check_empty("memory-leak");
}
fn main() {
    let groups: &[Group] = &[
        ("vec-tracked", 3, |c| vec::run::<Tracked, MonAlloc>(c, Faults)),
        ("vec-u8", 2, |c| vec::run::<u8, MonAlloc>(c, Faults)),
        ("vec-plain", 1, |c| vec::run::<TrackedWide, PlainMon>(c, Faults)),
        ("vec-fat", 1, |c| vec::run::<Tracked, FatMon>(c, Faults)),
        ("sov-tracked", 2, |c| sov_tracked::run(c, Faults)),
        ("sov-u16", 1, |c| sov_u16::run(c, Faults)),
        ("ptr-tracked", 3, |c| ptr::run::<Tracked, MonAlloc>(c, Faults)),
        ("ptr-align64", 1, |c| ptr::run::<TrackedAligned, MonAlloc>(c, Faults)),
        ("set", 2, |c| btree::set::<(), MonAlloc, false, 5>(c, Faults)),
        ("set-replace", 1, |c| btree::set::<btree::Wide, MonAlloc, true, 3>(c, Faults)),
        ("map", 2, |c| btree::map::<Tracked, MonAlloc, 5>(c, Faults)),
        ("string", 2, |c| string::run::<MonAlloc>(c, Faults)),
        ("bytes", 2, |c| vec::bytes::<MonAlloc>(c, Faults)),
        ("bytes-fat", 1, |c| vec::bytes::<FatMon>(c, Faults)),
        ("global", 2, global_refuses),
        ("huge-u8-rust", 1, unrepresentable::<u8, RustAlloc>),
        ("huge-big-rust", 1, unrepresentable::<TrackedBig, RustAlloc>),
        ("huge-tracked-mon", 1, unrepresentable::<Tracked, MonAlloc>),
        ("huge-u64-libc", 1, unrepresentable::<u64, stabby::alloc::allocators::LibcAlloc>),
    ];
    harness::run_suite(groups, &[]);
}
