use harness::models::Mode::Plain;
use harness::models::{btree, ptr, rawalloc, vec, AllocKind};
use harness::monalloc::{FatMon, MonAlloc, PlainMon};
use harness::track::*;
use harness::{galloc, track, Case, Group};
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
harness::sov_model!(sov_mon, harness::track::TrackedWide, harness::monalloc::MonAlloc);
harness::sov_model!(sov_rust, u16, stabby::alloc::allocators::RustAlloc);
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
/// Runs a case, then checks that everything it took from the global allocator came back.
fn ledger(c: &mut Case, f: fn(&mut Case)) {
    let rng = c.rng.clone();
    let g0 = galloc::live();
    f(c);
    track::reset();
    if galloc::live() == g0 {
        return;
    }
    // something was kept: run the same case again; what is lazily created once will not show again
    let mut last = 0;
    for _ in 0..3 {
        let mut k = Case { rng: rng.clone(), idx: c.idx, seed: c.seed, thorough: c.thorough, hash: 0, events: 0, nontrivial: true, want_sample: false, trace: String::new() };
        let g0 = galloc::live();
        f(&mut k);
        track::reset();
        let g1 = galloc::live();
        last = g1.1 - g0.1;
        if last <= 0 {
            return;
        }
    }
    harness::viol!("global-leak", "the same history keeps {last} bytes each time it runs")
}
fn stable_alloc<A: AllocKind>(c: &mut Case) {
    // the allocator behind a trait object
    use stabby::alloc::IStableAlloc;
    let d: stabby::dynptr!(stabby::boxed::Box<dyn IStableAlloc>) = stabby::boxed::Box::new(A::default()).into();
    rawalloc::raw(c, "dyn", d, false);
}
fn main() {
    let groups: &[Group] = &[
        ("raw-rust", 3, |c| rawalloc::raw(c, "rust", RustAlloc::new(), true)),
        ("raw-libc", 2, |c| rawalloc::raw(c, "libc", LibcAlloc::new(), false)),
        ("raw-default-realloc", 1, |c| {
            harness::monalloc::reset();
            rawalloc::raw(c, "plain", PlainMon::default(), false);
            harness::monalloc::check_empty("raw-leak");
        }),
        ("raw-dyn-rust", 1, |c| stable_alloc::<RustAlloc>(c)),
        ("bulk-libc", 1, |c| rawalloc::bulk_free::<LibcAlloc>(c)),
        ("bulk-rust", 1, |c| rawalloc::bulk_free::<RustAlloc>(c)),
        ("helpers-u8-rust", 1, |c| rawalloc::helpers::<u8, RustAlloc>(c)),
        ("helpers-u128-fat", 1, |c| rawalloc::helpers::<u128, FatMon>(c)),
        ("helpers-align64-mon", 1, |c| rawalloc::helpers::<TrackedAligned, MonAlloc>(c)),
        ("helpers-align64-libc", 1, |c| rawalloc::helpers::<TrackedAligned, LibcAlloc>(c)),
        ("helpers-u8x3-plain", 1, |c| rawalloc::helpers::<[u8; 3], PlainMon>(c)),
        ("vec-u8x3-plain", 2, |c| vec::run::<[u8; 3], PlainMon>(c, Plain)),
        ("vec-u128-fat", 2, |c| vec::run::<u128, FatMon>(c, Plain)),
        ("vec-big-mon", 2, |c| vec::run::<TrackedBig, MonAlloc>(c, Plain)),
        ("vec-align64-libc", 2, |c| vec::run::<TrackedAligned, LibcAlloc>(c, Plain)),
        ("vec-align64-rust", 2, |c| ledger(c, |c| vec::run::<TrackedAligned, RustAlloc>(c, Plain))),
        ("vec-u8-rust", 2, |c| ledger(c, |c| vec::run::<u8, RustAlloc>(c, Plain))),
        ("vec-zst-fat", 1, |c| vec::run::<Zst, FatMon>(c, Plain)),
        ("sov-big-mon", 2, |c| sov_mon::run(c, Plain)),
        ("sov-u16-rust", 1, |c| ledger(c, |c| sov_rust::run(c, Plain))),
        ("ptr-align64-mon", 2, |c| ptr::run::<TrackedAligned, MonAlloc>(c, Plain)),
        ("ptr-u8-fat", 2, |c| ptr::run::<u8, FatMon>(c, Plain)),
        ("ptr-big-rust", 2, |c| ledger(c, |c| ptr::run::<TrackedBig, RustAlloc>(c, Plain))),
        ("ptr-align16-libc", 1, |c| ptr::run::<TrackedAligned16, LibcAlloc>(c, Plain)),
        ("ptr-unit-mon", 1, |c| ptr::run::<(), MonAlloc>(c, Plain)),
        ("map-align64-mon", 1, |c| btree::map::<TrackedAligned, MonAlloc, 5>(c, Plain)),
        ("set-wide-fat", 1, |c| btree::set::<btree::Wide, FatMon, true, 3>(c, Plain)),
    ];
    harness::run_suite(groups, &[]);
}
