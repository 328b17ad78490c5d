use harness::models::{vec, Mode};
use harness::monalloc::MonAlloc;
use harness::track::*;
use harness::Group;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
harness::sov_model!(u8_rust, u8, stabby::alloc::allocators::RustAlloc);
harness::sov_model!(u64_mon, u64, harness::monalloc::MonAlloc);
harness::sov_model!(tracked_mon, harness::track::Tracked, harness::monalloc::MonAlloc);
harness::sov_model!(wide_libc, harness::track::TrackedWide, stabby::alloc::allocators::LibcAlloc);
harness::sov_model!(box_rust, harness::track::BoxElem, stabby::alloc::allocators::RustAlloc);
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn main() {
    let groups: &[Group] = &[
        ("vec-u8-rust", 2, |c| vec::run::<u8, RustAlloc>(c, Mode::Plain)),
        ("vec-u64-libc", 2, |c| vec::run::<u64, LibcAlloc>(c, Mode::Plain)),
        ("vec-u8x3-mon", 2, |c| vec::run::<[u8; 3], MonAlloc>(c, Mode::Plain)),
        ("vec-tracked-mon", 3, |c| vec::run::<Tracked, MonAlloc>(c, Mode::Plain)),
        ("vec-tracked-rust", 3, |c| vec::run::<Tracked, RustAlloc>(c, Mode::Plain)),
        ("vec-big-rust", 2, |c| vec::run::<TrackedBig, RustAlloc>(c, Mode::Plain)),
        ("vec-align64-mon", 2, |c| vec::run::<TrackedAligned, MonAlloc>(c, Mode::Plain)),
        ("vec-align16-rust", 2, |c| vec::run::<TrackedAligned16, RustAlloc>(c, Mode::Plain)),
        ("vec-zst-rust", 1, |c| vec::run::<Zst, RustAlloc>(c, Mode::Plain)),
        ("vec-unit-mon", 1, |c| vec::run::<(), MonAlloc>(c, Mode::Plain)),
        ("vec-box-rust", 1, |c| vec::run::<BoxElem, RustAlloc>(c, Mode::Plain)),
        ("sov-u8-rust", 1, |c| u8_rust::run(c, Mode::Plain)),
        ("sov-u64-mon", 1, |c| u64_mon::run(c, Mode::Plain)),
        ("sov-tracked-mon", 2, |c| tracked_mon::run(c, Mode::Plain)),
        ("sov-wide-libc", 1, |c| wide_libc::run(c, Mode::Plain)),
        ("sov-box-rust", 2, |c| box_rust::run(c, Mode::Plain)),
        ("bytes-rust", 1, |c| vec::bytes::<RustAlloc>(c, Mode::Plain)),
        ("bytes-mon", 1, |c| vec::bytes::<MonAlloc>(c, Mode::Plain)),
    ];
    harness::run_suite(groups, &[]);
}
