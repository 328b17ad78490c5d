use harness::models::btree::{atomic, map, set, Wide};
use harness::models::Mode::Plain;
use harness::monalloc::MonAlloc;
use harness::track::*;
use harness::Group;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn main() {
    let groups: &[Group] = &[
        ("set-keep-5-rust", 3, |c| set::<(), RustAlloc, false, 5>(c, Plain)),
        ("set-replace-5-mon", 3, |c| set::<(), MonAlloc, true, 5>(c, Plain)),
        ("set-keep-3-mon", 2, |c| set::<Wide, MonAlloc, false, 3>(c, Plain)),
        ("set-replace-7-libc", 2, |c| set::<Wide, LibcAlloc, true, 7>(c, Plain)),
        ("set-replace-9-rust", 1, |c| set::<(), RustAlloc, true, 9>(c, Plain)),
        ("map-tracked-5-rust", 2, |c| map::<Tracked, RustAlloc, 5>(c, Plain)),
        ("map-wide-3-mon", 2, |c| map::<TrackedWide, MonAlloc, 3>(c, Plain)),
        ("map-u8-7-libc", 1, |c| map::<u8, LibcAlloc, 7>(c, Plain)),
        ("map-zst-5-rust", 1, |c| map::<Zst, RustAlloc, 5>(c, Plain)),
        ("map-big-5-mon", 1, |c| map::<TrackedBig, MonAlloc, 5>(c, Plain)),
        ("atomic-keep-5", 1, |c| atomic::<(), false, 5>(c, Plain)),
        ("atomic-replace-3", 1, |c| atomic::<Wide, true, 3>(c, Plain)),
    ];
    harness::run_suite(groups, &[]);
}
