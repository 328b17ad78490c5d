use harness::models::Mode::{Panics, Plain};
use harness::models::{btree, ptr, sum, vec};
use harness::monalloc::MonAlloc;
use harness::track::*;
use harness::Group;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
harness::sov_model!(tracked_mon, harness::track::Tracked, harness::monalloc::MonAlloc);
harness::sov_model!(box_rust, harness::track::BoxElem, stabby::alloc::allocators::RustAlloc);
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn main() {
    let groups: &[Group] = &[
        ("vec-tracked-mon", 2, |c| vec::run::<Tracked, MonAlloc>(c, Plain)),
        ("vec-tracked-mon-panics", 3, |c| vec::run::<Tracked, MonAlloc>(c, Panics)),
        ("vec-wide-rust-panics", 2, |c| vec::run::<TrackedWide, RustAlloc>(c, Panics)),
        ("vec-zst-mon", 1, |c| vec::run::<Zst, MonAlloc>(c, Plain)),
        ("sov-tracked-mon", 1, |c| tracked_mon::run(c, Plain)),
        ("sov-tracked-mon-panics", 2, |c| tracked_mon::run(c, Panics)),
        ("sov-box-rust", 1, |c| box_rust::run(c, Plain)),
        ("ptr-tracked-mon", 3, |c| ptr::run::<Tracked, MonAlloc>(c, Plain)),
        ("ptr-tracked-mon-panics", 2, |c| ptr::run::<Tracked, MonAlloc>(c, Panics)),
        ("ptr-wide-libc", 1, |c| ptr::run::<TrackedWide, LibcAlloc>(c, Plain)),
        ("ptr-box-rust", 1, |c| ptr::run::<BoxElem, RustAlloc>(c, Plain)),
        ("ptr-zst-mon", 1, |c| ptr::run::<Zst, MonAlloc>(c, Plain)),
        ("sum-tracked-tracked", 1, |c| sum::result::<Tracked, Tracked>(c)),
        ("sum-tracked-box", 1, |c| sum::result::<Tracked, BoxElem>(c)),
        ("sum-box-wide", 1, |c| sum::result::<BoxElem, TrackedWide>(c)),
        ("option-tracked", 1, |c| sum::option::<Tracked>(c)),
        ("option-box", 1, |c| sum::option::<BoxElem>(c)),
        ("btree-set", 1, |c| btree::set::<(), MonAlloc, false, 5>(c, Plain)),
        ("btree-set-panics", 2, |c| btree::set::<btree::Wide, MonAlloc, true, 5>(c, Panics)),
        ("btree-map-panics", 1, |c| btree::map::<Tracked, RustAlloc, 3>(c, Panics)),
        ("btree-map", 1, |c| btree::map::<BoxElem, RustAlloc, 5>(c, Plain)),
        ("btree-atomic", 1, |c| btree::atomic::<(), true, 5>(c, Plain)),
    ];
    harness::run_suite(groups, &[]);
}
