use harness::models::dynobj::*;
use harness::monalloc::{FatMon, MonAlloc};
use harness::Group;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::boxed::Box as SBox;
use stabby::sync::Arc;
#[global_allocator]
static G: harness::galloc::Ledger = harness::galloc::Ledger;
fn main() {
    let groups: &[Group] = &[
        ("box-rust", 2, owned::<SBox<(), RustAlloc>>),
        ("box-mon", 2, owned::<SBox<(), MonAlloc>>),
        ("arc-mon", 3, owned::<Arc<(), MonAlloc>>),
        ("arc-libc", 2, owned::<Arc<(), LibcAlloc>>),
        ("any-box-fatmon", 1, any_only::<SBox<(), FatMon>>),
        ("mixed", 3, mixed),
        ("borrowed-abgm", 1, borrowed::<VABGM>),
        ("borrowed-ba", 1, borrowed::<VBA>),
        ("borrowed-mggs", 1, borrowed::<VMGGS>),
        ("borrowed-any", 1, borrowed::<VBAnyM>),
        ("borrowed-anysync", 1, borrowed::<VAnyGAY>),
    ];
    harness::run_suite(groups, &[]);
}
