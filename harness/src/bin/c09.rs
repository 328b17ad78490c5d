//! What types claim about their layout, against their actual layout and values.
#![recursion_limit = "512"]
use core::cell::UnsafeCell;
use core::mem::{ManuallyDrop, MaybeUninit};
use core::num::*;
use core::ptr::NonNull;
use core::sync::atomic::*;
use harness::models::layout::*;
use harness::models::payloads::*;
use harness::models::shapes::*;
use harness::track::*;
use harness::{for_shapes, Case, Group};
use stabby::abi::istable::NotPod;
use stabby::abi::StableLike;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::future::{DynFuture, DynFutureUnsync};
use stabby::option::Option as SO;
use stabby::result::Result as SR;
use stabby::str::Str;
use stabby::string::String as SString;
use stabby::{dynptr, vtable};
#[global_allocator]
static LEDGER: harness::galloc::Ledger = harness::galloc::Ledger;
#[stabby::stabby]
pub trait Speak {
    extern "C" fn speak(&self) -> u32;
}
#[stabby::stabby]
pub union Un {
    a: u64,
    b: [u8; 9],
    c: (),
}
#[stabby::stabby]
#[repr(C)]
pub enum CEnum {
    A(u8),
    B(u32),
}
#[stabby::stabby]
#[repr(u16)]
pub enum TagEnum {
    A(u8),
    B(u64),
    C,
}
#[stabby::stabby]
#[repr(C, u8)]
pub enum CTagEnum {
    A(u8, u16),
    B { x: u64, y: u8 },
    C,
}
#[stabby::stabby]
#[repr(stabby)]
pub enum Compact {
    A(u8),
    B(SString),
    C,
    D(u64),
}
#[stabby::stabby]
#[repr(u8)]
pub enum CompactUnits {
    A,
    B,
    C,
    D,
    E,
}
macro_rules! claim {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), claims::<$t> as fn() -> u64)),*] };
}
type Claims = &'static [(&'static str, fn() -> u64)];
fn all(c: &mut Case, list: Claims) {
    for (n, f) in list {
        let v = f();
        c.ev(v);
        c.log(|| n.to_string());
    }
    c.nontrivial = true;
}
const PRIMITIVES: Claims = claim![
    (), bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, core::ffi::c_void, core::cmp::Ordering,
    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize,
    AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicPtr<u8>,
    core::marker::PhantomPinned, core::marker::PhantomData<u64>, core::marker::PhantomData<SString>,
    stabby::abi::num::NonMaxU8, stabby::abi::num::NonMaxU16, stabby::abi::num::NonMaxU32, stabby::abi::num::NonMaxU64, stabby::abi::num::NonMaxUsize, stabby::abi::num::NonMaxU128,
    std::os::fd::OwnedFd, std::os::fd::BorrowedFd<'static>,
    stabby::abi::istable::End,
];
const POINTERS: Claims = claim![
    &'static u8, &'static mut u64, &'static PadTail, *const u8, *mut SString, NonNull<u128>, NonNull<()>,
    core::pin::Pin<&'static u8>, core::pin::Pin<&'static mut u64>, core::pin::Pin<stabby::boxed::Box<u8>>,
    extern "C" fn(), extern "C" fn(u8) -> u8, unsafe extern "C" fn(u8, u64) -> PadMid, extern "C" fn(&'static u8, bool, u64, u8) -> (), extern "C-unwind" fn(u8) -> u8,
    unsafe extern "C-unwind" fn(), extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) -> u8,
    ManuallyDrop<u8>, ManuallyDrop<SString>, ManuallyDrop<PadTail>, ManuallyDrop<bool>, ManuallyDrop<NonZeroU8>,
    MaybeUninit<bool>, MaybeUninit<NonZeroU64>, MaybeUninit<PadMid>, MaybeUninit<SString>, UnsafeCell<bool>, UnsafeCell<NonZeroU64>, UnsafeCell<PadMid>,
    NotPod<u8>, NotPod<NonZeroU16>, NotPod<PadMid>, StableLike<u64, u64>, StableLike<bool, bool>, StableLike<&'static u8, NonZeroUsize>,
    stabby::abi::StableIf<u64, u8>, stabby::abi::StableIf<NonZeroU8, SString>,
];
const ARRAYS: Claims = claim![
    [u8; 0], [u64; 0], [u8; 1], [bool; 1], [NonZeroU8; 1], [PadTail; 1], [u8; 2], [u8; 7], [PadTail; 2], [u64; 16], [u8; 63], [u8; 64], [u16; 65],
    [u8; 100], [u8; 127], [u8; 128], [u128; 33], [PadMid4; 17], [[u8; 3]; 5], [[NonZeroU8; 1]; 1], [SString; 4], [SO<bool>; 1], [SO<u64>; 3],
    stabby::tuple::Tuple1<u8>, stabby::tuple::Tuple2<u8, u64>, stabby::tuple::Tuple2<u64, u8>, stabby::tuple::Tuple3<u8, u16, u32>,
    stabby::tuple::Tuple2<NonZeroU8, core::cmp::Ordering>, stabby::tuple::Tuple2<NonZeroU8, u8>, stabby::tuple::Tuple2<NonZeroU8, NonZeroU8>, stabby::tuple::Tuple2<NonZeroU8, bool>,
    stabby::tuple::Tuple2<(), NonZeroU8>, stabby::tuple::Tuple2<NonZeroU8, ()>, stabby::tuple::Tuple2<u64, [u128; 0]>,
    stabby::tuple::Tuple4<bool, u128, bool, u16>, stabby::tuple::Tuple6<u8, u16, u8, u32, u8, u64>,
    stabby::tuple::Tuple2<u32, NonZeroU32>, stabby::tuple::Tuple2<NonZeroI32, i32>, stabby::tuple::Tuple2<std::os::fd::OwnedFd, u32>, stabby::tuple::Tuple2<std::os::fd::OwnedFd, NonZeroU32>,
];
const CONTAINERS: Claims = claim![
    stabby::vec::Vec<u8>, stabby::vec::Vec<u8, LibcAlloc>, stabby::vec::Vec<SString, RustAlloc>, stabby::vec::Vec<u128>, stabby::vec::Vec<()>,
    stabby::vec::SingleOrVec<u8>, stabby::vec::SingleOrVec<SString>, stabby::vec::SingleOrVec<u128>, stabby::vec::SingleOrVec<u64, LibcAlloc>,
    stabby::boxed::Box<u8>, stabby::boxed::Box<u128, LibcAlloc>, stabby::boxed::BoxedSlice<u8>, stabby::boxed::BoxedSlice<SString, LibcAlloc>, stabby::boxed::BoxedStr,
    stabby::sync::Arc<u8>, stabby::sync::Arc<SString, LibcAlloc>, stabby::sync::Weak<u8>, stabby::sync::ArcSlice<u64>, stabby::sync::WeakSlice<u64>, stabby::sync::ArcStr, stabby::sync::WeakStr,
    SString, stabby::string::String<LibcAlloc>, Str<'static>, stabby::slice::Slice<'static, u8>, stabby::slice::SliceMut<'static, u64>, stabby::str::StrMut<'static>,
    stabby::abi::vtable::VTable<stabby::vtable!(Send), stabby::abi::vtable::VtDrop>,
    stabby::abi::vtable::VtDrop, stabby::abi::vtable::VtSend<stabby::abi::vtable::VtDrop>, stabby::abi::vtable::VtSync<stabby::abi::vtable::VtDrop>,
    dynptr!(stabby::boxed::Box<dyn Speak>), dynptr!(stabby::boxed::Box<dyn Speak + Send + Sync>), dynptr!(stabby::sync::Arc<dyn Send + Sync>), dynptr!(&dyn Speak), dynptr!(&mut dyn Speak),
    DynFuture<'static, u8>, DynFutureUnsync<'static, SString>,
    stabby::time::Duration, stabby::time::SystemTime, stabby::time::Instant,
    LibcAlloc, RustAlloc, Un, CEnum, TagEnum, CTagEnum, Compact, CompactUnits,
    SO<Compact>, SO<CompactUnits>, SO<TagEnum>, SO<CTagEnum>, SO<CEnum>, SO<Un>, SO<stabby::time::Duration>, SO<stabby::time::SystemTime>,
    SO<stabby::vec::Vec<u8>>, SO<stabby::boxed::Box<u8>>, SO<SString>, SO<dynptr!(stabby::boxed::Box<dyn Speak>)>,
    stabby::vec::Vec<SO<dynptr!(&'static dyn Speak)>>,
    stabby::abi::report::TypeReport, stabby::abi::report::FieldReport,
];
type CO<T> = core::option::Option<T>;
type CR<O, E> = core::result::Result<O, E>;
const CORE_SUMS: Claims = claim![
    CO<NonZeroU8>, CO<NonZeroU64>, CO<NonZeroI128>, CO<&'static u8>, CO<stabby::boxed::Box<u8>>, CO<NonNull<u8>>, CO<extern "C" fn(u8) -> u8>,
    CO<stabby::tuple::Tuple2<NonZeroU32, u32>>, CO<stabby::tuple::Tuple2<u32, NonZeroU32>>, CO<[NonZeroU16; 1]>, CO<ManuallyDrop<NonZeroU16>>,
    CO<core::pin::Pin<&'static u8>>, CO<stabby::sync::Arc<u8>>, CO<Str<'static>>, CO<stabby::slice::Slice<'static, u64>>,
    CO<stabby::sync::Weak<u8>>,
    CR<NonZeroU8, ()>, CR<(), NonZeroU8>, CR<&'static u8, ()>, CR<(), &'static u8>, CR<stabby::boxed::Box<u8>, ()>, CR<NonZeroU64, core::marker::PhantomData<u8>>,
    CR<NonZeroU8, [u8; 0]>, CR<[u8; 0], NonZeroU32>, CR<stabby::abi::istable::End, NonZeroU32>, CR<&'static u8, [[u8; 0]; 3]>,
    CR<u8, core::convert::Infallible>, CR<NonZeroU8, core::convert::Infallible>, CR<SString, core::convert::Infallible>,
    SO<CO<NonZeroU8>>, SO<CR<NonZeroU8, ()>>, stabby::tuple::Tuple2<CO<NonZeroU8>, NonZeroU8>,
];
struct Probe<T>(core::marker::PhantomData<T>);
impl<T: stabby::IStable> Probe<T> {
    fn go(&self) -> u64 {
        claims::<T>()
    }
}
trait NotStable {
    /// The type isn't declared stable, hence nothing is claimed about it.
    fn go(&self) -> u64 {
        u64::MAX
    }
}
impl<T> NotStable for Probe<T> {}
macro_rules! probe {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), (|| Probe::<$t>(core::marker::PhantomData).go()) as fn() -> u64)),*] };
}
/// Whether these are stable is up to the library, but what it claims about those that are must be true.
/// An optional may only be declared stable if the compiler has a single way to represent it.
const DOUBTFUL: Claims = probe![
    CR<NonZeroU8, [u64; 0]>, CR<[u64; 0], NonZeroU8>, CR<NonZeroU32, [u16; 0]>, CR<[u128; 0], &'static u8>, CR<&'static u8, [u128; 0]>, CR<[u64; 0], [u64; 0]>,
    CR<u8, ()>, CR<(), u8>, CR<(), ()>, CR<bool, ()>, CR<(), bool>, CR<u8, u8>, CR<NonZeroU8, u8>, CR<NonZeroU8, NonZeroU8>, CR<&'static u8, &'static u8>,
    CR<core::convert::Infallible, u8>, CR<bool, core::convert::Infallible>, CR<NonZeroU8, CO<()>>, CR<NonZeroU16, Small>,
    CO<()>, CO<u8>, CO<bool>, CO<Small>, CO<Signed>, CO<TagEnum>, CO<CEnum>, CO<CTagEnum>, CO<Compact>, CO<Un>, CO<core::cmp::Ordering>, CO<core::ffi::c_void>, CO<AtomicBool>, CO<AtomicU8>,
    CO<std::os::fd::OwnedFd>, CO<std::os::fd::BorrowedFd<'static>>, CO<CO<&'static u8>>, CO<CO<NonZeroU8>>, CO<CR<NonZeroU8, ()>>, CO<SO<NonZeroU8>>, CO<SO<bool>>, CO<SR<u8, u8>>,
    CO<MaybeUninit<NonZeroU8>>, CO<UnsafeCell<NonZeroU8>>, CO<ManuallyDrop<bool>>, CO<NotPod<NonZeroU8>>, CO<core::pin::Pin<&'static mut u8>>,
    CO<[NonZeroU8; 0]>, CO<[NonZeroU8; 1]>, CO<[NonZeroU8; 2]>, CO<[bool; 1]>, CO<[u8; 4]>, CO<f32>, CO<*const u8>,
    CO<stabby::tuple::Tuple1<NonZeroU8>>, CO<stabby::tuple::Tuple2<NonZeroU8, bool>>, CO<stabby::tuple::Tuple2<NonZeroU8, NonZeroU8>>, CO<stabby::tuple::Tuple2<NonZeroU8, Small>>,
    CO<stabby::tuple::Tuple2<core::cmp::Ordering, NonZeroU8>>, CO<stabby::tuple::Tuple2<NonZeroU32, std::os::fd::OwnedFd>>, CO<stabby::tuple::Tuple2<u8, NonZeroU32>>, CO<stabby::tuple::Tuple2<NonZeroU32, u8>>,
    CO<stabby::tuple::Tuple2<NonZeroU8, TagEnum>>, CO<stabby::tuple::Tuple2<NonZeroU8, Compact>>, CO<stabby::tuple::Tuple2<NonZeroU64, SO<NonZeroU64>>>, CO<stabby::tuple::Tuple2<CO<NonZeroU8>, NonZeroU8>>,
    CO<stabby::tuple::Tuple2<SO<bool>, NonZeroU8>>, CO<stabby::tuple::Tuple2<Un, NonZeroU8>>, CO<stabby::tuple::Tuple3<&'static u8, (), [u64; 0]>>,
    CO<SString>, CO<stabby::vec::Vec<u8>>, CO<stabby::vec::SingleOrVec<u8>>, CO<stabby::boxed::BoxedSlice<u8>>, CO<stabby::sync::ArcSlice<u8>>, CO<stabby::boxed::BoxedStr>,
    CO<stabby::sync::Arc<u8, LibcAlloc>>, CO<stabby::sync::Weak<u8>>, CO<dynptr!(stabby::boxed::Box<dyn Speak>)>, CO<dynptr!(&'static dyn Speak)>, CO<DynFuture<'static, u8>>,
    CO<stabby::time::Duration>, CO<stabby::time::SystemTime>, CO<stabby::time::Instant>, CO<stabby::abi::num::NonMaxU8>, CO<stabby::abi::num::NonMaxU64>, CO<stabby::abi::num::NonMaxU128>,
    CO<Q0>, CO<Q7>, CO<Q8>, CO<Q10>, CO<Q13>, CO<Q14>, CO<Q18>, CO<Q23>, CO<NzPad>, CO<PadMid>, CO<RefPad>, CO<NmU8>, CO<Tu2>, CO<BoxU>,
    stabby::collections::arc_btree::AtomicArcBTreeSet<u8, false, 5>, stabby::sync::AtomicArc<u8, RustAlloc>,
    core::time::Duration, char, CO<char>, [u8; 129], (u8, u16), CR<CO<NonZeroU8>, ()>, stabby::abi::StableLike<u64, f64>,
];
fn main() {
    let mut groups: Vec<Group> = vec![
        ("primitives", 1, |c| all(c, PRIMITIVES)),
        ("pointers", 1, |c| all(c, POINTERS)),
        ("arrays", 1, |c| all(c, ARRAYS)),
        ("containers", 1, |c| all(c, CONTAINERS)),
        ("core-sums", 1, |c| all(c, CORE_SUMS)),
        ("doubtful", 1, |c| all(c, DOUBTFUL)),
    ];
    macro_rules! add { ($($t:ty),* $(,)?) => { $(groups.push((stringify!($t), 1, |c| compact::<$t>(c)));)* } }
    for_shapes!(add);
    add!(
        u8, u16, u64, u128, bool, (), core::cmp::Ordering, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI32, NonZeroU64, NonZeroU128, NonZeroUsize, &'static u32, Small, Signed,
        NmU8, NmU16, NmU64, NmU128, Str<'static>, SString, VecU8, VecT, BoxU, BoxT, ArcT, ArcSl, BoxSl, Sl, Tu2, Tu3,
        PadTail, PadMid, PadMid4, PadTwice, PadNest, Flags, FlagWide, Full, Full8, Owner, OwnerBox, Wide, RefPad, NzPad,
        Tracked, TrackedWide, BoxElem, [u8; 3], [u16; 2], [bool; 4], [NonZeroU8; 5], [u32; 1], [u64; 0],
        CO<&'static u32>, CO<NonZeroU16>,
        SO<bool>, SO<SO<bool>>, SO<SO<SO<bool>>>, SO<u8>, SO<SO<u8>>, SO<NonZeroU8>, SO<u64>, SO<PadMid>, SO<SString>, SO<SO<SString>>,
        SR<u8, u8>, SR<u8, u64>, SR<bool, u64>, SR<SString, SString>, SR<u64, PadTail>, SR<PadMid, PadTail>, SR<SO<u8>, SO<bool>>, SR<SR<u8, u16>, u8>, SR<(), ()>, SR<u128, u8>,
    );
    harness::run_suite(&groups, &[])
}
