//! Reference-model interpreters shared by several suites.
#[cfg(feature = "m_vec")]
pub mod vec;
#[cfg(feature = "m_vec")]
pub mod sov;
#[cfg(feature = "m_btree")]
pub mod btree;
#[cfg(feature = "m_sum")]
pub mod sum;
#[cfg(feature = "m_sum")]
#[macro_use]
pub mod payloads;
#[cfg(feature = "m_layout")]
pub mod shapes;
#[cfg(feature = "m_layout")]
pub mod layout;
#[cfg(feature = "m_ptr")]
pub mod ptr;
#[cfg(feature = "m_string")]
pub mod string;
#[cfg(feature = "serde")]
pub mod ser;
#[cfg(feature = "m_rawalloc")]
pub mod rawalloc;
#[cfg(feature = "m_dyn")]
pub mod dynobj;
#[cfg(feature = "m_plug")]
pub mod plug;
use crate::monalloc::MonAlloc;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
/// Allocators the models are instantiated with.
pub trait AllocKind: stabby::alloc::IAlloc + Default + Clone + 'static {
    const NAME: &'static str;
    const MON: bool = false;
}
impl AllocKind for RustAlloc {
    const NAME: &'static str = "rust";
}
impl AllocKind for LibcAlloc {
    const NAME: &'static str = "libc";
}
impl AllocKind for MonAlloc {
    const NAME: &'static str = "mon";
    const MON: bool = true;
}
impl AllocKind for crate::monalloc::FatMon {
    const NAME: &'static str = "fatmon";
    const MON: bool = true;
}
impl AllocKind for crate::monalloc::PlainMon {
    const NAME: &'static str = "plainmon";
    const MON: bool = true;
}
/// What the model run should stress.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// plain histories
    Plain,
    /// callbacks panic now and then: only memory/ownership monitors judge afterwards
    Panics,
    /// the allocator refuses now and then (MonAlloc only)
    Faults,
}
