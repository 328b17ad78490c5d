//! The shared library that the c17 suite loads.
use harness::models::plug::*;
use stabby::boxed::Box as SBox;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::slice::Slice;
use stabby::str::Str;
use stabby::string::String as SString;
use stabby::sync::Arc as SArc;
use stabby::tuple::{Tuple2, Tuple3};
use stabby::vec::Vec as SVec;
macro_rules! export {
    ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(
        #[stabby::export]
        pub extern "C" fn $n($($a: $t),*) -> $r {
            model::$n($($a),*)
        }
    )* };
}
harness::plug_signatures!(export);
// other kinds of functions of the same arguments
#[stabby::export]
pub unsafe extern "C" fn kind_unsafe(a: u32, b: u32) -> u32 {
    a & b
}
#[stabby::export]
pub extern "C-unwind" fn kind_unwind(a: u32, b: u32) -> u32 {
    a | b
}
/// Compared by the loader with its own near-misses of the same name and module.
#[stabby::stabby(module = "shared", version = 3)]
#[derive(Clone, Copy)]
pub struct Config {
    pub a: u32,
    pub b: u16,
    pub c: u16,
}
#[stabby::export]
pub extern "C" fn config(a: Config) -> u32 {
    a.a ^ a.b as u32 ^ (a.c as u32) << 16
}
#[stabby::export]
pub extern "C" fn config_boxed(a: SVec<SBox<Config>>) -> u32 {
    a.iter().map(|a| a.a ^ a.b as u32 ^ (a.c as u32) << 16).fold(0, |a, b| a ^ b)
}
// exported with canaries
#[stabby::export(canaries)]
pub extern "C" fn can_sum(v: &[u8]) -> u64 {
    v.iter().map(|b| *b as u64 * 5).sum()
}
#[stabby::export(canaries)]
pub fn can_join(a: &str, b: Vec<String>) -> String {
    b.join(a)
}
#[stabby::export(canaries)]
pub extern "C" fn can_add(a: u32, b: u32) -> u32 {
    a.wrapping_add(b) ^ 1
}
// exported with neither
#[no_mangle]
pub extern "C" fn bare(a: u32, b: u32) -> u32 {
    a ^ b ^ 2
}
