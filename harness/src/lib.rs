//! Shared machinery of all suites: case runner, random source, ownership ledger,
//! monitoring allocator.  See /verif/DESIGN.md.
#![allow(clippy::missing_safety_doc, clippy::new_without_default)]
pub mod conc;
pub mod galloc;
pub mod models;
pub mod monalloc;
pub mod rng;
pub mod runner;
pub mod track;
pub use rng::Rng;
pub use runner::{expect_panic, fnv, mix, run_suite, Case, Group};

/// Reports a violation found by a monitor: `viol!("signature", "format", args..)`.
#[macro_export]
macro_rules! viol {
    ($sig:expr, $($t:tt)*) => {
        $crate::runner::violation($sig, format!($($t)*))
    };
}
/// Checks an equality, reporting a violation with the given signature when it fails.
#[macro_export]
macro_rules! same {
    ($sig:expr, $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        if !(*g == *w) {
            $crate::runner::violation($sig, format!("got {:?}, want {:?} [{}]", g, w, stringify!($got)));
        }
    }};
    ($sig:expr, $got:expr, $want:expr, $($t:tt)+) => {{
        let (g, w) = (&$got, &$want);
        if !(*g == *w) {
            $crate::runner::violation($sig, format!("got {:?}, want {:?} [{}] {}", g, w, stringify!($got), format!($($t)+)));
        }
    }};
}
/// Checks a condition.
#[macro_export]
macro_rules! must {
    ($sig:expr, $c:expr) => {
        if !$c { $crate::runner::violation($sig, format!("{} does not hold", stringify!($c))); }
    };
    ($sig:expr, $c:expr, $($t:tt)+) => {
        if !$c { $crate::runner::violation($sig, format!($($t)+)); }
    };
}
