//! Shared machinery of the mdarray runtime monitors: deterministic workload driver, reference
//! model of (views of) multidimensional arrays, instrumented element types, fault injection and a
//! checking allocator. Only public API of mdarray is used.

pub mod alloc;
pub mod chain;
pub mod hist;
pub mod huge;
pub mod model;
pub mod rng;
pub mod run;
pub mod script;
pub mod track;

pub use model::*;
pub use rng::Rng;
pub use run::{caught, panics, Case, Runner};

/// Expands to `main` for a check binary; installs the checking allocator unless the build is
/// instrumented by a sanitizer or interpreter that brings its own.
#[macro_export]
macro_rules! check_main {
    ($prop:expr, $f:path) => {
        #[cfg(not(any(miri, feature = "sysalloc")))]
        #[global_allocator]
        static ALLOC: $crate::alloc::MonAlloc = $crate::alloc::MonAlloc;

        fn main() {
            let mut r = $crate::Runner::new($prop);
            $f(&mut r);
            r.finish();
        }
    };
}
