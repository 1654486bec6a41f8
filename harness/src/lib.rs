//! Monitors shared by the workloads: instrumented allocator, instrumented elements, scopes,
//! violation recording, deterministic case runner.
//!
//! Only the public API of lokky is used.

pub mod arena;
pub mod cont;
pub mod elem;
pub mod env;
pub mod fam;
pub mod rng;
pub mod run;
pub mod seq;
#[cfg(any(feature = "vecs", feature = "strings"))]
pub mod long;
pub mod shared;
pub mod suites;

pub use arena::*;
pub use elem::*;
pub use env::*;
pub use rng::*;
pub use run::*;

/// Run the closure and tell whether it panicked. The panic payload is dropped.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            Err(m)
        }
    }
}
