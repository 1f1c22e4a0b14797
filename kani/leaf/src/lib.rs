//! Kani harnesses over the modules of /repo that stand on their own: the 136-bit `Uendo`, `Maybe`, the errors.
#![allow(dead_code, unused_imports)]
extern crate alloc;
pub mod src;

#[path = "/repo/crates/ragu_core/src/errors.rs"]
mod errors;
#[path = "/repo/crates/ragu_core/src/maybe/mod.rs"]
pub mod maybe;
#[path = "/repo/crates/ragu_arithmetic/src/uendo.rs"]
pub mod uendo;
pub use errors::{Error, Result};

pub mod h_err;
pub mod h_maybe;
pub mod h_uendo;
