//! Kani harnesses over ragu_arithmetic's group and bit utilities.
#![allow(dead_code, unused_imports, unused_variables)]
pub mod src;
#[macro_use]
pub mod toy;
pub mod h_msm;
