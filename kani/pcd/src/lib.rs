//! Kani harnesses inside `ragu_pcd`.
#![allow(dead_code, unused_imports, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/pcd/lib.rs"));
pub mod src;
pub mod h_index;
