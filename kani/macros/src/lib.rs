//! Kani harnesses over the number conversion of `repr256!`; the literal and the token stream are stand-ins.
#![allow(dead_code, unused_imports)]
pub mod src;
mod repr {
    include!(concat!(env!("OUT_DIR"), "/repr.rs"));
}
pub mod h_repr;
