//! Harnesses over `ragu_core`: linear expressions, drivers, routines, wire conversion, gadgets of containers.
#[macro_use]
mod util;
mod core_;
fn main() {
    let mut hs = vec![];
    core_::all(&mut hs);
    symx::main(hs)
}
