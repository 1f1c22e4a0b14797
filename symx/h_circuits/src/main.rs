//! Harnesses over `ragu_circuits`.
#[macro_use]
mod util;
mod prog;
mod polys;
mod reg;
mod wiring;
fn main() {
    let mut hs = vec![];
    polys::all(&mut hs);
    reg::all(&mut hs);
    wiring::all(&mut hs);
    symx::main(hs)
}
