//! Harnesses over `ragu_primitives`.
mod boolean;
mod elem;
mod endo;
mod point;
mod misc;
mod poseidon;
mod util;
fn main() {
    let mut hs = vec![];
    elem::all(&mut hs);
    boolean::all(&mut hs);
    point::all(&mut hs);
    endo::all(&mut hs);
    poseidon::all(&mut hs);
    misc::all(&mut hs);
    symx::main(hs)
}
