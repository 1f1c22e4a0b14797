//! Harnesses over `ragu_macros`.

#[macro_use]
mod util;
mod shapes;
mod tokens;
fn main() {
    let mut hs = vec![];
    shapes::all(&mut hs);
    tokens::all(&mut hs);
    symx::main(hs)
}
