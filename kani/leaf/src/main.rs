//! Native replay of a model: `leaf_replay HARNESS HEX,HEX,…`; a failing assertion aborts with a nonzero status.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(not(kani))]
    {
        for h in a[2].split(',').filter(|s| !s.is_empty()) {
            let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            leaf::src::VALS.with(|q| q.borrow_mut().push_back(v));
        }
        let mut t = leaf::h_uendo::table();
        t.extend(leaf::h_maybe::table());
        t.extend(leaf::h_err::table());
        let f = t.into_iter().find(|(n, _)| a[1].ends_with(n)).expect("no such harness").1;
        f();
        println!("replay: no assertion failed");
    }
    let _ = a;
}
