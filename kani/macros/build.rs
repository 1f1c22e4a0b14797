//! `proc/repr.rs` of ragu_macros as it is, with `proc_macro` read as `proc_macro2`.
fn main() {
    let p = "/repo/crates/ragu_macros/src/proc/repr.rs";
    println!("cargo:rerun-if-changed={p}");
    let s = std::fs::read_to_string(p).unwrap().replace("proc_macro::", "proc_macro2::");
    let s: String = s.lines().filter(|l| !l.starts_with("//!")).map(|l| format!("{l}\n")).collect();
    std::fs::write(format!("{}/repr.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
