//! The sources of ragu_pcd, taken as they are (only crate-level attributes and doc comments go), so that the harness
//! modules are inside the crate and see its private items.
use std::{env, fs, path::Path};
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else {
            println!("cargo:rerun-if-changed={}", p.display());
            let src = fs::read_to_string(&p).unwrap();
            if p.ends_with("src/lib.rs") {
                fs::write(t, crate_root(&src)).unwrap();
            } else {
                fs::write(t, src).unwrap();
            }
        }
    }
}
/// Crate-level attributes cannot come through `include!`; an attribute may span several lines.
fn crate_root(src: &str) -> String {
    let mut o = String::new();
    let mut depth: i32 = 0;
    for l in src.lines() {
        let s = l.trim_start();
        if depth > 0 || s.starts_with("#![") {
            depth += l.matches('[').count() as i32 - l.matches(']').count() as i32;
            continue;
        }
        if s.starts_with("//!") {
            continue;
        }
        o.push_str(l);
        o.push('\n');
    }
    o
}
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("pcd");
    let _ = fs::remove_dir_all(&to);
    println!("cargo:rerun-if-changed=/repo/crates/ragu_pcd/src");
    copy(Path::new("/repo/crates/ragu_pcd/src"), &to);
}
