//! The sources of ragu_pcd, taken as they are (only crate-level attributes and doc comments go), so that the harness
//! modules are inside the crate and see its private items.
use std::{env, fs, path::Path};
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else {
            println!("cargo:rerun-if-changed={}", p.display());
            let src = fs::read_to_string(&p).unwrap();
            if p.ends_with("src/lib.rs") {
                fs::write(t, crate_root(&src)).unwrap();
            } else if p.to_str().unwrap().contains("/src/fuse/") {
                fs::write(t, open_up(&src)).unwrap();
            } else {
                fs::write(t, src).unwrap();
            }
        }
    }
}
/// The proving steps are private to their module: the harnesses call them one by one.
fn open_up(src: &str) -> String {
    let mut o = String::new();
    let mut inherent = false;
    let ls: Vec<&str> = src.lines().collect();
    for (i, l) in ls.iter().enumerate() {
        if l.starts_with("impl") {
            // the header may span several lines
            let n = ls[i..].iter().position(|l| l.trim_end().ends_with('{') || l.trim_end().ends_with("{}")).unwrap_or(0);
            inherent = !ls[i..=i + n].iter().any(|l| format!(" {} ", l.trim()).contains(" for "));
        }
        if l.starts_with('}') {
            inherent = false;
        }
        let l = l.replace("pub(super)", "pub(crate)");
        if inherent && l.starts_with("    fn ") {
            o.push_str(&l.replacen("    fn ", "    pub(crate) fn ", 1));
        } else if l.starts_with("mod ") {
            o.push_str("pub(crate) ");
            o.push_str(&l);
        } else {
            o.push_str(&l);
        }
        o.push('\n');
    }
    o
}
/// Crate-level attributes cannot come through `include!`; an attribute may span several lines.
fn crate_root(src: &str) -> String {
    let mut o = String::new();
    let mut depth: i32 = 0;
    for l in src.lines() {
        let s = l.trim_start();
        if depth > 0 || s.starts_with("#![") {
            depth += l.matches('[').count() as i32 - l.matches(']').count() as i32;
            continue;
        }
        if s.starts_with("//!") {
            continue;
        }
        o.push_str(l);
        o.push('\n');
    }
    o
}
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("pcd");
    let _ = fs::remove_dir_all(&to);
    println!("cargo:rerun-if-changed=/repo/crates/ragu_pcd/src");
    copy(Path::new("/repo/crates/ragu_pcd/src"), &to);
}
