//! The sources of ragu_macros, compiled as an ordinary library: `proc_macro` becomes `proc_macro2`, the attributes that
//! make functions procedural macros go, and parsing goes through `syn::parse2`. Everything else is taken as it is.
use std::{env, fs, path::Path};
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else if p.extension().is_some_and(|x| x == "rs") {
            println!("cargo:rerun-if-changed={}", p.display());
            let mut o = String::new();
            for l in fs::read_to_string(&p).unwrap().lines() {
                let s = l.trim_start();
                if s.starts_with("#[proc_macro") || s.starts_with("#![") || s.starts_with("//!") || s.starts_with("extern crate proc_macro;") {
                    continue;
                }
                let l = words(l);
                o.push_str(&l);
                o.push('\n');
            }
            fs::write(t, o).unwrap();
        }
    }
}
fn words(l: &str) -> String {
    let mut o = String::new();
    let mut w = String::new();
    let b: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i <= b.len() {
        let c = b.get(i).copied();
        if let Some(c) = c.filter(|c| c.is_alphanumeric() || *c == '_') {
            w.push(c);
        } else {
            match w.as_str() {
                "proc_macro" => o.push_str("proc_macro2"),
                "parse_macro_input" if c == Some('!') => o.push_str("crate::parse_or_return"),
                "parse_macro_input" => o.push_str("parse2"),
                x => o.push_str(x),
            }
            w.clear();
            if let Some(c) = c {
                o.push(c);
            }
        }
        i += 1;
    }
    o
}
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("m");
    let _ = fs::remove_dir_all(&to);
    println!("cargo:rerun-if-changed=/repo/crates/ragu_macros/src");
    copy(Path::new("/repo/crates/ragu_macros/src"), &to);
}
