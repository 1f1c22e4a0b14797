//! `ragu_pcd` with harnesses inside the crate.
#![allow(dead_code, unused_imports, unused_macros, clippy::all, unexpected_cfgs)]
include!(concat!(env!("OUT_DIR"), "/pcd/lib.rs"));

#[macro_use]
#[path = "util.rs"]
mod hx_util;
#[path = "cycle.rs"]
mod hx_cycle;
#[path = "tr.rs"]
mod hx_tr;
#[path = "hdr.rs"]
mod hx_hdr;
#[path = "ver.rs"]
mod hx_ver;
#[path = "circ.rs"]
mod hx_circ;
#[path = "cv.rs"]
mod hx_cv;
#[path = "e2e.rs"]
mod hx_e2e;
#[path = "endos.rs"]
mod hx_endos;
#[path = "fold.rs"]
mod hx_fold;
fn main() {
    let mut hs = vec![];
    hx_hdr::all(&mut hs);
    hx_circ::all(&mut hs);
    hx_ver::all(&mut hs);
    hx_fold::all(&mut hs);
    hx_e2e::all(&mut hs);
    hx_cv::all(&mut hs);
    hx_endos::all(&mut hs);
    hx_tr::all(&mut hs);
    symx::main(hs)
}
