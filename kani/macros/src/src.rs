//! Where the values of a harness come from: the solver under Kani, a recorded model in a native replay.
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn u128() -> u128 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(pub static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) });
    fn next<const N: usize>() -> [u8; N] {
        let v = VALS.with(|q| q.borrow_mut().pop_front()).unwrap_or_else(|| vec![0; N]);
        let mut o = [0; N];
        for (a, b) in o.iter_mut().zip(v) {
            *a = b;
        }
        o
    }
    pub fn u8() -> u8 {
        next::<1>()[0]
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(next())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(next())
    }
    pub fn u128() -> u128 {
        u128::from_le_bytes(next())
    }
    pub fn usize() -> usize {
        u64::from_le_bytes(next()) as usize
    }
    pub fn bool() -> bool {
        next::<1>()[0] != 0
    }
    pub fn assume(c: bool) {
        if !c {
            std::process::exit(77)
        }
    }
}
pub use imp::*;

/// `harnesses! { name(unwind) { body } ... }`: Kani proofs, and a table for the native replay.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident($unwind:literal) $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() $body
        )*
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), $name as fn())),*]
        }
    };
}
