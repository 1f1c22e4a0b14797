//! `Maybe`, its two kinds, and `MaybeCast`.
use crate::harnesses;
use crate::maybe::{Always, Empty, Maybe, MaybeCast, MaybeKind, Perhaps};
use crate::src::*;
use core::cell::Cell;

type A = Always<()>;

/// What `f` was given and how often it ran.
struct Log(core::sync::atomic::AtomicU32);
impl Log {
    const fn new() -> Self {
        Log(core::sync::atomic::AtomicU32::new(0))
    }
    fn hit(&self) {
        self.0.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
    }
    fn n(&self) -> u32 {
        self.0.load(core::sync::atomic::Ordering::Relaxed)
    }
}
/// Not `Copy`; counts its clones and its drops.
struct T<'a> {
    v: u64,
    clones: &'a Log,
    drops: &'a Log,
}
impl Clone for T<'_> {
    fn clone(&self) -> Self {
        self.clones.hit();
        T { v: self.v.wrapping_add(1), clones: self.clones, drops: self.drops }
    }
}
impl Drop for T<'_> {
    fn drop(&mut self) {
        self.drops.hit();
    }
}
struct Wide(u64);
impl From<u32> for Wide {
    fn from(x: u32) -> Wide {
        Wide(x as u64 ^ 0xdead_0000_0000)
    }
}
// a distinct type for every position, so that no position can be mistaken for another
#[derive(Clone, Copy, PartialEq)]
struct At<const I: usize>(u16);
fn at<const I: usize>() -> At<I> {
    At(u32() as u16)
}
macro_rules! tuple {
    ($($i:tt $t:ident)*) => {{
        // every element the same type, so that a permutation still type-checks
        let x = ($({ let _ = $i; u32() as u16 },)*);
        let ($($t,)*) = <A as MaybeKind>::maybe_just(|| x).cast();
        assert!(true $(&& $t.take() == x.$i)*, "tuple cast keeps every position");
        let e: ($(Perhaps<Empty, same!($i u16)>,)*) = <Empty as Maybe<($(same!($i u16),)*)>>::cast(Empty);
        assert!(core::mem::size_of_val(&e) == 0, "tuple cast of nothing");
        // and a distinct type per position
        let z = ($(at::<$i>(),)*);
        let ($($t,)*) = <A as MaybeKind>::maybe_just(|| z).cast();
        assert!(true $(&& $t.take() == z.$i)*, "mixed tuple cast keeps every position");
    }};
}
macro_rules! same {
    ($i:tt $t:ty) => { $t };
}
fn array<const N: usize>() {
    let mut x = [0u64; N];
    for v in x.iter_mut() {
        *v = u64();
    }
    let y: [Perhaps<A, u64>; N] = <A as MaybeKind>::maybe_just(|| x).cast();
    let mut i = 0;
    for p in y {
        assert!(p.take() == x[i], "array cast keeps every position");
        i += 1;
    }
    assert!(i == N, "array cast keeps the length");
    let e: [Perhaps<Empty, u64>; N] = <Empty as Maybe<[u64; N]>>::cast(Empty);
    assert!(core::mem::size_of_val(&e) == 0, "array cast of nothing");
}
// the same program over both kinds
fn program<K: MaybeKind>(x: u64, y: u64, fail: bool, ran: &Log) -> Result<Perhaps<K, u64>, u8> {
    let a = K::maybe_just(|| {
        ran.hit();
        x
    });
    let b = K::maybe_try_just(|| {
        ran.hit();
        if fail { Err(7u8) } else { Ok(y) }
    })?;
    let mut c = a.map(|v| v ^ 5);
    c.as_mut().map(|v| *v = v.wrapping_mul(3));
    let s = K::maybe_just(|| *c.snag());
    Ok(c.and_then(|c| b.and_then(|b| s.map(|s| c.wrapping_add(b) ^ s))))
}

harnesses! {
    maybe_always(4) {
        let (x, y, k) = (u64(), u64(), u64());
        let ran = Log::new();
        let v = <Always<u64> as Maybe<u64>>::just(|| { ran.hit(); x });
        assert!(ran.n() == 1 && *v.snag() == x && *v.as_ref().take() == x && v.take() == x, "just");
        let v = A::maybe_just(|| x).map(|g| { ran.hit(); assert!(g == x, "map passes the value"); y });
        assert!(ran.n() == 2 && v.take() == y, "map");
        let v = A::maybe_just(|| x).and_then(|g| { ran.hit(); assert!(g == x, "and_then passes the value"); A::maybe_just(|| g ^ k) });
        assert!(ran.n() == 3 && v.take() == x ^ k, "and_then");
        let mut v = A::maybe_just(|| x);
        *v.as_mut().take() = y;
        assert!(*v.snag() == y && v.take() == y, "as_mut writes through");
        let n = u32();
        let w: Perhaps<A, Wide> = Maybe::into(A::maybe_just(|| n));
        assert!(w.take().0 == n as u64 ^ 0xdead_0000_0000, "into converts");
        assert!(core::mem::size_of::<Always<u64>>() == 8 && core::mem::size_of::<Always<()>>() == 0, "no overhead");
    }
    maybe_always_try(4) {
        let (x, e, fail) = (u64(), u64(), bool());
        let ran = Log::new();
        let f = || { ran.hit(); if fail { Err(e) } else { Ok(x) } };
        match A::maybe_try_just(f) {
            Ok(v) => assert!(!fail && v.take() == x, "try_just value"),
            Err(g) => assert!(fail && g == e, "try_just error"),
        }
        assert!(ran.n() == 1, "try_just runs once");
        match <Always<u8> as Maybe<u8>>::try_just(f) {
            Ok(v) => assert!(!fail && v.take() == x, "try_just value"),
            Err(g) => assert!(fail && g == e, "try_just error"),
        }
        assert!(ran.n() == 2, "try_just runs once");
    }
    maybe_always_owned(4) {
        let (c, d) = (Log::new(), Log::new());
        let x = u64();
        let a = A::maybe_just(|| T { v: x, clones: &c, drops: &d });
        let b = Maybe::clone(&a);
        assert!(c.n() == 1 && d.n() == 0, "clone clones once");
        assert!(a.snag().v == x && b.snag().v == x.wrapping_add(1), "clone is the clone, the original stays");
        let t = a.take();
        assert!(d.n() == 0 && t.v == x, "take moves");
        drop(t);
        assert!(d.n() == 1, "dropped once");
        drop(b);
        assert!(d.n() == 2 && c.n() == 1, "dropped once");
    }
    maybe_empty(4) {
        let ran = Log::new();
        let x = u64();
        let v = <Empty as MaybeKind>::maybe_just(|| { ran.hit(); x });
        let r: Result<Perhaps<Empty, u64>, u8> = <Empty as MaybeKind>::maybe_try_just(|| { ran.hit(); Err::<u64, u8>(3) });
        assert!(r.is_ok(), "nothing to fail");
        let r: Result<Perhaps<Empty, u64>, u8> = <Empty as Maybe<u8>>::try_just(|| { ran.hit(); Err::<u64, u8>(3) });
        assert!(r.is_ok(), "nothing to fail");
        let _: Empty = <Empty as Maybe<u8>>::just(|| { ran.hit(); x });
        let mut w: Empty = Maybe::<u64>::map::<u64, _>(v, |g| { ran.hit(); g });
        let _: Empty = Maybe::<u64>::and_then::<u64, _>(Empty, |g| { ran.hit(); <Empty as MaybeKind>::maybe_just(|| g) });
        let _: Empty = Maybe::<u64>::as_mut(&mut w);
        let _: Empty = Maybe::<u64>::as_ref(&w);
        let _: Empty = <Empty as Maybe<u64>>::clone(&w);
        let _: Empty = <Empty as Maybe<u32>>::into::<u64>(w);
        let _: Empty = <Empty as MaybeKind>::empty::<u64>();
        assert!(ran.n() == 0, "no witness closure runs without a witness");
        assert!(core::mem::size_of::<Empty>() == 0 && core::mem::size_of::<Perhaps<Empty, u64>>() == 0, "no data");
    }
    /// The same program text: with a witness it computes, without one it runs nothing and cannot fail.
    maybe_program(4) {
        let (x, y, fail) = (u64(), u64(), bool());
        let ran = Log::new();
        match program::<A>(x, y, fail, &ran) {
            Ok(v) => {
                let c = (x ^ 5).wrapping_mul(3);
                assert!(!fail && v.take() == c.wrapping_add(y) ^ c, "with a witness");
            }
            Err(e) => assert!(fail && e == 7, "error passes"),
        }
        assert!(ran.n() == 2, "each closure ran once");
        assert!(program::<Empty>(x, y, fail, &ran).is_ok() && ran.n() == 2, "without a witness");
    }
    cast_arrays(34) {
        array::<0>();
        array::<1>();
        array::<2>();
        array::<5>();
        array::<33>();
    }
    cast_tuples_2(4) {
        tuple!(0 t0 1 t1);
        tuple!(0 t0 1 t1 2 t2);
        tuple!(0 t0 1 t1 2 t2 3 t3);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8);
    }
    cast_tuples_10(4) {
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14);
    }
    cast_tuples_16(4) {
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20);
    }
    cast_tuples_22(4) {
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25);
    }
    cast_tuples_27(4) {
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25 26 t26);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25 26 t26 27 t27);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25 26 t26 27 t27 28 t28);
    }
    cast_tuples_30(4) {
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25 26 t26 27 t27 28 t28 29 t29);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25 26 t26 27 t27 28 t28 29 t29 30 t30);
        tuple!(0 t0 1 t1 2 t2 3 t3 4 t4 5 t5 6 t6 7 t7 8 t8 9 t9 10 t10 11 t11 12 t12 13 t13 14 t14 15 t15 16 t16 17 t17 18 t18 19 t19 20 t20 21 t21 22 t22 23 t23 24 t24 25 t25 26 t26 27 t27 28 t28 29 t29 30 t30 31 t31);
    }
}
