//! A group to multiply in: the integers modulo a power of two, and scalars that are nothing but their bytes. A
//! multiscalar multiplication is generic in the group, so what it does to the integers it does to every group: the
//! coefficient it gives the j-th base is what comes out when that base is 1 and all others are 0.

pub trait Int: Copy + PartialEq + Eq + core::fmt::Debug + Default + Send + Sync + 'static {
    fn plus(self, o: Self) -> Self;
    fn unit() -> Self;
    fn of_le(b: &[u8]) -> Self;
}
impl Int for u16 {
    fn plus(self, o: Self) -> Self {
        self.wrapping_add(o)
    }
    fn unit() -> Self {
        1
    }
    fn of_le(b: &[u8]) -> Self {
        let mut v = 0;
        let mut i = 0;
        while i < b.len() {
            v |= (b[i] as u16) << (8 * i);
            i += 1;
        }
        v
    }
}
macro_rules! ops {
    ($t:ty, $o:ty, $out:ty, $tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl core::ops::$tr<$o> for $t {
            type Output = $out;
            fn $f(self, other: $o) -> $out {
                let ($a, $b) = (self, other);
                $e
            }
        }
        impl<'r> core::ops::$tr<&'r $o> for $t {
            type Output = $out;
            fn $f(self, other: &'r $o) -> $out {
                let ($a, $b) = (self, *other);
                $e
            }
        }
    };
}
macro_rules! assign {
    ($t:ty, $o:ty, $tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl core::ops::$tr<$o> for $t {
            fn $f(&mut self, other: $o) {
                let ($a, $b) = (*self, other);
                *self = $e;
            }
        }
        impl<'r> core::ops::$tr<&'r $o> for $t {
            fn $f(&mut self, other: &'r $o) {
                let ($a, $b) = (*self, *other);
                *self = $e;
            }
        }
    };
}
macro_rules! sums {
    ($t:ty, $zero:expr, $tr:ident, $f:ident) => {
        impl core::iter::$tr for $t {
            fn $f<I: Iterator<Item = Self>>(_: I) -> Self {
                unimplemented!()
            }
        }
        impl<'a> core::iter::$tr<&'a $t> for $t {
            fn $f<I: Iterator<Item = &'a Self>>(_: I) -> Self {
                unimplemented!()
            }
        }
    };
}
macro_rules! choice {
    ($t:ty) => {
        impl subtle::ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, c: subtle::Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl subtle::ConstantTimeEq for $t {
            fn ct_eq(&self, o: &Self) -> subtle::Choice {
                subtle::Choice::from((self == o) as u8)
            }
        }
    };
}
/// `toy!(module, bytes of a scalar, bits of a scalar, integers)`
macro_rules! toy {
    ($m:ident, $bytes:literal, $bits:literal, $int:ty) => {
        pub mod $m {
            use crate::toy::Int;
            use ff::{Field, PrimeField, WithSmallOrderMulGroup};
            use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
            use group::{Curve, Group};
            use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
            use subtle::{Choice, CtOption};
            pub const BYTES: usize = $bytes;
            pub const BITS: usize = $bits;
            pub type Z = $int;
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
            pub struct S(pub [u8; $bytes]);
            ops!(S, S, S, Add, add, |a, b| unimplemented!());
            ops!(S, S, S, Sub, sub, |a, b| unimplemented!());
            ops!(S, S, S, Mul, mul, |a, b| unimplemented!());
            assign!(S, S, AddAssign, add_assign, |a, b| unimplemented!());
            assign!(S, S, SubAssign, sub_assign, |a, b| unimplemented!());
            assign!(S, S, MulAssign, mul_assign, |a, b| unimplemented!());
            sums!(S, S::default(), Sum, sum);
            sums!(S, S::default(), Product, product);
            choice!(S);
            impl core::ops::Neg for S {
                type Output = S;
                fn neg(self) -> S {
                    unimplemented!()
                }
            }
            impl From<u64> for S {
                fn from(_: u64) -> S {
                    unimplemented!()
                }
            }
            impl Field for S {
                const ZERO: S = S([0; $bytes]);
                const ONE: S = S([0; $bytes]);
                fn random<R: rand_core::Rng + ?Sized>(_: &mut R) -> S {
                    unimplemented!()
                }
                fn square(&self) -> S {
                    unimplemented!()
                }
                fn double(&self) -> S {
                    unimplemented!()
                }
                fn invert(&self) -> CtOption<S> {
                    unimplemented!()
                }
                fn sqrt_ratio(_: &S, _: &S) -> (Choice, S) {
                    unimplemented!()
                }
            }
            impl PrimeField for S {
                type Repr = [u8; $bytes];
                fn from_repr(r: [u8; $bytes]) -> CtOption<S> {
                    CtOption::new(S(r), Choice::from(1))
                }
                fn to_repr(&self) -> [u8; $bytes] {
                    self.0
                }
                fn is_odd(&self) -> Choice {
                    unimplemented!()
                }
                const MODULUS: &'static str = "";
                const NUM_BITS: u32 = $bits;
                const CAPACITY: u32 = $bits - 1;
                const TWO_INV: S = S([0; $bytes]);
                const MULTIPLICATIVE_GENERATOR: S = S([0; $bytes]);
                const S: u32 = 1;
                const ROOT_OF_UNITY: S = S([0; $bytes]);
                const ROOT_OF_UNITY_INV: S = S([0; $bytes]);
                const DELTA: S = S([0; $bytes]);
            }
            impl WithSmallOrderMulGroup<3> for S {
                const ZETA: S = S([0; $bytes]);
            }

            /// A group element, and the same as a base.
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
            pub struct G(pub Z);
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
            pub struct A(pub Z);
            ops!(G, G, G, Add, add, |a, b| G(a.0.plus(b.0)));
            ops!(G, A, G, Add, add, |a, b| G(a.0.plus(b.0)));
            ops!(A, A, G, Add, add, |a, b| G(a.0.plus(b.0)));
            ops!(A, G, G, Add, add, |a, b| G(a.0.plus(b.0)));
            ops!(G, G, G, Sub, sub, |a, b| unimplemented!());
            ops!(G, A, G, Sub, sub, |a, b| unimplemented!());
            ops!(A, A, G, Sub, sub, |a, b| unimplemented!());
            ops!(G, S, G, Mul, mul, |a, b| unimplemented!());
            ops!(A, S, G, Mul, mul, |a, b| unimplemented!());
            assign!(G, G, AddAssign, add_assign, |a, b| G(a.0.plus(b.0)));
            assign!(G, A, AddAssign, add_assign, |a, b| G(a.0.plus(b.0)));
            assign!(G, G, SubAssign, sub_assign, |a, b| unimplemented!());
            assign!(G, A, SubAssign, sub_assign, |a, b| unimplemented!());
            assign!(G, S, MulAssign, mul_assign, |a, b| unimplemented!());
            sums!(G, G::default(), Sum, sum);
            choice!(G);
            choice!(A);
            impl core::ops::Neg for G {
                type Output = G;
                fn neg(self) -> G {
                    unimplemented!()
                }
            }
            impl core::ops::Neg for A {
                type Output = A;
                fn neg(self) -> A {
                    unimplemented!()
                }
            }
            impl From<G> for A {
                fn from(g: G) -> A {
                    A(g.0)
                }
            }
            impl From<A> for G {
                fn from(g: A) -> G {
                    G(g.0)
                }
            }
            impl Group for G {
                type Scalar = S;
                fn random<R: rand_core::Rng + ?Sized>(_: &mut R) -> G {
                    unimplemented!()
                }
                fn identity() -> G {
                    G::default()
                }
                fn generator() -> G {
                    unimplemented!()
                }
                fn is_identity(&self) -> Choice {
                    Choice::from((*self == G::default()) as u8)
                }
                fn double(&self) -> G {
                    G(self.0.plus(self.0))
                }
            }
            impl Curve for G {
                type AffineRepr = A;
                fn to_affine(&self) -> A {
                    A(self.0)
                }
            }
            impl PrimeGroup for G {}
            impl PrimeCurve for G {
                type Affine = A;
            }
            impl PrimeCurveAffine for A {
                type Scalar = S;
                type Curve = G;
                fn identity() -> A {
                    A::default()
                }
                fn generator() -> A {
                    unimplemented!()
                }
                fn is_identity(&self) -> Choice {
                    Choice::from((*self == A::default()) as u8)
                }
                fn to_curve(&self) -> G {
                    G(self.0)
                }
            }
            impl CurveExt for G {
                type ScalarExt = S;
                type Base = S;
                type AffineExt = A;
                const CURVE_ID: &'static str = "";
                fn endo(&self) -> G {
                    unimplemented!()
                }
                fn jacobian_coordinates(&self) -> (S, S, S) {
                    unimplemented!()
                }
                fn hash_to_curve<'a>(_: &'a str) -> Box<dyn Fn(&[u8]) -> G + 'a> {
                    unimplemented!()
                }
                fn is_on_curve(&self) -> Choice {
                    unimplemented!()
                }
                fn a() -> S {
                    unimplemented!()
                }
                fn b() -> S {
                    unimplemented!()
                }
                fn new_jacobian(_: S, _: S, _: S) -> CtOption<G> {
                    unimplemented!()
                }
            }
            impl CurveAffine for A {
                type ScalarExt = S;
                type Base = S;
                type CurveExt = G;
                fn coordinates(&self) -> CtOption<Coordinates<A>> {
                    unimplemented!()
                }
                fn from_xy(_: S, _: S) -> CtOption<A> {
                    unimplemented!()
                }
                fn is_on_curve(&self) -> Choice {
                    unimplemented!()
                }
                fn a() -> S {
                    unimplemented!()
                }
                fn b() -> S {
                    unimplemented!()
                }
            }
            /// With base j the unit and the others zero, what comes out of the multiplication is scalar j.
            pub fn msm<const N: usize, const J: usize>() {
                let mut s = [S([0; BYTES]); N];
                let mut i = 0;
                while i < N {
                    let mut b = 0;
                    while b < BYTES {
                        s[i].0[b] = crate::src::u8();
                        b += 1;
                    }
                    if BITS % 8 != 0 {
                        crate::src::assume(s[i].0[BYTES - 1] >> (BITS % 8) == 0);
                    }
                    i += 1;
                }
                let j: usize = J;
                
                let mut g = [A(Z::default()); N];
                g[j] = A(Z::unit());
                let r: G = ragu_arithmetic::mul::<A, _, _>(s.iter(), g.iter());
                assert!(r.0 == Z::of_le(&s[j].0), "each base is taken as often as its scalar says");
            }
            /// Converting a batch converts each.
            pub fn batch<const N: usize>(x: [Z; N]) {
                let r: [A; N] = ragu_arithmetic::batch_to_affine::<A, N>(x.map(G));
                let mut i = 0;
                while i < N {
                    assert!(r[i].0 == x[i], "in place");
                    i += 1;
                }
            }
        }
    };
}
toy!(short, 2, 9, u16);
