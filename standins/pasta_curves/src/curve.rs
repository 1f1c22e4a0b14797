//! Short Weierstrass curves y^2 = x^3 + b over any pair of fields, in Jacobian coordinates.
use crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
use alloc::boxed::Box;
use core::fmt;
use core::iter::Sum;
use core::marker::PhantomData;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, WithSmallOrderMulGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Scal: WithSmallOrderMulGroup<3> + FromUniformBytes<64> {}
impl<T: WithSmallOrderMulGroup<3> + FromUniformBytes<64>> Scal for T {}
pub trait CurveParams: Copy + Clone + fmt::Debug + PartialEq + Eq + Default + Send + Sync + 'static {
    type Base: WithSmallOrderMulGroup<3> + FromUniformBytes<64>;
    type Scalar: WithSmallOrderMulGroup<3> + FromUniformBytes<64>;
    const ID: &'static str;
    fn b() -> Self::Base;
    fn gen() -> (Self::Base, Self::Base);
}

#[derive(Clone, Copy)]
pub struct Proj<P: CurveParams<Scalar = S>, S: Scal> {
    x: P::Base,
    y: P::Base,
    z: P::Base,
    _p: PhantomData<P>,
}
#[derive(Clone, Copy)]
pub struct Aff<P: CurveParams<Scalar = S>, S: Scal> {
    x: P::Base,
    y: P::Base,
    inf: bool,
    _p: PhantomData<P>,
}
impl<P: CurveParams<Scalar = S>, S: Scal> Proj<P, S> {
    fn mk(x: P::Base, y: P::Base, z: P::Base) -> Self {
        Proj { x, y, z, _p: PhantomData }
    }
    fn id() -> Self {
        Self::mk(P::Base::ZERO, P::Base::ZERO, P::Base::ZERO)
    }
    fn is_id(&self) -> bool {
        self.z.is_zero_vartime()
    }
    fn dbl(&self) -> Self {
        if self.is_id() {
            return *self;
        }
        let a = self.x.square();
        let b = self.y.square();
        let c = b.square();
        let d = ((self.x + b).square() - a - c).double();
        let e = a.double() + a;
        let f = e.square();
        let z3 = (self.z * self.y).double();
        let x3 = f - d.double();
        let c8 = c.double().double().double();
        let y3 = e * (d - x3) - c8;
        Self::mk(x3, y3, z3)
    }
    fn padd(&self, o: &Self) -> Self {
        if self.is_id() {
            return *o;
        }
        if o.is_id() {
            return *self;
        }
        let z1z1 = self.z.square();
        let z2z2 = o.z.square();
        let u1 = self.x * z2z2;
        let u2 = o.x * z1z1;
        let s1 = self.y * z2z2 * o.z;
        let s2 = o.y * z1z1 * self.z;
        if u1 == u2 {
            return if s1 == s2 { self.dbl() } else { Self::id() };
        }
        let h = u2 - u1;
        let i = h.double().square();
        let j = h * i;
        let r = (s2 - s1).double();
        let v = u1 * i;
        let x3 = r.square() - j - v.double();
        let y3 = r * (v - x3) - (s1 * j).double();
        let z3 = ((self.z + o.z).square() - z1z1 - z2z2) * h;
        Self::mk(x3, y3, z3)
    }
    fn pmul(&self, s: &S) -> Self {
        let r = s.to_repr();
        let mut acc = Self::id();
        for byte in r.as_ref().iter().rev() {
            for i in (0..8).rev() {
                acc = acc.dbl();
                if (byte >> i) & 1 == 1 {
                    acc = acc.padd(self);
                }
            }
        }
        acc
    }
    fn aff(&self) -> Aff<P, S> {
        if self.is_id() {
            return Aff::id();
        }
        let zi = self.z.invert().unwrap();
        let zi2 = zi.square();
        Aff::mk(self.x * zi2, self.y * zi2 * zi)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Aff<P, S> {
    fn mk(x: P::Base, y: P::Base) -> Self {
        Aff { x, y, inf: false, _p: PhantomData }
    }
    fn id() -> Self {
        Aff { x: P::Base::ZERO, y: P::Base::ZERO, inf: true, _p: PhantomData }
    }
    fn proj(&self) -> Proj<P, S> {
        if self.inf {
            Proj::id()
        } else {
            Proj::mk(self.x, self.y, P::Base::ONE)
        }
    }
    /// (stand-in only) a point whose coordinates are not checked
    pub fn from_xy_unchecked(x: P::Base, y: P::Base) -> Self {
        Self::mk(x, y)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> fmt::Debug for Proj<P, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.aff())
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> fmt::Debug for Aff<P, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.inf {
            write!(f, "Infinity")
        } else {
            write!(f, "({:?}, {:?})", self.x, self.y)
        }
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> PartialEq for Proj<P, S> {
    fn eq(&self, o: &Self) -> bool {
        match (self.is_id(), o.is_id()) {
            (true, true) => true,
            (false, false) => {
                let (a, b) = (self.z.square(), o.z.square());
                self.x * b == o.x * a && self.y * b * o.z == o.y * a * self.z
            }
            _ => false,
        }
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Eq for Proj<P, S> {}
impl<P: CurveParams<Scalar = S>, S: Scal> PartialEq for Aff<P, S> {
    fn eq(&self, o: &Self) -> bool {
        self.inf == o.inf && (self.inf || (self.x == o.x && self.y == o.y))
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Eq for Aff<P, S> {}
impl<P: CurveParams<Scalar = S>, S: Scal> Default for Proj<P, S> {
    fn default() -> Self {
        Self::id()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Default for Aff<P, S> {
    fn default() -> Self {
        Self::id()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> ConstantTimeEq for Proj<P, S> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> ConstantTimeEq for Aff<P, S> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> ConditionallySelectable for Proj<P, S> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> ConditionallySelectable for Aff<P, S> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> From<Aff<P, S>> for Proj<P, S> {
    fn from(a: Aff<P, S>) -> Self {
        a.proj()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> From<Proj<P, S>> for Aff<P, S> {
    fn from(a: Proj<P, S>) -> Self {
        a.aff()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> From<&Proj<P, S>> for Aff<P, S> {
    fn from(a: &Proj<P, S>) -> Self {
        a.aff()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Neg for Proj<P, S> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::mk(self.x, -self.y, self.z)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Neg for Aff<P, S> {
    type Output = Self;
    fn neg(self) -> Self {
        Aff { x: self.x, y: -self.y, inf: self.inf, _p: PhantomData }
    }
}
macro_rules! addsub {
    ($l:ident, $r:ident) => {
        impl<P: CurveParams<Scalar = S>, S: Scal> Add<$r<P, S>> for $l<P, S> {
            type Output = Proj<P, S>;
            fn add(self, o: $r<P, S>) -> Proj<P, S> {
                Proj::from(self).padd(&Proj::from(o))
            }
        }
        impl<'a, P: CurveParams<Scalar = S>, S: Scal> Add<&'a $r<P, S>> for $l<P, S> {
            type Output = Proj<P, S>;
            fn add(self, o: &'a $r<P, S>) -> Proj<P, S> {
                Proj::from(self).padd(&Proj::from(*o))
            }
        }
        impl<P: CurveParams<Scalar = S>, S: Scal> Sub<$r<P, S>> for $l<P, S> {
            type Output = Proj<P, S>;
            fn sub(self, o: $r<P, S>) -> Proj<P, S> {
                Proj::from(self).padd(&Proj::from(-o))
            }
        }
        impl<'a, P: CurveParams<Scalar = S>, S: Scal> Sub<&'a $r<P, S>> for $l<P, S> {
            type Output = Proj<P, S>;
            fn sub(self, o: &'a $r<P, S>) -> Proj<P, S> {
                Proj::from(self).padd(&Proj::from(-*o))
            }
        }
    };
}
addsub!(Proj, Proj);
addsub!(Proj, Aff);
addsub!(Aff, Aff);
addsub!(Aff, Proj);
macro_rules! assign {
    ($r:ident) => {
        impl<P: CurveParams<Scalar = S>, S: Scal> AddAssign<$r<P, S>> for Proj<P, S> {
            fn add_assign(&mut self, o: $r<P, S>) {
                *self = *self + o;
            }
        }
        impl<'a, P: CurveParams<Scalar = S>, S: Scal> AddAssign<&'a $r<P, S>> for Proj<P, S> {
            fn add_assign(&mut self, o: &'a $r<P, S>) {
                *self = *self + *o;
            }
        }
        impl<P: CurveParams<Scalar = S>, S: Scal> SubAssign<$r<P, S>> for Proj<P, S> {
            fn sub_assign(&mut self, o: $r<P, S>) {
                *self = *self - o;
            }
        }
        impl<'a, P: CurveParams<Scalar = S>, S: Scal> SubAssign<&'a $r<P, S>> for Proj<P, S> {
            fn sub_assign(&mut self, o: &'a $r<P, S>) {
                *self = *self - *o;
            }
        }
    };
}
assign!(Proj);
assign!(Aff);
macro_rules! muls {
    ($l:ident) => {
        impl<P: CurveParams<Scalar = S>, S: Scal> Mul<S> for $l<P, S>
        {
            type Output = Proj<P, S>;
            fn mul(self, s: S) -> Proj<P, S> {
                Proj::from(self).pmul(&s)
            }
        }
        impl<'a, P: CurveParams<Scalar = S>, S: Scal> Mul<&'a S> for $l<P, S> {
            type Output = Proj<P, S>;
            fn mul(self, s: &'a S) -> Proj<P, S> {
                Proj::from(self).pmul(s)
            }
        }
    };
}
macro_rules! mulrefs {
    ($l:ident) => {
        impl<'b, P: CurveParams<Scalar = S>, S: Scal> Mul<S> for &'b $l<P, S> {
            type Output = Proj<P, S>;
            fn mul(self, s: S) -> Proj<P, S> {
                Proj::from(*self).pmul(&s)
            }
        }
        impl<'a, 'b, P: CurveParams<Scalar = S>, S: Scal> Mul<&'a S> for &'b $l<P, S> {
            type Output = Proj<P, S>;
            fn mul(self, s: &'a S) -> Proj<P, S> {
                Proj::from(*self).pmul(s)
            }
        }
    };
}
muls!(Proj);
muls!(Aff);
mulrefs!(Proj);
mulrefs!(Aff);
impl<P: CurveParams<Scalar = S>, S: Scal> MulAssign<S> for Proj<P, S> {
    fn mul_assign(&mut self, s: S) {
        *self = self.pmul(&s);
    }
}
impl<'a, P: CurveParams<Scalar = S>, S: Scal> MulAssign<&'a S> for Proj<P, S> {
    fn mul_assign(&mut self, s: &'a S) {
        *self = self.pmul(s);
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Sum for Proj<P, S> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::id(), |a, b| a + b)
    }
}
impl<'a, P: CurveParams<Scalar = S>, S: Scal> Sum<&'a Proj<P, S>> for Proj<P, S> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::id(), |a, b| a + b)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Group for Proj<P, S> {
    type Scalar = S;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        Self::generator() * S::random(rng)
    }
    fn identity() -> Self {
        Self::id()
    }
    fn generator() -> Self {
        let (x, y) = P::gen();
        Self::mk(x, y, P::Base::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.z.is_zero()
    }
    fn double(&self) -> Self {
        self.dbl()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> Curve for Proj<P, S> {
    type AffineRepr = Aff<P, S>;
    fn to_affine(&self) -> Aff<P, S> {
        self.aff()
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> PrimeGroup for Proj<P, S> {}
impl<P: CurveParams<Scalar = S>, S: Scal> PrimeCurve for Proj<P, S> {
    type Affine = Aff<P, S>;
}
impl<P: CurveParams<Scalar = S>, S: Scal> PrimeCurveAffine for Aff<P, S> {
    type Scalar = S;
    type Curve = Proj<P, S>;
    fn identity() -> Self {
        Self::id()
    }
    fn generator() -> Self {
        let (x, y) = P::gen();
        Self::mk(x, y)
    }
    fn is_identity(&self) -> Choice {
        Choice::from(self.inf as u8)
    }
    fn to_curve(&self) -> Proj<P, S> {
        self.proj()
    }
}
fn mix(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ 0x9e3779b97f4a7c15;
    for b in data {
        h = (h ^ (*b as u64)).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
    }
    h
}
impl<P: CurveParams<Scalar = S>, S: Scal> CurveExt for Proj<P, S> {
    type ScalarExt = S;
    type Base = P::Base;
    type AffineExt = Aff<P, S>;
    const CURVE_ID: &'static str = P::ID;
    fn endo(&self) -> Self {
        Self::mk(self.x * P::Base::ZETA, self.y, self.z)
    }
    fn jacobian_coordinates(&self) -> (P::Base, P::Base, P::Base) {
        (self.x, self.y, self.z)
    }
    fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
        Box::new(move |msg| {
            let mut ctr = 0u64;
            loop {
                let mut bytes = [0u8; 64];
                let base = mix(mix(mix(0, domain_prefix.as_bytes()), P::ID.as_bytes()), msg);
                for i in 0..8 {
                    let w = mix(base ^ (ctr << 8) ^ i as u64, &[i as u8]);
                    bytes[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
                }
                let x = P::Base::from_uniform_bytes(&bytes);
                if let Some(y) = Option::<P::Base>::from((x.square() * x + P::b()).sqrt()) {
                    if !y.is_zero_vartime() {
                        return Self::mk(x, y, P::Base::ONE);
                    }
                }
                ctr += 1;
            }
        })
    }
    fn is_on_curve(&self) -> Choice {
        self.aff().is_on_curve()
    }
    fn a() -> P::Base {
        P::Base::ZERO
    }
    fn b() -> P::Base {
        P::b()
    }
    fn new_jacobian(x: P::Base, y: P::Base, z: P::Base) -> CtOption<Self> {
        let p = Self::mk(x, y, z);
        let ok = p.is_on_curve();
        CtOption::new(p, ok)
    }
}
impl<P: CurveParams<Scalar = S>, S: Scal> CurveAffine for Aff<P, S> {
    type ScalarExt = S;
    type Base = P::Base;
    type CurveExt = Proj<P, S>;
    fn coordinates(&self) -> CtOption<Coordinates<Self>> {
        CtOption::new(Coordinates { x: self.x, y: self.y }, Choice::from(!self.inf as u8))
    }
    fn from_xy(x: P::Base, y: P::Base) -> CtOption<Self> {
        let p = Self::mk(x, y);
        let ok = p.is_on_curve();
        CtOption::new(p, ok)
    }
    fn is_on_curve(&self) -> Choice {
        if self.inf {
            return Choice::from(1);
        }
        (self.y.square() - self.x.square() * self.x).ct_eq(&P::b())
    }
    fn a() -> P::Base {
        P::Base::ZERO
    }
    fn b() -> P::Base {
        P::b()
    }
}
