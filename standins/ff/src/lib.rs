//! Stand-in for `ff` 0.14.0-pre.0 (the real crate comes from a git repository that is not reachable offline).
//! Only trait definitions and provided methods; written from the published documentation of `ff`.
#![no_std]
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub use subtle;
pub use rand_core;

pub trait Field:
    Sized
    + Eq
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + fmt::Debug
    + 'static
    + ConditionallySelectable
    + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Sum
    + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;

    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self;

    fn is_zero(&self) -> Choice {
        self.ct_eq(&Self::ZERO)
    }
    fn is_zero_vartime(&self) -> bool {
        self.is_zero().into()
    }
    #[must_use]
    fn square(&self) -> Self;
    #[must_use]
    fn cube(&self) -> Self {
        self.square() * self
    }
    #[must_use]
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);
    fn sqrt_alt(&self) -> (Choice, Self) {
        Self::sqrt_ratio(self, &Self::ONE)
    }
    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_ratio(self, &Self::ONE);
        CtOption::new(res, is_square)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        self.pow_vartime(exp)
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        let mut started = false;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                if started {
                    res = res.square();
                }
                if ((*e >> i) & 1) == 1 {
                    res = if started { res * self } else { *self };
                    started = true;
                }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;

    fn from_str_vartime(s: &str) -> Option<Self> {
        if s.is_empty() || (s.len() > 1 && s.starts_with('0')) {
            return None;
        }
        let mut res = Self::ZERO;
        let ten = Self::from(10);
        for c in s.chars() {
            res = res * ten + Self::from(u64::from(c.to_digit(10)?));
        }
        Some(res)
    }
    fn from_u128(v: u128) -> Self {
        let lower = v as u64;
        let upper = (v >> 64) as u64;
        let mut tmp = Self::from(upper);
        for _ in 0..64 {
            tmp = tmp.double();
        }
        tmp + Self::from(lower)
    }
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> {
        Self::from_repr(repr).into()
    }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice {
        !self.is_odd()
    }
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

pub trait PrimeFieldBits: PrimeField {}

/// Batch inversion.
pub struct BatchInverter;
impl BatchInverter {
    /// Inverts all non-zero elements; zeros stay. Returns the inverse of the product of the non-zero elements.
    pub fn invert_with_external_scratch<F: Field>(elements: &mut [F], scratch_space: &mut [F]) -> F {
        assert_eq!(elements.len(), scratch_space.len());
        let mut acc = F::ONE;
        for (p, scratch) in elements.iter().zip(scratch_space.iter_mut()) {
            *scratch = acc;
            let skip = p.is_zero();
            acc = F::conditional_select(&(acc * p), &acc, skip);
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for (p, scratch) in elements.iter_mut().zip(scratch_space.iter()).rev() {
            let skip = p.is_zero();
            let tmp = *scratch * acc;
            acc = F::conditional_select(&(acc * *p), &acc, skip);
            *p = F::conditional_select(&tmp, p, skip);
        }
        allinv
    }
    pub fn invert_with_internal_scratch<F: Field, T>(
        elements: &mut [T],
        element: impl Fn(&T) -> &F + Copy,
        _scratch: impl Fn(&mut T) -> &mut F + Copy,
    ) -> F {
        let mut acc = F::ONE;
        for e in elements.iter() {
            acc *= element(e);
        }
        acc
    }
}

impl<F: Field> BatchInvert<F> for [F] {
    fn batch_invert(&mut self) -> F {
        // plain, one at a time
        let mut acc = F::ONE;
        for p in self.iter_mut() {
            let inv = p.invert();
            if bool::from(inv.is_some()) {
                acc *= *p;
                *p = inv.unwrap();
            }
        }
        acc.invert().unwrap()
    }
}
pub trait BatchInvert<F: Field> {
    fn batch_invert(&mut self) -> F;
}

pub mod helpers {
    use super::*;
    /// Tonelli-Shanks square root of num/div; follows ff's sqrt_ratio contract.
    pub fn sqrt_ratio_generic<F: PrimeField>(num: &F, div: &F, t_minus1_over2: &[u64; 4]) -> (Choice, F) {
        // cases of ff: num==0 -> (1,0); div==0 -> (0,0); square -> sqrt; nonsquare -> sqrt(ROOT_OF_UNITY*num/div)
        if num.is_zero_vartime() {
            return (Choice::from(1), F::ZERO);
        }
        if div.is_zero_vartime() {
            return (Choice::from(0), F::ZERO);
        }
        let a = div.invert().unwrap() * num;
        match tonelli(&a, t_minus1_over2) {
            Some(s) => (Choice::from(1), s),
            None => {
                let s = tonelli(&(a * F::ROOT_OF_UNITY), t_minus1_over2).expect("one is a square");
                (Choice::from(0), s)
            }
        }
    }
    /// `e` = (T-1)/2 where p-1 = 2^S T.
    pub fn tonelli<F: PrimeField>(a: &F, e: &[u64; 4]) -> Option<F> {
        let w = a.pow_vartime(e);
        let mut v = F::S;
        let mut x = w * a;
        let mut b = x * w;
        let mut z = F::ROOT_OF_UNITY;
        while b != F::ONE {
            let mut k = 0;
            let mut t = b;
            while t != F::ONE {
                t = t.square();
                k += 1;
                if k >= v {
                    return None;
                }
            }
            for _ in 0..(v - k - 1) {
                z = z.square();
            }
            x *= z;
            z = z.square();
            b *= z;
            v = k;
        }
        if x.square() == *a { Some(x) } else { None }
    }
}
