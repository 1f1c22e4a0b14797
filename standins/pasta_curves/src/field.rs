use core::fmt;
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
const fn sbb(a: u64, b: u64, bw: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + bw as u128);
    (t as u64, ((t >> 64) as u64) & 1)
}
const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let t = a as u128 + (b as u128) * (c as u128) + carry as u128;
    (t as u64, (t >> 64) as u64)
}
type L = [u64; 4];
const fn geq(a: &L, b: &L) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
const fn sub_raw(a: &L, b: &L) -> L {
    let (r0, c) = sbb(a[0], b[0], 0);
    let (r1, c) = sbb(a[1], b[1], c);
    let (r2, c) = sbb(a[2], b[2], c);
    let (r3, _) = sbb(a[3], b[3], c);
    [r0, r1, r2, r3]
}
const fn add_mod(a: &L, b: &L, m: &L) -> L {
    // a, b < m < 2^255: no overflow of 256 bits
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, _) = adc(a[3], b[3], c);
    let r = [r0, r1, r2, r3];
    if geq(&r, m) {
        sub_raw(&r, m)
    } else {
        r
    }
}
const fn sub_mod(a: &L, b: &L, m: &L) -> L {
    if geq(a, b) {
        sub_raw(a, b)
    } else {
        let t = sub_raw(m, b);
        add_mod(a, &t, m)
    }
}
const fn mont_mul(a: &L, b: &L, m: &L, inv: u64) -> L {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut carry = 0;
        let mut j = 0;
        while j < 4 {
            let (v, c) = mac(t[j], a[i], b[j], carry);
            t[j] = v;
            carry = c;
            j += 1;
        }
        let (v, c) = adc(t[4], carry, 0);
        t[4] = v;
        t[5] = c;
        let k = t[0].wrapping_mul(inv);
        let (_, c0) = mac(t[0], k, m[0], 0);
        let mut carry = c0;
        let mut j = 1;
        while j < 4 {
            let (v, c) = mac(t[j], k, m[j], carry);
            t[j - 1] = v;
            carry = c;
            j += 1;
        }
        let (v, c) = adc(t[4], carry, 0);
        t[3] = v;
        t[4] = t[5] + c;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if geq(&r, m) {
        sub_raw(&r, m)
    } else {
        r
    }
}
const fn pow2_mod(k: usize, m: &L) -> L {
    let mut r = [1, 0, 0, 0];
    let mut i = 0;
    while i < k {
        r = add_mod(&r, &r, m);
        i += 1;
    }
    r
}
const fn neg_inv64(m0: u64) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(m0);
        i += 1;
    }
    inv.wrapping_neg()
}
const fn shr(a: &L, k: usize) -> L {
    let mut r = *a;
    let mut i = 0;
    while i < k {
        r = [
            (r[0] >> 1) | (r[1] << 63),
            (r[1] >> 1) | (r[2] << 63),
            (r[2] >> 1) | (r[3] << 63),
            r[3] >> 1,
        ];
        i += 1;
    }
    r
}

macro_rules! field_impl {
    ($name:ident, $m:expr, $mstr:expr, $zeta:expr) => {
        #[derive(Clone, Copy, PartialEq, core::cmp::Eq, Default, Hash)]
        pub struct $name(L);

        impl $name {
            pub const MOD: L = $m;
            const INV: u64 = neg_inv64($m[0]);
            const R: L = pow2_mod(256, &$m);
            const R2: L = pow2_mod(512, &$m);
            /// From little-endian limbs of a canonical integer.
            pub const fn from_raw(v: [u64; 4]) -> Self {
                let mut v = v;
                while geq(&v, &$m) {
                    v = sub_raw(&v, &$m);
                }
                $name(mont_mul(&v, &Self::R2, &$m, Self::INV))
            }
            /// (stand-in only) internal representation
            pub const fn inner(&self) -> [u64; 4] {
                self.0
            }
            /// (stand-in only) inverse of `inner`
            pub const fn from_inner(v: [u64; 4]) -> Self {
                $name(v)
            }
            pub const fn raw(&self) -> [u64; 4] {
                mont_mul(&self.0, &[1, 0, 0, 0], &$m, Self::INV)
            }
            const fn cmul(&self, o: &Self) -> Self {
                $name(mont_mul(&self.0, &o.0, &$m, Self::INV))
            }
            const fn cpow(&self, e: &L) -> Self {
                let mut r = $name(Self::R);
                let mut i = 256;
                while i > 0 {
                    i -= 1;
                    r = r.cmul(&r);
                    if (e[i / 64] >> (i % 64)) & 1 == 1 {
                        r = r.cmul(self);
                    }
                }
                r
            }
            pub const fn neg(&self) -> Self {
                $name(sub_mod(&[0; 4], &self.0, &$m))
            }
            pub fn get_lower_128(&self) -> u128 {
                let r = self.raw();
                r[0] as u128 | ((r[1] as u128) << 64)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let r = self.raw();
                write!(f, "0x{:016x}{:016x}{:016x}{:016x}", r[3], r[2], r[1], r[0])
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::from_raw([v, 0, 0, 0])
            }
        }
        impl From<bool> for $name {
            fn from(v: bool) -> Self {
                Self::from_raw([v as u64, 0, 0, 0])
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                let (a, b) = (self.raw(), o.raw());
                a.iter().rev().cmp(b.iter().rev())
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self.0 == o.0) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        $crate::ops_impl!([] $name,
            |a, b| $name(add_mod(&a.0, &b.0, &$m)),
            |a, b| $name(sub_mod(&a.0, &b.0, &$m)),
            |a, b| a.cmul(b),
            |a| $name(sub_mod(&[0; 4], &a.0, &$m))
        );
        impl Field for $name {
            const ZERO: Self = $name([0; 4]);
            const ONE: Self = $name(Self::R);
            fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                Self::from_uniform_bytes(&b)
            }
            fn square(&self) -> Self {
                self.cmul(self)
            }
            fn double(&self) -> Self {
                *self + *self
            }
            fn invert(&self) -> CtOption<Self> {
                let nz = !self.is_zero();
                CtOption::new(self.cpow(&sub_raw(&$m, &[2, 0, 0, 0])), nz)
            }
            fn sqrt_ratio(n: &Self, d: &Self) -> (Choice, Self) {
                let t = shr(&$m, 32);
                let e = shr(&t, 1);
                ff::helpers::sqrt_ratio_generic(n, d, &e)
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; 32];
            fn from_repr(r: [u8; 32]) -> CtOption<Self> {
                let mut l = [0u64; 4];
                for i in 0..4 {
                    l[i] = u64::from_le_bytes(r[i * 8..i * 8 + 8].try_into().unwrap());
                }
                CtOption::new(Self::from_raw(l), Choice::from(!geq(&l, &$m) as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let l = self.raw();
                let mut r = [0u8; 32];
                for i in 0..4 {
                    r[i * 8..i * 8 + 8].copy_from_slice(&l[i].to_le_bytes());
                }
                r
            }
            fn from_u128(v: u128) -> Self {
                Self::from_raw([v as u64, (v >> 64) as u64, 0, 0])
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.raw()[0] & 1) as u8)
            }
            const MODULUS: &'static str = $mstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = $name::from_raw([2, 0, 0, 0]).cpow(&sub_raw(&$m, &[2, 0, 0, 0]));
            const MULTIPLICATIVE_GENERATOR: Self = $name::from_raw([5, 0, 0, 0]);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = Self::MULTIPLICATIVE_GENERATOR.cpow(&shr(&$m, 32));
            const ROOT_OF_UNITY_INV: Self = Self::ROOT_OF_UNITY.cpow(&sub_raw(&$m, &[2, 0, 0, 0]));
            const DELTA: Self = Self::MULTIPLICATIVE_GENERATOR.cpow(&[1 << 32, 0, 0, 0]);
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = $name::from_raw($zeta);
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let mut l = [0u64; 8];
                for i in 0..8 {
                    l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
                }
                let lo = Self::from_raw([l[0], l[1], l[2], l[3]]);
                let hi = Self::from_raw([l[4], l[5], l[6], l[7]]);
                lo + hi.cmul(&$name(Self::R2))
            }
        }
    };
}

/// Operator boilerplate from four closures over references.
#[macro_export]
macro_rules! ops_impl {
    ([$($g:tt)*] $t:ty, |$a1:ident, $b1:ident| $add:expr, |$a2:ident, $b2:ident| $sub:expr, |$a3:ident, $b3:ident| $mul:expr, |$a4:ident| $neg:expr) => {
        $crate::ops_impl!(@bin [$($g)*] $t, Add, add, AddAssign, add_assign, $a1, $b1, $add);
        $crate::ops_impl!(@bin [$($g)*] $t, Sub, sub, SubAssign, sub_assign, $a2, $b2, $sub);
        $crate::ops_impl!(@bin [$($g)*] $t, Mul, mul, MulAssign, mul_assign, $a3, $b3, $mul);
        impl<$($g)*> core::ops::Neg for $t {
            type Output = $t;
            fn neg(self) -> $t { let $a4 = &self; $neg }
        }
        impl<$($g)*> core::ops::Neg for &$t {
            type Output = $t;
            fn neg(self) -> $t { let $a4 = self; $neg }
        }
        impl<$($g)*> core::iter::Sum for $t {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<$t as ff::Field>::ZERO, |a, b| a + b) }
        }
        impl<'a, $($g)*> core::iter::Sum<&'a $t> for $t {
            fn sum<I: Iterator<Item = &'a $t>>(i: I) -> Self { i.fold(<$t as ff::Field>::ZERO, |a, b| a + b) }
        }
        impl<$($g)*> core::iter::Product for $t {
            fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<$t as ff::Field>::ONE, |a, b| a * b) }
        }
        impl<'a, $($g)*> core::iter::Product<&'a $t> for $t {
            fn product<I: Iterator<Item = &'a $t>>(i: I) -> Self { i.fold(<$t as ff::Field>::ONE, |a, b| a * b) }
        }
    };
    (@bin [$($g:tt)*] $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $a:ident, $b:ident, $e:expr) => {
        impl<$($g)*> core::ops::$tr<$t> for $t {
            type Output = $t;
            #[inline]
            fn $f(self, o: $t) -> $t { let ($a, $b) = (&self, &o); $e }
        }
        impl<'a, $($g)*> core::ops::$tr<&'a $t> for $t {
            type Output = $t;
            #[inline]
            fn $f(self, o: &'a $t) -> $t { let ($a, $b) = (&self, o); $e }
        }
        impl<'a, $($g)*> core::ops::$tr<$t> for &'a $t {
            type Output = $t;
            #[inline]
            fn $f(self, o: $t) -> $t { let ($a, $b) = (self, &o); $e }
        }
        impl<'a, 'b, $($g)*> core::ops::$tr<&'a $t> for &'b $t {
            type Output = $t;
            #[inline]
            fn $f(self, o: &'a $t) -> $t { let ($a, $b) = (self, o); $e }
        }
        impl<$($g)*> core::ops::$tra<$t> for $t {
            #[inline]
            fn $fa(&mut self, o: $t) { let r = { let ($a, $b) = (&*self, &o); $e }; *self = r; }
        }
        impl<'a, $($g)*> core::ops::$tra<&'a $t> for $t {
            #[inline]
            fn $fa(&mut self, o: &'a $t) { let r = { let ($a, $b) = (&*self, o); $e }; *self = r; }
        }
    };
}

field_impl!(
    Fp,
    [0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71]
);
field_impl!(
    Fq,
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e]
);
