//! Unsigned integers of up to 320 bits (a literal of the harness); larger results are an error of the model.
use core::ops::*;
use num_traits::{One, ToPrimitive, Zero};
const N: usize = 5;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BigUint(pub [u64; N]);
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        let mut i = N;
        while i > 0 {
            i -= 1;
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        core::cmp::Ordering::Equal
    }
}
macro_rules! from {
    ($($t:ty)*) => { $(
        impl From<$t> for BigUint {
            fn from(x: $t) -> Self {
                BigUint([x as u64, ((x as u128) >> 64) as u64, 0, 0, 0])
            }
        }
    )* };
}
from!(u8 u16 u32 u64 u128 usize);
impl Zero for BigUint {
    fn zero() -> Self {
        BigUint([0; N])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; N]
    }
}
impl One for BigUint {
    fn one() -> Self {
        BigUint([1, 0, 0, 0, 0])
    }
}
impl ToPrimitive for BigUint {
    fn to_u64(&self) -> Option<u64> {
        (self.0[1..] == [0; N - 1]).then_some(self.0[0])
    }
    fn to_u128(&self) -> Option<u128> {
        (self.0[2..] == [0; N - 2]).then_some(self.0[0] as u128 | (self.0[1] as u128) << 64)
    }
}
impl BigUint {
    pub const ZERO: Self = BigUint([0; N]);
    fn len(&self) -> usize {
        let mut n = N;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    pub fn bits(&self) -> u64 {
        let n = self.len();
        if n == 0 { 0 } else { 64 * n as u64 - self.0[n - 1].leading_zeros() as u64 }
    }
    pub fn bit(&self, i: u64) -> bool {
        i < 64 * N as u64 && self.0[(i / 64) as usize] >> (i % 64) & 1 == 1
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.0[..self.len()].to_vec()
    }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> {
        self.to_u64_digits().into_iter()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
        while v.len() > 1 && v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn shr(&self, k: usize) -> Self {
        let (w, b) = (k / 64, k % 64);
        let mut o = [0; N];
        let mut i = 0;
        while i < N && i + w < N {
            o[i] = self.0[i + w] >> b;
            if b > 0 && i + w + 1 < N {
                o[i] |= self.0[i + w + 1] << (64 - b);
            }
            i += 1;
        }
        BigUint(o)
    }
    fn shl(&self, k: usize) -> Self {
        assert!(self.bits() as usize + k <= 64 * N, "model: integer too large");
        let (w, b) = (k / 64, k % 64);
        let mut o = [0; N];
        let mut i = w;
        while i < N {
            o[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                o[i] |= self.0[i - w - 1] >> (64 - b);
            }
            i += 1;
        }
        BigUint(o)
    }
    fn zip(&self, o: &Self, f: impl Fn(u64, u64) -> u64) -> Self {
        let mut r = [0; N];
        let mut i = 0;
        while i < N {
            r[i] = f(self.0[i], o.0[i]);
            i += 1;
        }
        BigUint(r)
    }
    fn minus(&self, o: &Self) -> Self {
        let mut r = [0; N];
        let mut borrow = false;
        let mut i = 0;
        while i < N {
            let (a, x) = self.0[i].overflowing_sub(o.0[i]);
            let (a, y) = a.overflowing_sub(borrow as u64);
            r[i] = a;
            borrow = x || y;
            i += 1;
        }
        assert!(!borrow, "Cannot subtract b from a because b is larger than a.");
        BigUint(r)
    }
}
macro_rules! bin {
    ($($tr:ident $f:ident $atr:ident $af:ident |$a:ident, $b:ident| $e:expr;)*) => { $(
        impl $tr<&BigUint> for &BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { let ($a, $b) = (self, o); $e } }
        impl $tr<BigUint> for &BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { let ($a, $b) = (self, &o); $e } }
        impl $tr<&BigUint> for BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { let ($a, $b) = (&self, o); $e } }
        impl $tr<BigUint> for BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { let ($a, $b) = (&self, &o); $e } }
        impl $atr<&BigUint> for BigUint { fn $af(&mut self, o: &BigUint) { let r = { let ($a, $b) = (&*self, o); $e }; *self = r; } }
        impl $atr<BigUint> for BigUint { fn $af(&mut self, o: BigUint) { let r = { let ($a, $b) = (&*self, &o); $e }; *self = r; } }
    )* };
}
bin! {
    BitAnd bitand BitAndAssign bitand_assign |a, b| a.zip(b, |x, y| x & y);
    BitOr bitor BitOrAssign bitor_assign |a, b| a.zip(b, |x, y| x | y);
    BitXor bitxor BitXorAssign bitxor_assign |a, b| a.zip(b, |x, y| x ^ y);
    Sub sub SubAssign sub_assign |a, b| a.minus(b);
}
macro_rules! shifts {
    ($($t:ty)*) => { $(
        impl Shr<$t> for BigUint { type Output = BigUint; fn shr(self, k: $t) -> BigUint { BigUint::shr(&self, k as usize) } }
        impl Shr<$t> for &BigUint { type Output = BigUint; fn shr(self, k: $t) -> BigUint { BigUint::shr(self, k as usize) } }
        impl ShrAssign<$t> for BigUint { fn shr_assign(&mut self, k: $t) { *self = BigUint::shr(self, k as usize) } }
        impl Shl<$t> for BigUint { type Output = BigUint; fn shl(self, k: $t) -> BigUint { BigUint::shl(&self, k as usize) } }
        impl Shl<$t> for &BigUint { type Output = BigUint; fn shl(self, k: $t) -> BigUint { BigUint::shl(self, k as usize) } }
        impl ShlAssign<$t> for BigUint { fn shl_assign(&mut self, k: $t) { *self = BigUint::shl(self, k as usize) } }
    )* };
}
shifts!(u8 u32 u64 usize i32);
