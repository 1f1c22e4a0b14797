//! Small prime fields `Toy<P>`: the same interface as the Pasta fields, so that the generic code of the
//! repository can be instantiated over a field whose every element fits a short bit-vector.
use core::fmt;
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::Rng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Toy<const P: u64>(pub u64);

const fn powm(b: u64, e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    let mut i = 64;
    while i > 0 {
        i -= 1;
        r = r * r % p;
        if (e >> i) & 1 == 1 {
            r = r * b % p;
        }
    }
    r
}
const fn order(b: u64, p: u64) -> u64 {
    let mut k = 1;
    let mut x = b % p;
    while x != 1 {
        x = x * b % p;
        k += 1;
    }
    k
}
const fn generator(p: u64) -> u64 {
    let mut g = 2;
    while g < p {
        if order(g, p) == p - 1 {
            return g;
        }
        g += 1;
    }
    0
}
const fn two_adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
const fn digits(p: u64) -> &'static str {
    match p {
        5 => "0x5",
        7 => "0x7",
        13 => "0xd",
        17 => "0x11",
        19 => "0x13",
        31 => "0x1f",
        37 => "0x25",
        61 => "0x3d",
        73 => "0x49",
        97 => "0x61",
        193 => "0xc1",
        257 => "0x101",
        _ => "?",
    }
}
impl<const P: u64> fmt::Debug for Toy<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> From<u64> for Toy<P> {
    fn from(v: u64) -> Self {
        Toy(v % P)
    }
}
impl<const P: u64> ConstantTimeEq for Toy<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl<const P: u64> ConditionallySelectable for Toy<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) {
            *b
        } else {
            *a
        }
    }
}
pasta_curves::ops_impl!([const P: u64] Toy<P>,
    |a, b| Toy((a.0 + b.0) % P),
    |a, b| Toy((a.0 + P - b.0) % P),
    |a, b| Toy(a.0 * b.0 % P),
    |a| Toy((P - a.0) % P)
);
impl<const P: u64> Toy<P> {
    pub const GEN: u64 = generator(P);
}
impl<const P: u64> Field for Toy<P> {
    const ZERO: Self = Toy(0);
    const ONE: Self = Toy(1 % P);
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        Toy(rng.next_u64() % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Toy(powm(self.0, P - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(n: &Self, d: &Self) -> (Choice, Self) {
        let t = (P - 1) >> two_adicity(P);
        ff::helpers::sqrt_ratio_generic(n, d, &[(t - 1) / 2, 0, 0, 0])
    }
}
impl<const P: u64> PrimeField for Toy<P> {
    type Repr = [u8; 32];
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r[..8].try_into().unwrap());
        let ok = v < P && r[8..].iter().all(|b| *b == 0);
        CtOption::new(Toy(v % P), Choice::from(ok as u8))
    }
    fn to_repr(&self) -> [u8; 32] {
        let mut r = [0u8; 32];
        r[..8].copy_from_slice(&self.0.to_le_bytes());
        r
    }
    fn from_u128(v: u128) -> Self {
        Toy((v % P as u128) as u64)
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = digits(P);
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = 63 - P.leading_zeros();
    const TWO_INV: Self = Toy((P + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = Toy(generator(P));
    const S: u32 = two_adicity(P);
    const ROOT_OF_UNITY: Self = Toy(powm(generator(P), (P - 1) >> two_adicity(P), P));
    const ROOT_OF_UNITY_INV: Self = Toy(powm(powm(generator(P), (P - 1) >> two_adicity(P), P), P - 2, P));
    const DELTA: Self = Toy(powm(generator(P), 1 << two_adicity(P), P));
}
impl<const P: u64> WithSmallOrderMulGroup<3> for Toy<P> {
    /// Only meaningful when 3 divides P - 1.
    const ZETA: Self = Toy(powm(generator(P), (P - 1) / 3, P));
}
impl<const P: u64> FromUniformBytes<64> for Toy<P> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let mut acc = 0u64;
        for x in b.iter().rev() {
            acc = (acc * 256 + *x as u64) % P;
        }
        Toy(acc)
    }
}
