//! `Uendo` against a model: a natural number below 2^BITS held as (high, low 128 bits).
use crate::harnesses;
use crate::src::*;
use crate::uendo::Uendo;

const N: usize = Uendo::BITS as usize;
const HI: u32 = Uendo::BITS - 128;
const HIMASK: u64 = (1u64 << HI) - 1;

#[derive(Clone, Copy, PartialEq, Eq)]
struct M {
    hi: u64,
    lo: u128,
}
impl M {
    fn any() -> M {
        let m = M { hi: u64(), lo: u128() };
        assume(m.hi <= HIMASK);
        m
    }
    fn real(self) -> Uendo {
        Uendo::from(self.lo) | (Uendo::from(self.hi) << 128)
    }
    fn bit(self, i: usize) -> bool {
        if i >= N {
            false
        } else if i < 128 {
            (self.lo >> i) & 1 == 1
        } else {
            (self.hi >> (i - 128)) & 1 == 1
        }
    }
    fn shl(self, n: usize) -> M {
        if n >= N {
            M { hi: 0, lo: 0 }
        } else if n >= 128 {
            M { hi: ((self.lo as u64) << (n - 128)) & HIMASK, lo: 0 }
        } else if n == 0 {
            self
        } else {
            let top = self.lo >> (128 - n);
            let hi = if n < 64 { self.hi << n } else { 0 };
            M { hi: (hi | top as u64) & HIMASK, lo: self.lo << n }
        }
    }
    fn shr(self, n: usize) -> M {
        if n >= N {
            M { hi: 0, lo: 0 }
        } else if n >= 128 {
            M { hi: 0, lo: (self.hi >> (n - 128)) as u128 }
        } else if n == 0 {
            self
        } else {
            M { hi: if n < 64 { self.hi >> n } else { 0 }, lo: (self.lo >> n) | ((self.hi as u128) << (128 - n)) }
        }
    }
}
fn bit(x: Uendo, i: usize) -> bool {
    (x >> i) & Uendo::ONE == Uendo::ONE
}
fn same(x: Uendo, m: M) -> bool {
    x == m.real()
}
/// A random source whose words are arbitrary.
struct Any;
impl rand::rand_core::TryRng for Any {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(u32())
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(u64())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        for b in dst {
            *b = u8();
        }
        Ok(())
    }
}
struct Fixed(u64);
impl rand::rand_core::TryRng for Fixed {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.0 as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(self.0)
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        for b in dst {
            *b = self.0 as u8;
        }
        Ok(())
    }
}
fn sample(r: &mut impl rand::Rng) -> Uendo {
    rand::distr::Distribution::<Uendo>::sample(&rand::distr::StandardUniform, r)
}

harnesses! {
    /// The conversions put every bit in its place, and the constants are 0 and 1.
    uendo_from(40) {
        let (v, w, i) = (u128(), u64(), usize());
        assert!(bit(Uendo::from(v), i) == (i < 128 && (v >> (i % 128)) & 1 == 1), "from u128");
        assert!(Uendo::from(w) == Uendo::from(w as u128), "from u64");
        assert!(Uendo::ZERO == Uendo::from(0u64) && Uendo::ONE == Uendo::from(1u64), "constants");
        assert!(Uendo::default() == Uendo::ZERO, "default");
        assert!(Uendo::BITS % 2 == 0 && 130 <= Uendo::BITS && Uendo::BITS <= 160, "width");
    }
    /// Every bit of an arbitrary value reads back, so values are exactly the BITS-bit integers.
    uendo_bits(40) {
        let (m, i) = (M::any(), usize());
        assert!(bit(m.real(), i) == m.bit(i), "bit");
    }
    /// Equality is equality of the integers.
    uendo_eq(40) {
        let (a, b) = (M::any(), M::any());
        assert!((a.real() == b.real()) == (a == b), "eq");
        assert!((a.real() != b.real()) == (a != b), "ne");
    }
    uendo_and_or(40) {
        let (a, b) = (M::any(), M::any());
        assert!(same(a.real() & b.real(), M { hi: a.hi & b.hi, lo: a.lo & b.lo }), "and");
        let or = M { hi: a.hi | b.hi, lo: a.lo | b.lo };
        let (x, y) = (a.real(), b.real());
        assert!(same(x | y, or), "or");
        let mut z = x;
        z |= y;
        assert!(same(z, or), "or_assign");
        let i = usize();
        assert!(bit(a.real() | b.real(), i) == (a.bit(i) || b.bit(i)), "bit of or");
        assert!(bit(a.real() & b.real(), i) == (a.bit(i) && b.bit(i)), "bit of and");
    }
    /// Left shift by every amount, including those past the width: bits move up, and none survives past the width.
    uendo_shl(40) {
        let (m, n) = (M::any(), usize());
        assert!(same(m.real() << n, m.shl(n)), "shl");
    }
    uendo_shl_bits(40) {
        let (m, n) = (M::any(), usize());
        let x = m.real() << n;
        let i = usize();
        assume(i < N);
        assert!(bit(x, i) == (i >= n && m.bit(i - n)), "bit of shl");
    }
    uendo_shl_assign(40) {
        let (m, n) = (M::any(), usize());
        let mut y = m.real();
        y <<= n;
        assert!(y == m.real() << n, "shl_assign");
    }
    uendo_shr(40) {
        let (m, n) = (M::any(), usize());
        let x = m.real() >> n;
        assert!(same(x, m.shr(n)), "shr");
        let i = usize();
        assume(i < N && n < N);
        assert!(bit(x, i) == m.bit(i + n), "bit of shr");
    }
    /// Whatever the random source returns, a sample is a BITS-bit integer (it equals the value of its bits).
    uendo_sample(40) {
        let s = sample(&mut Any);
        let back = ((s >> 64) << 64) | (s & Uendo::from(u64::MAX));
        assert!(s == back, "sample is normalised");
        assert!(sample(&mut Fixed(u64::MAX)) == (M { hi: HIMASK, lo: u128::MAX }).real(), "every bit is random");
        assert!(sample(&mut Fixed(0)) == Uendo::ZERO, "no bit is stuck");
    }
}
