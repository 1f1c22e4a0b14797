//! Multiscalar multiplication, bit reversal.
use crate::harnesses;
use crate::src::*;
use crate::toy::*;

harnesses! {
    msm_none(20) {
        let r: short::G = ragu_arithmetic::mul::<short::A, _, _>([].iter(), [].iter());
        assert!(r.0 == 0, "an empty sum");
    }
    msm_1(12) { short::msm::<1, 0>() }
    msm_2_first(12) { short::msm::<2, 0>() }
    msm_2_second(12) { short::msm::<2, 1>() }
    msm_4_first(9) { short::msm::<4, 0>() }
    msm_4_last(9) { short::msm::<4, 3>() }
    msm_5_middle(9) { short::msm::<5, 2>() }
    batch_affine(10) {
        short::batch::<4>([u32() as u16, u32() as u16, u32() as u16, u32() as u16]);
    }
    bitreverse_bits(40) {
        let (n, l, i) = (u32(), u32(), u32());
        assume(l <= 32 && i < 32);
        let r = ragu_arithmetic::bitreverse(n, l);
        assert!((r >> i) & 1 == if i < l { (n >> (l - 1 - i)) & 1 } else { 0 }, "bit i is bit l-1-i");
    }
}
