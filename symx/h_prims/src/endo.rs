//! `Endoscalar`.
use crate::point::{curve_b, pt, xy, Pt};
use crate::util::*;
use ff::{Field, WithSmallOrderMulGroup};
use ragu_arithmetic::Uendo;
use ragu_primitives::{extract_endoscalar, lift_endoscalar, Endoscalar};

const BITS: usize = Uendo::BITS as usize;
type Es<F, M> = Endoscalar<'static, Rec<F, M>>;

/// Background bit patterns; the harnesses vary a window of bits on top of each.
fn pattern(k: usize, i: usize) -> bool {
    match k {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        3 => i % 3 == 1,
        _ => (0x9e3779b97f4a7c15u64.rotate_left((i * 7) as u32) >> 11) & 1 == 1,
    }
}
fn uendo(bits: &[bool]) -> Uendo {
    let mut u = Uendo::from(0u64);
    for (i, b) in bits.iter().enumerate() {
        if *b {
            u = u | (Uendo::from(1u64) << i);
        }
    }
    u
}
/// Bits: a background pattern with one pair of bits replaced in every possible way.
fn some_bits() -> Vec<bool> {
    let k = choose(5);
    let at = choose(BITS / 2);
    let w = choose(4);
    let mut bits: Vec<bool> = (0..BITS).map(|i| pattern(k, i)).collect();
    bits[2 * at] = w & 1 == 1;
    bits[2 * at + 1] = w & 2 == 2;
    bits
}
fn lift_spec<F: HF>(n: &[F], e: &[F]) -> F {
    // acc = 2 (zeta + 1); acc <- 2 acc + (-1)^n zeta^e
    let z = <F as WithSmallOrderMulGroup<3>>::ZETA;
    let mut acc = z + F::ONE + z + F::ONE;
    for i in 0..n.len() {
        let s = F::ONE - n[i] - n[i];
        let t = F::ONE + e[i] * (z - F::ONE);
        acc = acc + acc + s * t;
    }
    acc
}
struct Fresh<F: HF, M> {
    dr: Rec<F, M>,
    out: Vec<F>,
}
impl<F: HF, M: RecMode> ragu_core::convert::WireMap<F> for Fresh<F, M> {
    type Src = Rec<F, M>;
    type Dst = Rec<F, M>;
    fn convert_wire(&mut self, _: &W<F>) -> Result<W<F>> {
        let w = self.dr.free(&format!("bit{}", self.out.len()));
        self.out.push(w.val);
        Ok(w)
    }
}
/// `Endoscalar::lift` with all 136 bit wires symbolic.
pub fn lift_gadget<F: HF>() {
    let es: Es<F, Empty> = Endoscalar::alloc(&mut Rec::<F, Empty>::new(), Empty).unwrap();
    let mut fresh = Fresh { dr: Rec::<F, Empty>::new(), out: vec![] };
    let es: Es<F, Empty> = es.map(&mut fresh).unwrap();
    let bits = fresh.out;
    check("one wire per bit", bits.len() == BITS);
    let mut dr = fresh.dr;
    let out = es.lift(&mut dr).unwrap();
    let n: Vec<F> = bits.iter().copied().step_by(2).collect();
    let e: Vec<F> = bits.iter().copied().skip(1).step_by(2).collect();
    prove_eq("lift", v(&out), lift_spec(&n, &e));
}
/// `lift_endoscalar` and the honest run of the gadget agree with the specification.
pub fn lift_values<F: HF>() {
    let bits = some_bits();
    let u = uendo(&bits);
    let n: Vec<F> = bits.iter().step_by(2).map(|b| bit(*b)).collect();
    let e: Vec<F> = bits.iter().skip(1).step_by(2).map(|b| bit(*b)).collect();
    let spec = lift_spec(&n, &e);
    prove_eq("lift_endoscalar", lift_endoscalar::<F>(u), spec);
    let mut dr = Rec::<F, Always<()>>::new();
    let es: Es<F, Always<()>> = Endoscalar::alloc(&mut dr, Always::maybe_just(|| u)).unwrap();
    let out = es.lift(&mut dr).unwrap();
    value_matches("lift", &out);
    prove_eq("gadget", v(&out), spec);
    dr.prove_satisfied("lift: satisfied");
}
/// Allocation: bit i of the gadget is bit i of the number.
pub fn alloc_bits<F: HF>() {
    let bits = some_bits();
    let u = uendo(&bits);
    let mut dr = Rec::<F, Always<()>>::new();
    let es: Es<F, Always<()>> = Endoscalar::alloc(&mut dr, Always::maybe_just(|| u)).unwrap();
    dr.prove_satisfied("alloc: satisfied");
    let got: Vec<_> = es.bits().collect();
    check("number of bits", got.len() == BITS);
    for (i, g) in got.iter().enumerate() {
        check("bit value", g.value().take() == bits[i]);
        prove_eq("bit wire", g.wire().val, bit(bits[i]));
    }
}
pub fn alloc_sound<F: HF>() {
    let mut dr = Rec::<F, Empty>::new();
    let es: Es<F, Empty> = Endoscalar::alloc(&mut dr, Empty).unwrap();
    let w: Vec<F> = es.bits().map(|b| b.wire().val).collect();
    check("number of bits", w.len() == BITS);
    dr.implies("every bit is 0 or 1", vec![], Fml::all(w.iter().map(|x| x.is0().or(x.eqf(F::ONE)))));
}
/// `group_scale` performs, for a generic point, the chain prescribed for the bits.
pub fn group_scale<F: HF>() {
    type M = Always<()>;
    generic_position();
    let k = choose(5);
    let at = choose(3);
    let w = choose(16);
    let mut bits: Vec<bool> = (0..BITS).map(|i| pattern(k, i)).collect();
    let base = [0, BITS / 2 - 2, BITS - 4][at];
    for j in 0..4 {
        bits[base + j] = (w >> j) & 1 == 1;
    }
    let u = uendo(&bits);
    let (x, y) = (F::var("x"), F::var("y"));
    let mut d = Rec::<F, M>::new();
    let es: Es<F, M> = Endoscalar::alloc(&mut d, Always::maybe_just(|| u)).unwrap();
    let p: Pt<F, M> = pt(&mut d, x, y);
    let out = es.group_scale(&mut d, &p).expect("generic point");
    // the prescribed chain, from the point operations
    let mut s = Rec::<F, M>::new();
    let p: Pt<F, M> = pt(&mut s, x, y);
    let pe = p.endo(&mut s);
    let mut acc = pe.add_incomplete(&mut s, &p, None);
    if let Ok(a) = acc {
        acc = a.double(&mut s);
    }
    let mut acc = acc.expect("generic point");
    for i in 0..BITS / 2 {
        let n: B<F, M> = Boolean::alloc(&mut s, Always::maybe_just(|| bits[2 * i])).unwrap();
        let e: B<F, M> = Boolean::alloc(&mut s, Always::maybe_just(|| bits[2 * i + 1])).unwrap();
        let q = p.conditional_negate(&mut s, &n).unwrap().conditional_endo(&mut s, &e).unwrap();
        acc = acc.double_and_add_incomplete(&mut s, &q).expect("generic point");
    }
    let _ = curve_b::<F>();
    let (gx, gy) = xy(&out);
    let (sx, sy) = xy(&acc);
    prove_eq("x", gx, sx);
    prove_eq("y", gy, sy);
}
fn squares<F: HF>() -> Vec<F> {
    let p = <F::P as PBase>::TOY.unwrap();
    let mut s: Vec<u64> = (0..p).map(|x| x * x % p).collect();
    s.sort();
    s.dedup();
    s.into_iter().map(F::from).collect()
}
fn is_square<F: HF>(x: F) -> Fml {
    Fml::any(squares::<F>().into_iter().map(|s| x.eqf(s)))
}
/// Extraction: bit i says whether elem + i is a square; honest runs satisfy the circuit.
pub fn extract_complete<F: HF>() {
    type M = Always<()>;
    let mut d = Rec::<F, M>::new();
    let (x, xv) = el(&mut d, "x");
    let es = Endoscalar::extract(&mut d, x).unwrap();
    d.prove_satisfied("extract: satisfied");
    for (i, b) in es.bits().enumerate() {
        let s = is_square(xv + F::from(i as u64));
        prove("bit", s.iff(Fml::B(b.value().take())));
        bvalue_matches("bit", &b);
    }
    // the native function agrees
    let u = extract_endoscalar(xv);
    for (i, b) in es.bits().enumerate() {
        let n = (u >> i) & Uendo::from(1u64) == Uendo::from(1u64);
        check("extract_endoscalar", n == b.value().take());
    }
}
pub fn extract_sound<F: HF>() {
    let mut d = Rec::<F, Empty>::new();
    let (x, xv) = el(&mut d, "x");
    let es = Endoscalar::extract(&mut d, x).unwrap();
    let w: Vec<F> = es.bits().map(|b| b.wire().val).collect();
    check("number of bits", w.len() == BITS);
    let g = <F as ff::PrimeField>::MULTIPLICATIVE_GENERATOR;
    let at = choose(BITS / 8);
    for j in 0..8 {
        let i = at * 8 + j;
        let t = xv + F::from(i as u64);
        let one = w[i].eqf(F::ONE);
        let zero = w[i].is0();
        d.implies(
            "bit",
            vec![],
            one.clone().or(zero.clone()).and(one.implies(is_square(t))).and(zero.implies(is_square(t * g))),
        );
    }
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::{Fp, Fq};
    use symx::{T13, T7};
    h!(hs, "P05", lift_gadget, Fp, "Endoscalar::lift with 136 symbolic bit wires");
    h!(hs, "P05", lift_gadget, Fq, "the same over the other field");
    h!(hs, "P05", lift_values, Fp, "lift_endoscalar and the honest gadget: every value of every bit pair over five background patterns");
    h!(hs, "P05", lift_values, Fq, "the same over the other field", 20000, 1);
    h!(hs, "P05", alloc_bits, Fp, "Endoscalar::alloc and bits(): bit order, over the same bit strings");
    h!(hs, "P05", alloc_sound, T7, "Endoscalar::alloc: adversarial bit wires are 0 or 1 (F_7)");
    h!(hs, "P05", group_scale, Fp, "group_scale at a symbolic generic point, 4-bit windows at the ends and middle over five background patterns");
    h!(hs, "P05", extract_complete, T13, "extract, extract_endoscalar: bit i is the quadratic character of elem + i (F_13)");
    h!(hs, "P05", extract_sound, T7, "extract: adversarial wires (F_7)");
    h!(hs, "P05", extract_sound, T13, "extract: adversarial wires (F_13)", 20000, 1);
    let _ = <Fp as Field>::ONE;
}
