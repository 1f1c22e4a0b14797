//! Harnesses over `ragu_arithmetic`.

use ragu_arithmetic::{dot, eval, factor, factor_iter, geosum, poly_with_roots, Coeff, Domain, Ring};
use symx::*;

// ------------------------------------------------------------------ coefficients

fn coeff<F: HF>(name: &str) -> (Coeff<F>, F) {
    match choose(6) {
        0 => (Coeff::Zero, F::ZERO),
        1 => (Coeff::One, F::ONE),
        2 => (Coeff::Two, F::ONE + F::ONE),
        3 => (Coeff::NegativeOne, -F::ONE),
        4 => {
            let v = F::var(name);
            (Coeff::Arbitrary(v), v)
        }
        _ => {
            let v = F::var(name);
            (Coeff::NegativeArbitrary(v), -v)
        }
    }
}
fn coeff_ring<F: HF>() {
    let (a, va) = coeff::<F>("a");
    let (b, vb) = coeff::<F>("b");
    prove_eq("value", a.value(), va);
    prove_eq("product", (a * b).value(), va * vb);
    prove_eq("sum", (a + b).value(), va + vb);
    let v = F::var("c");
    prove_eq("from", Coeff::from(v).value(), v);
}
fn coeff_chain<F: HF>() {
    // three-operand expressions: the variant produced by one operation is an operand of the next
    let (a, va) = coeff::<F>("a");
    let (b, vb) = coeff::<F>("b");
    let (c, vc) = coeff::<F>("c");
    prove_eq("(a+b)*c", ((a + b) * c).value(), (va + vb) * vc);
    prove_eq("a*b+c", (a * b + c).value(), va * vb + vc);
    prove_eq("c+a*b", (c + a * b).value(), va * vb + vc);
    prove_eq("a*b*c", (a * b * c).value(), va * vb * vc);
    prove_eq("a+(b+c)", (a + (b + c)).value(), va + vb + vc);
}
fn coeff_zero<F: HF>() {
    let (a, va) = coeff::<F>("a");
    let (b, vb) = coeff::<F>("b");
    let z = a.is_zero();
    prove("is_zero", va.is0().iff(Fml::B(z)));
    let s = a + b;
    let sv = s.value();
    let z = s.is_zero();
    prove("sum is_zero", sv.is0().iff(Fml::B(z)));
    let m = a * b;
    let z = m.is_zero();
    prove("product is_zero", (va * vb).is0().iff(Fml::B(z)));
}

// ------------------------------------------------------------------ evaluation, division, sums

fn naive_eval<F: HF>(c: &[F], x: F) -> F {
    let mut p = F::ONE;
    let mut s = F::ZERO;
    for k in c {
        s += *k * p;
        p *= x;
    }
    s
}
fn eval_dot<F: HF>() {
    let n = choose(9);
    let c: Vec<F> = vars("c", n);
    let d: Vec<F> = vars("d", n);
    let x = F::var("x");
    prove_eq("eval", eval(&c, x), naive_eval(&c, x));
    let mut s = F::ZERO;
    for i in 0..n {
        s += c[i] * d[i];
    }
    prove_eq("dot", dot(&c, &d), s);
}
fn division<F: HF>() {
    let n = 1 + choose(8);
    let q: Vec<F> = vars("q", n);
    let b = F::var("b");
    let x = F::var("x");
    // a = q (X - b): exact
    let mut a = vec![F::ZERO; n + 1];
    for i in 0..n {
        a[i + 1] += q[i];
        a[i] -= b * q[i];
    }
    prove_eqs("exact division", &factor(a.iter().copied(), b), &q);
    let mut it: Vec<F> = factor_iter(a.iter().copied(), b).collect();
    it.reverse();
    prove_eqs("iterator agrees", &it, &q);
    // arbitrary a: a(X) = quotient(X) (X - b) + a(b)
    let a: Vec<F> = vars("a", n + 1);
    let q = factor(a.iter().copied(), b);
    prove("quotient length", Fml::B(q.len() == n));
    prove_eq("division with remainder", eval(&a, x), eval(&q, x) * (x - b) + eval(&a, b));
}
fn geometric<F: HF>() {
    let m = choose(35);
    let r = F::var("r");
    let mut s = F::ZERO;
    let mut p = F::ONE;
    for _ in 0..m {
        s += p;
        p *= r;
    }
    prove_eq("geosum", geosum(r, m), s);
}
fn geometric_big<F: HF>() {
    // (r - 1) * geosum(r, m) = r^m - 1, for lengths around powers of two
    let ms = [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257];
    let m = ms[choose(ms.len())];
    let r = F::var("r");
    prove_eq("telescoped", (r - F::ONE) * geosum(r, m), r.pow_vartime([m as u64]) - F::ONE);
}
fn roots<F: HF>() {
    let n = choose(6);
    let r: Vec<F> = vars("r", n);
    let x = F::var("x");
    let p = poly_with_roots(&r);
    prove("degree", Fml::B(p.len() == n + 1));
    prove_eq("monic", *p.last().unwrap(), F::ONE);
    let mut e = vec![F::ONE];
    for a in &r {
        let mut t = vec![F::ZERO; e.len() + 1];
        for (i, c) in e.iter().enumerate() {
            t[i + 1] += *c;
            t[i] -= *c * *a;
        }
        e = t;
    }
    prove_eqs("coefficients", &p, &e);
    let _ = x;
}
fn roots_repeated<F: HF>() {
    // more roots, drawn from two symbolic values and constants: multiplicities
    let n = 6 + choose(8);
    let a = F::var("a");
    let b = F::var("b");
    let pool = [a, F::ONE, b, a, F::ZERO, -F::ONE, b, a, F::from(3), F::ZERO, a, b, F::from(5)];
    let r = &pool[..n];
    let p = poly_with_roots(r);
    let mut e = vec![F::ONE];
    for a in r {
        let mut t = vec![F::ZERO; e.len() + 1];
        for (i, c) in e.iter().enumerate() {
            t[i + 1] += *c;
            t[i] -= *c * *a;
        }
        e = t;
    }
    prove_eqs("coefficients", &p, &e);
}

// ------------------------------------------------------------------ evaluation domains

/// `F::S` for the Pasta fields is 32; sizes are stated.
fn domain_consts<F: HF>() {
    let k = choose(F::S.min(12) as usize + 1) as u32;
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    check("size", d.n() == n && d.log2_n() == k);
    let w = d.omega();
    check("order divides n", w.pow_vartime([n as u64]) == F::ONE);
    check("primitive", k == 0 || w.pow_vartime([n as u64 / 2]) == -F::ONE);
}
fn dft<F: HF>() {
    let k = choose(F::S.min(5) as usize + 1) as u32;
    let d = Domain::<F>::new(k);
    let n = d.n();
    let a: Vec<F> = vars("a", n);
    let mut e = a.clone();
    d.fft(&mut e);
    let mut spec = vec![];
    let mut x = F::ONE;
    for _ in 0..n {
        spec.push(naive_eval(&a, x));
        x *= d.omega();
    }
    prove_eqs("fft is evaluation on the domain", &e, &spec);
    d.ifft(&mut e);
    prove_eqs("ifft inverts fft", &e, &a);
    let mut e = a.clone();
    d.ifft(&mut e);
    d.fft(&mut e);
    prove_eqs("fft inverts ifft", &e, &a);
}
fn dft_linear<F: HF>() {
    // larger sizes: input c_j * s with one symbolic scalar per half
    let k = 6 + choose(3) as u32;
    let d = Domain::<F>::new(k);
    let n = d.n();
    let s = F::var("s");
    let t = F::var("t");
    let a: Vec<F> = (0..n)
        .map(|i| {
            let c = F::from((i * i * 31 + 7 * i + 3) as u64);
            if (i * 5 / 3) % 2 == 0 { c * s } else { c * t + F::from(i as u64) }
        })
        .collect();
    let mut e = a.clone();
    d.fft(&mut e);
    let mut x = F::ONE;
    for i in 0..n {
        prove_eq("fft is evaluation on the domain", e[i], naive_eval(&a, x));
        x *= d.omega();
    }
    d.ifft(&mut e);
    prove_eqs("ifft inverts fft", &e, &a);
}
/// A ring over F that is not F: pairs.
struct PairRing<F>(core::marker::PhantomData<F>);
impl<F: HF> Ring for PairRing<F> {
    type R = (F, Vec<F>);
    type F = F;
    fn scale_assign(r: &mut Self::R, by: F) {
        r.0 *= by;
        r.1.iter_mut().for_each(|x| *x *= by);
    }
    fn add_assign(r: &mut Self::R, o: &Self::R) {
        r.0 += o.0;
        r.1.iter_mut().zip(&o.1).for_each(|(x, y)| *x += *y);
    }
    fn sub_assign(r: &mut Self::R, o: &Self::R) {
        r.0 -= o.0;
        r.1.iter_mut().zip(&o.1).for_each(|(x, y)| *x -= *y);
    }
}
fn dft_ring<F: HF>() {
    let k = choose(F::S.min(4) as usize + 1) as u32;
    let d = Domain::<F>::new(k);
    let n = d.n();
    let a: Vec<F> = vars("a", n);
    let b: Vec<F> = vars("b", n);
    let mut r: Vec<(F, Vec<F>)> = (0..n).map(|i| (a[i], vec![b[i], a[n - 1 - i]])).collect();
    d.ring_fft::<PairRing<F>>(&mut r);
    let mut x = F::ONE;
    let rev: Vec<F> = a.iter().rev().copied().collect();
    for i in 0..n {
        prove_eq("first", r[i].0, naive_eval(&a, x));
        prove_eq("second", r[i].1[0], naive_eval(&b, x));
        prove_eq("third", r[i].1[1], naive_eval(&rev, x));
        x *= d.omega();
    }
    d.ring_ifft::<PairRing<F>>(&mut r);
    for i in 0..n {
        prove_eq("inverse first", r[i].0, a[i]);
        prove_eq("inverse second", r[i].1[0], b[i]);
    }
}
fn lagrange<F: HF>() {
    let k = choose(F::S.min(4) as usize + 1) as u32;
    let d = Domain::<F>::new(k);
    let n = d.n();
    let amount = choose(n + 1);
    let x = F::var("x");
    let xn = x.pow_vartime([n as u64]);
    let r = d.ell(x, amount);
    match r {
        None => prove("None only inside the domain", xn.eqf(F::ONE)),
        Some(l) => {
            prove("Some only outside the domain", xn.eqf(F::ONE).not());
            check("amount", l.len() == amount);
            // l_i(x) * n * (x - w^i) = (x^n - 1) w^i
            let mut w = F::ONE;
            for i in 0..amount {
                prove_eq("barycentric identity", l[i] * F::from(n as u64) * (x - w), (xn - F::ONE) * w);
                w *= d.omega();
            }
            if amount == n {
                // interpolation: sum f(w^i) l_i(x) = f(x)
                let f: Vec<F> = vars("f", n);
                let mut e = f.clone();
                d.fft(&mut e);
                prove_eq("interpolates", dot(&e, &l), naive_eval(&f, x));
            }
        }
    }
}
fn membership<F: HF>() {
    let k = choose(F::S.min(4) as usize + 1) as u32;
    let d = Domain::<F>::new(k);
    let x = F::var("x");
    let mut any = Fml::B(false);
    let mut w = F::ONE;
    for _ in 0..d.n() {
        any = any.or(x.eqf(w));
        w *= d.omega();
    }
    let c = d.contains(x);
    prove("contains = is a power of omega", any.clone().iff(Fml::B(c)));
    let none = d.ell(x, d.n()).is_none();
    prove("ell rejects exactly the domain", any.iff(Fml::B(none)));
}

fn main() {
    let mut v = vec![];
    h!(v, "A01", coeff_ring, Fp, "Coeff::{value,from,Mul,Add} on all 36 pairs of variants with symbolic payloads");
    h!(v, "A01", coeff_chain, Fp, "three-operand Coeff expressions, all 216 variant triples");
    h!(v, "A01", coeff_zero, T13, "Coeff::is_zero for every payload of F_13");
    h!(v, "A04", eval_dot, Fp, "eval, dot: lengths 0..=8, all coefficients and points");
    h!(v, "A04", division, Fp, "factor, factor_iter: degrees 1..=8");
    h!(v, "A04", geometric, Fp, "geosum: lengths 0..=34");
    h!(v, "A04", geometric_big, Fp, "geosum: lengths around 64, 128, 256");
    h!(v, "A04", roots, Fp, "poly_with_roots: 0..=5 distinct symbolic roots");
    h!(v, "A04", roots_repeated, Fp, "poly_with_roots: 6..=13 roots with multiplicity over two symbolic values");
    h!(v, "A02", domain_consts, Fp, "Domain::new: generator order, sizes 2^0..2^12");
    h!(v, "A02", domain_consts, Fq, "Domain::new over the other field");
    h!(v, "A02", dft, Fp, "fft/ifft: sizes 1..=32, all inputs");
    h!(v, "A02", dft, T97, "fft/ifft over F_97: every size the field supports");
    h!(v, "A02", dft_linear, Fp, "fft/ifft: sizes 64..=256, a two-parameter family of inputs");
    h!(v, "A02", dft_ring, Fp, "ring_fft/ring_ifft over a non-field module, sizes 1..=16");
    h!(v, "A03", lagrange, Fp, "Domain::ell: sizes 1..=16, every amount, all points outside the domain");
    h!(v, "A03", lagrange, T97, "Domain::ell over F_97: every point");
    h!(v, "A03", membership, T97, "Domain::{contains, ell} over F_97: sizes 1..=16, every point");
    h!(v, "A03", membership, T13, "Domain::{contains, ell} over F_13: sizes 1..=4, every point");
    symx::main(v)
}
