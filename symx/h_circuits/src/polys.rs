use crate::util::*;
use crate::wiring::{poly, R};
use ragu_circuits::horner::Horner;
use ragu_circuits::polynomials::sparse::{Polynomial, View};
use ragu_circuits::polynomials::{txz, Rank};

type P<F> = Polynomial<F, R>;
const N: usize = 128;
/// Where the coefficients that may be non-zero are.
const PATTERNS: [&[usize]; 8] = [&[], &[0, 5, 10], &[1, 6, 7], &[122, 127], &[0, 1, 127], &[64, 68, 73], &[63, 69], &[5, 9, 15, 122]];
fn dense<F: HF>(name: &str, p: &[usize]) -> Vec<F> {
    let mut v = vec![F::ZERO; N];
    for &i in p {
        v[i] = F::var(&format!("{name}{i}"));
    }
    v
}
fn coeffs<F: HF>(p: &P<F>) -> Vec<F> {
    p.iter_coeffs().collect()
}
fn pattern() -> &'static [usize] {
    PATTERNS[choose(PATTERNS.len())]
}
fn revdot<F: HF>(a: &[F], b: &[F]) -> F {
    a.iter().zip(b.iter().rev()).fold(F::ZERO, |s, (a, b)| s + *a * *b)
}
/// Building, reading, and the operations on one polynomial, whatever coefficients vanish.
pub fn unary<F: HF>() {
    let mut v = dense::<F>("p", pattern());
    if choose_bool() {
        v.truncate(*[1, 6, 128].get(choose(3)).unwrap());
    }
    let p = P::from_coeffs(v.clone());
    v.resize(N, F::ZERO);
    prove_eqs("read back", &coeffs(&p), &v);
    let mut back: Vec<F> = p.iter_coeffs().rev().collect();
    back.reverse();
    prove_eqs("read from the end", &back, &v);
    let mut it = p.iter_coeffs();
    let (mut lo, mut hi) = (vec![], vec![]);
    while it.len() > 0 {
        let n = it.len();
        if n % 3 == 0 {
            hi.push(it.next_back().unwrap());
        } else {
            lo.push(it.next().unwrap());
        }
        check("one fewer", it.len() == n - 1);
    }
    check("exhausted", it.next().is_none() && it.next_back().is_none());
    hi.reverse();
    lo.extend(hi);
    prove_eqs("read from both ends", &lo, &v);
    let z = match choose(3) {
        0 => F::var("z"),
        1 => F::ZERO,
        _ => F::ONE,
    };
    let pw = |i: usize| z.pow_vartime([i as u64]);
    prove_eq("eval", p.eval(z), v.iter().enumerate().fold(F::ZERO, |s, (i, c)| s + *c * pw(i)));
    let mut q = p.clone();
    q.dilate(z);
    prove_eqs("dilate", &coeffs(&q), &v.iter().enumerate().map(|(i, c)| *c * pw(i)).collect::<Vec<_>>());
    let mut q = p.clone();
    q.scale(z);
    prove_eqs("scale", &coeffs(&q), &v.iter().map(|c| *c * z).collect::<Vec<_>>());
    q.negate();
    prove_eqs("negate", &coeffs(&q), &v.iter().map(|c| -(*c * z)).collect::<Vec<_>>());
    prove_eqs("none", &coeffs(&P::<F>::new()), &vec![F::ZERO; N]);
    prove_eqs("default", &coeffs(&P::<F>::default()), &vec![F::ZERO; N]);
}
fn nonzero<F: HF>(v: &[F]) {
    for x in v {
        if x.key() != F::ZERO.key() {
            assume(x.is0().not());
        }
    }
}
/// Operations on two polynomials; coefficients may cancel.
pub fn binary<F: HF>() {
    let v = dense::<F>("p", pattern());
    let w = if choose_bool() { dense::<F>("q", pattern()) } else { v.iter().rev().copied().collect() };
    nonzero(&v);
    nonzero(&w);
    let p = P::from_coeffs(v.clone());
    let q = P::from_coeffs(w.clone());
    let zip = |f: fn(F, F) -> F| v.iter().zip(&w).map(|(a, b)| f(*a, *b)).collect::<Vec<_>>();
    match choose(4) {
        0 => {
            let mut s = p.clone();
            s.add_assign(&q);
            prove_eqs("sum", &coeffs(&s), &zip(|a, b| a + b));
            prove_eq("revdot of a sum", s.revdot(&q), revdot(&zip(|a, b| a + b), &w));
            s += &q;
            prove_eqs("sum again", &coeffs(&s), &zip(|a, b| a + b + b));
        }
        1 => {
            let mut s = p.clone();
            s.sub_assign(&q);
            prove_eqs("difference", &coeffs(&s), &zip(|a, b| a - b));
            s -= &q;
            prove_eqs("difference again", &coeffs(&s), &zip(|a, b| a - b - b));
        }
        2 => {
            prove_eq("revdot", p.revdot(&q), revdot(&v, &w));
            prove_eq("revdot, swapped", q.revdot(&p), revdot(&v, &w));
        }
        _ => {
            let g = F::var("g");
            generic_position();
            let mut want = vec![F::ZERO; N];
            for u in [&v, &w, &v] {
                for i in 0..N {
                    want[i] = want[i] * g + u[i];
                }
            }
            prove_eqs("fold", &coeffs(&P::fold([&p, &q, &p], g)), &want);
        }
    }
}
/// A polynomial minus a multiple of itself, and folds by any factor: terms vanish as they may.
pub fn cancel<F: HF>() {
    let v = dense::<F>("p", [&[0, 5, 10][..], &[1, 127], &[64, 68, 73]][choose(3)]);
    let z = F::var("z");
    let pw = |i: usize| z.pow_vartime([i as u64]);
    let p = P::from_coeffs(v.clone());
    let mut q = p.clone();
    q.scale(z);
    q.sub_assign(&p);
    prove_eqs("scaled minus itself", &coeffs(&q), &v.iter().map(|c| *c * z - *c).collect::<Vec<_>>());
    prove_eq("eval after cancellation", q.eval(z), v.iter().enumerate().fold(F::ZERO, |s, (i, c)| s + (*c * z - *c) * pw(i)));
    prove_eqs("fold", &coeffs(&P::fold([&p, &q, &p], z)), &v.iter().map(|c| (*c * z + *c * z - *c) * z + *c).collect::<Vec<_>>());
}
/// Dense polynomials: every coefficient symbolic, generic.
pub fn full<F: HF>() {
    generic_position();
    let all: Vec<usize> = (0..N).collect();
    let part: Vec<usize> = (3..N).step_by(2).collect();
    let (v, w) = (dense::<F>("p", &all), dense::<F>("q", if choose_bool() { &all } else { &part }));
    let (mut p, q) = (P::from_coeffs(v.clone()), P::from_coeffs(w.clone()));
    prove_eq("revdot", p.revdot(&q), revdot(&v, &w));
    let z = F::var("z");
    prove_eq("eval", p.eval(z), poly(&v, z));
    p.add_assign(&q);
    prove_eqs("sum", &coeffs(&p), &v.iter().zip(&w).map(|(a, b)| *a + *b).collect::<Vec<_>>());
    p.sub_assign(&q);
    prove_eqs("and back", &coeffs(&p), &v);
    p.dilate(z);
    prove_eqs("dilate", &coeffs(&p), &v.iter().enumerate().map(|(i, c)| *c * z.pow_vartime([i as u64])).collect::<Vec<_>>());
}
/// The two views place their wires where `revdot` pairs them.
pub fn views<F: HF>() {
    let n = R::n();
    let (mut t, mut s) = (View::<F, R, _>::trace(), View::<F, R, _>::wiring());
    let lens = [choose(2) * 3, 1 + choose(2), choose(2) * 2, choose(2) * 3];
    let many = choose_bool();
    generic_position();
    let lens = lens.map(|l| if many { n - l } else { l });
    let name = |v: &str, k: usize, l: usize| (0..l).map(|i| F::var(&format!("{v}{k}x{i}"))).collect::<Vec<F>>();
    let tv: Vec<Vec<F>> = (0..4).map(|k| name("t", k, lens[k])).collect();
    let sv: Vec<Vec<F>> = (0..4).map(|k| name("s", k, lens[(k + 1) % 4].min(2))).collect();
    (t.a, t.b, t.c, t.d) = (tv[0].clone(), tv[1].clone(), tv[2].clone(), tv[3].clone());
    (s.a, s.b, s.c, s.d) = (sv[0].clone(), sv[1].clone(), sv[2].clone(), sv[3].clone());
    let (t, s) = (t.build(), s.build());
    let mut want = vec![F::ZERO; N];
    for (k, v) in tv.iter().enumerate() {
        for (i, x) in v.iter().enumerate() {
            want[[2 * n + i, 2 * n - 1 - i, i, 4 * n - 1 - i][k]] = *x;
        }
    }
    prove_eqs("trace", &coeffs(&t), &want);
    let mut want = vec![F::ZERO; N];
    for (k, v) in sv.iter().enumerate() {
        for (i, x) in v.iter().enumerate() {
            want[[2 * n - 1 - i, 2 * n + i, 4 * n - 1 - i, i][k]] = *x;
        }
    }
    prove_eqs("wiring", &coeffs(&s), &want);
    let dot = tv.iter().zip(&sv).flat_map(|(a, b)| a.iter().zip(b)).fold(F::ZERO, |s, (a, b)| s + *a * *b);
    prove_eq("paired", t.revdot(&s), dot);
}

// ---------------------------------------------------------------- t(X, Z)

fn xz<F: HF>() -> (F, F) {
    match choose(4) {
        0 => (F::var("x"), F::var("z")),
        1 => (F::ZERO, F::var("z")),
        2 => (F::var("x"), F::ZERO),
        _ => (F::ZERO, F::ZERO),
    }
}
fn t<F: HF>(x: F, z: F) -> F {
    if x.key() == F::ZERO.key() || z.key() == F::ZERO.key() {
        return F::ZERO;
    }
    let n = R::n();
    let p = |b: F, e: usize| b.pow_vartime([e as u64]);
    -(0..n).fold(F::ZERO, |s, i| s + p(x, 4 * n - 1 - i) * (p(z, 2 * n - 1 - i) + p(z, 2 * n + i)))
}
pub fn tensor<F: HF>() {
    let (x, z) = xz::<F>();
    generic_position();
    let want = t(x, z);
    prove_eq("t(X, z) at x", R::tz(z).eval(x), want);
    prove_eq("t(x, Z) at z", R::tx(x).eval(z), want);
    prove_eq("t(x, z)", R::txz(x, z), want);
    let c: Vec<F> = R::tz(z).iter_coeffs().collect();
    let n = R::n();
    let p = |e: usize| z.pow_vartime([e as u64]);
    let zero = z.key() == F::ZERO.key();
    for i in 0..N {
        let e = if i >= 3 * n && !zero { -(p(i - 2 * n) + p(6 * n - 1 - i)) } else { F::ZERO };
        prove_eq("t(X, z)", c[i], e);
    }
}
/// In circuit: honest witnesses satisfy it; whatever satisfies it outputs t(x, z).
fn tensor_gadget<F: HF, M: RecMode>() {
    generic_position();
    let mut d = Rec::<F, M>::new();
    let (x, xv) = el(&mut d, "x");
    let (z, zv) = el(&mut d, "z");
    assume(xv.is0().not());
    assume(zv.is0().not());
    let out = d.routine(txz::Evaluate::<R>::new(), (x, z)).unwrap();
    if M::WITNESS {
        d.prove_satisfied("the honest witness satisfies it");
        prove_eq("output", out.wire().val, t(xv, zv));
    } else {
        d.implies("the output is t(x, z)", vec![], out.wire().val.eqf(t(xv, zv)));
    }
    let v = out.value();
    let _ = Rec::<F, M>::just(|| prove_eq("and its value", *v.take(), t(xv, zv)));
}
both!(tensor_gadget, tensor_honest, tensor_sound);

// ---------------------------------------------------------------- Horner

fn horner<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let (y, yv) = el(&mut d, "y");
    let k = choose(5);
    let es: Vec<_> = (0..k).map(|i| el(&mut d, &format!("e{i}"))).collect();
    let mut h = Horner::new(&y);
    for e in &es {
        ragu_primitives::io::Buffer::write(&mut h, &mut d, &e.0).unwrap();
    }
    let last = es.iter().fold(F::ZERO, |s, e| s * yv + e.1);
    let (r, want) = match choose(3) {
        0 => (h.finish(&mut d), last),
        1 => (h.finish_ky(&mut d).unwrap(), last * yv + F::ONE),
        _ => {
            let c = h.clone();
            let _ = h.finish_ky(&mut d).unwrap();
            (c.finish(&mut d), last)
        }
    };
    if M::WITNESS {
        d.prove_satisfied("the honest witness satisfies it");
        prove_eq("value", r.wire().val, want);
    } else {
        d.implies("the value is forced", vec![], r.wire().val.eqf(want));
    }
    let v = r.value();
    let _ = Rec::<F, M>::just(|| prove_eq("carried", *v.take(), want));
}
both!(horner, horner_honest, horner_sound);

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "R03", unary, Fp, "one polynomial over eight sparsity patterns", 20000, 0);
    h!(hs, "R03", binary, Fp, "two polynomials over eight sparsity patterns each", 200000, 0);
    h!(hs, "R03", cancel, symx::T7, "cancellation, over F_7");
    h!(hs, "R03", full, Fp, "dense polynomials");
    h!(hs, "R03", views, Fp, "trace and wiring views", 20000, 0);
    h!(hs, "R04", tensor, Fp, "Rank::tz, tx, txz");
    h!(hs, "R04", tensor_honest, Fp, "txz::Evaluate with a witness");
    h!(hs, "R04", tensor_sound, Fp, "txz::Evaluate without");
    h!(hs, "R04", horner_honest, Fp, "Horner with a witness");
    h!(hs, "R04", horner_sound, Fp, "Horner without");
}
