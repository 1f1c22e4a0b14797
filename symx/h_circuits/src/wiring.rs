use crate::prog::*;
use crate::util::*;
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::CircuitExt;

pub type R = TestRank;
pub fn arb<F: HF>(n: String) -> Coeff<F> {
    Coeff::Arbitrary(F::var(&n))
}
/// One operation, its coefficients and values named after `n`.
pub fn op<F: HF>(n: &str, k: usize, depth: usize) -> Op<F> {
    let v = |s: &str| F::var(&format!("{n}{s}"));
    let c = |s: &str| arb(format!("{n}{s}"));
    match k {
        0 => Op::Alloc(v("x")),
        1 => Op::Zero(0, 2, c("p"), c("g"), c("q")),
        2 => Op::Gate([v("a"), v("b"), v("c"), v("d")]),
        3 => Op::Add(1, 3, c("p"), Coeff::NegativeArbitrary(v("g")), Coeff::Two),
        4 => Op::Mul([v("a"), v("b"), v("c")]),
        5 => Op::Equal(0, 1),
        6 => Op::Const(c("k")),
        8 => Op::Zero(1, 0, Coeff::Zero, Coeff::NegativeOne, Coeff::One),
        9 => Op::Add(0, 1, Coeff::Zero, Coeff::Zero, Coeff::NegativeOne),
        10 => Op::Fail(3),
        _ => {
            let mut body = vec![op(&format!("{n}r"), 0, 0), op(&format!("{n}s"), 1, 0)];
            if depth > 0 {
                body.push(op(&format!("{n}t"), 7, depth - 1));
                body.push(op(&format!("{n}u"), 0, 0));
                body.push(op(&format!("{n}v"), 4, 0));
            }
            body.push(op(&format!("{n}w"), 1, 0));
            Op::Call { body, known: choose_bool() }
        }
    }
}
/// Any `k` operations after an allocation.
pub fn some_ops<F: HF>(k: usize, ops_of: usize) -> Vec<Op<F>> {
    let mut ops = vec![op("o", 0, 0)];
    for i in 0..k {
        let j = choose(ops_of);
        ops.push(op(&format!("o{i}"), j, if i == 0 { 1 } else { 0 }));
    }
    ops
}
pub fn registry<F: HF>(p: Prog<F, 2>) -> Registry<'static, F, R> {
    RegistryBuilder::<F, R>::new().register_circuit(p).unwrap().finalize().unwrap()
}
/// `one`: value of the constant wire, and the valuation under which `sxy` is the sum over constraints.
pub fn slot<F: HF>(x: F) -> (F, impl Fn(usize, usize) -> F + Clone + 'static) {
    let n = R::n() as u64;
    let f = move |i: usize, k: usize| {
        let i = i as u64;
        x.pow_vartime([match k {
            0 => 2 * n - 1 - i,
            1 => 2 * n + i,
            2 => 4 * n - 1 - i,
            _ => i,
        }])
    };
    (f(0, 1), f)
}
pub fn poly<F: HF>(c: &[F], y: F) -> F {
    c.iter().rev().fold(F::ZERO, |s, c| s * y + *c)
}
fn wiring<F: HF>(k: usize) {
    opaque_bytes();
    let (x, y) = match choose(3) {
        0 => (F::var("x"), F::var("y")),
        1 => (F::var("x"), F::ZERO),
        _ => (F::ZERO, F::var("y")),
    };
    generic_position();
    let p = Prog::<F, 2> { ops: some_ops(k, 11) };
    let (one, wire) = slot(x);
    let m = formal(&p, one, wire);
    let r = registry(p);
    let i = CircuitIndex::new(0);
    check("counts", r.constraint_counts(i) == (m.gates(), m.constraints()));
    let w: F = i.omega_j();
    let n4 = R::num_coeffs() as u64;
    let key = if choose_is0(x) || choose_is0(y) { F::ZERO } else { r.digest() * (x * y).pow_vartime([n4 - 1]) };
    let zero = choose_is0(x);
    let s = if zero { F::ZERO } else { poly(&m.all_cons(), y) };
    prove_eq("s(x, y)", r.wxy(w, x, y), s + key);
    prove_eq("s(x, y) by index", r.circuit_xy(i, x, y), s + key);
    // s(x, Y)
    let sx: Vec<F> = r.wx(w, x).iter_coeffs().collect();
    let mut want = if zero { vec![] } else { m.all_cons() };
    want.resize(R::num_coeffs(), F::ZERO);
    if !zero {
        want[n4 as usize - 1] += r.digest() * x.pow_vartime([n4 - 1]);
    }
    prove_eqs("s(x, Y)", &sx, &want);
    // s(X, y)
    prove_eq("s(X, y) at x", r.circuit_y(i, y).eval(x), s + key);
    prove_eq("s(X, y) at x", r.wy(w, y).eval(x), s + key);
    prove_eq("by w", r.xy(x, y).eval(w), s + key);
}
fn choose_is0<F: HF>(x: F) -> bool {
    x.key() == F::ZERO.key()
}
/// The witness of a program: where its values end up, and what the polynomial identity says about them.
fn identity<F: HF>(k: usize) {
    opaque_bytes();
    generic_position();
    let p = Prog::<F, 2> { ops: some_ops(k, 10) };
    let m = honest(&p);
    let (n, n4) = (R::n(), R::num_coeffs());
    let r = registry(p.clone());
    let i = CircuitIndex::new(0);
    let t = p.trace(()).unwrap().into_parts();
    check("auxiliary data", t.1 == 41);
    let alpha = F::var("alpha");
    let rx = r.assemble_with_alpha(&t.0, i, alpha).unwrap();
    let mut want = vec![F::ZERO; n4];
    for (i, g) in m.all_gates().into_iter().enumerate() {
        want[2 * n + i] += g[0];
        want[2 * n - 1 - i] += g[1];
        want[i] += g[2];
        want[4 * n - 1 - i] += g[3];
    }
    want[4 * n - 1] += alpha;
    prove_eqs("every value in its place", &rx.iter_coeffs().collect::<Vec<_>>(), &want);
    let (y, z) = (F::var("y"), F::var("z"));
    let mut rhs = rx.clone();
    rhs.dilate(z);
    rhs.add_assign(&r.circuit_y(i, y));
    rhs.add_assign(&R::tz(z));
    let mut says = poly(&m.all_cons(), y);
    let g = m.all_gates();
    let zp = |e: usize| z.pow_vartime([e as u64]);
    for i in m.proper() {
        let [a, b, c, d] = g[i];
        if i == 0 {
            says += c * d; // the system gate: (0, 1, 0, alpha)
            continue;
        }
        says += (a * b - c) * (zp(2 * n - 1 - i) + zp(2 * n + i)) + c * d * (zp(i) + zp(4 * n - 1 - i));
    }
    prove_eq("the identity is the constraints, one per power of y and z", rx.revdot(&rhs), says);
    prove_eq("symmetric", rhs.revdot(&rx), says);
    prove_eq("k(Y)", p.ky(m.outputs.clone(), y).unwrap(), m.outputs.iter().fold(F::ZERO, |s, o| s * y + *o) * y + F::ONE);
}
pub fn identity1<F: HF>() {
    identity::<F>(1)
}
pub fn identity2<F: HF>() {
    identity::<F>(2)
}
pub fn identity3<F: HF>() {
    identity::<F>(3)
}
/// A refused witness anywhere is the trace's error.
pub fn refused<F: HF>() {
    opaque_bytes();
    let mut ops = some_ops::<F>(1, 8);
    let fail = Op::Fail(5);
    match choose(4) {
        0 => ops.push(fail),
        1 => ops.insert(0, fail),
        2 => ops.push(Op::Call { body: vec![op("q", 0, 0), fail, op("r", 4, 0)], known: choose_bool() }),
        _ => ops.insert(1, Op::Call { body: vec![Op::Call { body: vec![fail], known: choose_bool() }, op("r", 4, 0)], known: choose_bool() }),
    }
    let p = Prog::<F, 2> { ops };
    check("refused", matches!(p.trace(()), Err(ragu_core::Error::CircuitBoundExceeded { limit: 5 })));
}
/// Programs of `g` gates and `q` constraints, some of them inside a routine.
fn sized<F: HF>(g: usize, q: usize, inside: bool) -> Prog<F, 2> {
    // one system gate; two outputs and the constant make three constraints
    let v = [F::var("a"), F::var("b"), F::var("c"), F::var("d")];
    let mut ops: Vec<_> = (0..g - 1).map(|i| if i % 2 == 0 { Op::Gate(v) } else { Op::Mul([v[0], v[1], v[2]]) }).collect();
    ops.extend((0..q - 3).map(|i| if i % 2 == 0 { Op::Equal(0, 2) } else { Op::Zero(0, 1, Coeff::One, Coeff::Two, Coeff::One) }));
    if inside {
        let k = ops.len() / 3;
        let body = ops.split_off(k);
        ops.push(Op::Call { body, known: choose_bool() });
    }
    Prog { ops }
}
pub fn bounds<F: HF>() {
    opaque_bytes();
    generic_position();
    let (n, n4) = (R::n(), R::num_coeffs());
    let (g, q) = match choose(6) {
        0 => (n - 1, 5),
        1 => (n, 5),
        2 => (n + 1, 5),
        3 => (3, n4 - 2),
        4 => (3, n4 - 1),
        _ => (3, n4),
    };
    let inside = choose_bool();
    let p = sized::<F>(g, q, inside);
    let i = CircuitIndex::new(0);
    let made = match choose(3) {
        0 => RegistryBuilder::<F, R>::new().register_circuit(p.clone()),
        1 => RegistryBuilder::<F, R>::new().register_internal_circuit(p.clone()),
        _ => RegistryBuilder::<F, R>::new().register_internal_step(p.clone()),
    };
    if g > n {
        check("too many gates", matches!(made, Err(ragu_core::Error::GateBoundExceeded { limit }) if limit == n));
    } else if q >= n4 {
        check("too many constraints", matches!(made, Err(ragu_core::Error::ConstraintBoundExceeded { limit }) if limit == n4 - 1));
    } else {
        check("accepted", made.is_ok());
        let r = made.ok().unwrap().finalize().unwrap();
        check("counted", r.constraint_counts(i) == (g, q));
        // and usable
        let (x, y) = (F::var("x"), F::var("y"));
        let (one, wire) = slot(x);
        let m = formal(&p, one, wire);
        let s = poly(&m.all_cons(), y) + r.digest() * (x * y).pow_vartime([n4 as u64 - 1]);
        prove_eq("s(x, y)", r.circuit_xy(i, x, y), s);
        prove_eq("s(X, y) at x", r.circuit_y(i, y).eval(x), s);
        let t = p.trace(()).unwrap().into_output();
        check("assembled", r.assemble_with_alpha(&t, i, F::ONE).is_ok());
    }
}
pub fn wiring3<F: HF>() {
    wiring::<F>(3)
}
pub fn wiring1<F: HF>() {
    wiring::<F>(1)
}
pub fn wiring2<F: HF>() {
    wiring::<F>(2)
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "R01", wiring1, Fp, "one operation");
    h!(hs, "R01", wiring2, Fp, "two operations");
    h!(hs, "R01", wiring3, Fp, "three operations", 20000, 1);
    h!(hs, "R02", identity1, Fp, "one operation");
    h!(hs, "R02", identity2, Fp, "two operations");
    h!(hs, "R02", identity3, Fp, "three operations", 20000, 1);
    h!(hs, "R02", refused, Fp, "witness failures");
    h!(hs, "R01", bounds, Fp, "programs of sizes around the bounds");
}
