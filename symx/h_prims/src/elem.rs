//! `Element`.
use crate::both;
use crate::util::*;
use ragu_primitives::multiadd;

pub fn coeff<F: HF>(name: &str) -> (Coeff<F>, F) {
    match choose(6) {
        0 => (Coeff::Zero, F::ZERO),
        1 => (Coeff::One, F::ONE),
        2 => (Coeff::Two, F::ONE + F::ONE),
        3 => (Coeff::NegativeOne, -F::ONE),
        4 => {
            let v = F::var(name);
            (Coeff::Arbitrary(v), v)
        }
        _ => {
            let v = F::var(name);
            (Coeff::NegativeArbitrary(v), -v)
        }
    }
}

/// Operations without a precondition: output = specification, for every value of the inputs.
fn ops<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    let mut k = None;
    let (label, out, spec) = match choose(12) {
        0 => ("mul", a.mul(dr, &b).unwrap(), av * bv),
        1 => ("square", a.square(dr).unwrap(), av * av),
        2 => ("negate", a.negate(dr), -av),
        3 => ("add", a.add(dr, &b), av + bv),
        4 => ("sub", a.sub(dr, &b), av - bv),
        5 => {
            let (c, cv) = coeff("c");
            ("add_coeff", a.add_coeff(dr, &b, c), av + cv * bv)
        }
        6 => {
            let (c, cv) = coeff("c");
            ("scale", a.scale(dr, c), cv * av)
        }
        7 => ("double", a.double(dr), av + av),
        8 => ("one", Element::one(), F::ONE),
        9 => ("zero", Element::zero(dr), F::ZERO),
        10 => {
            let c = F::var("c");
            ("constant", Element::constant(dr, c), c)
        }
        _ => {
            // allocation: whatever value is witnessed
            let x = F::var("x");
            let e: E<F, M> = Element::alloc(dr, <Rec<F, M> as Driver>::just(|| x)).unwrap();
            k = Some(e.wire().val);
            let s = if M::WITNESS { x } else { e.wire().val };
            ("alloc", e, s)
        }
    };
    let _ = k;
    value_matches(label, &out);
    conclude(dr, label, v(&out).eqf(spec));
}
both!(ops, elem_ops_complete, elem_ops_sound);

fn alloc_square<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let x = F::var("x");
    let (a, b): (E<F, M>, E<F, M>) = Element::alloc_square(dr, <Rec<F, M> as Driver>::just(|| x)).unwrap();
    value_matches("root", &a);
    value_matches("square", &b);
    let mut spec = v(&b).eqf(v(&a) * v(&a));
    if M::WITNESS {
        spec = spec.and(v(&a).eqf(x));
    }
    conclude(dr, "alloc_square", spec);
}
both!(alloc_square, elem_alloc_square_complete, elem_alloc_square_sound);

fn many<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let n = choose(6);
    let (es, vs) = els(dr, "e", n);
    match choose(3) {
        0 => {
            let out = Element::sum(dr, &es);
            let mut s = F::ZERO;
            for x in &vs {
                s += *x;
            }
            value_matches("sum", &out);
            conclude(dr, "sum", v(&out).eqf(s));
        }
        1 => {
            let (k, kv) = el(dr, "k");
            let out = Element::fold(dr, es.iter(), &k).unwrap();
            // the first element carries the highest power
            let mut s = F::ZERO;
            for (i, x) in vs.iter().enumerate() {
                let mut t = *x;
                for _ in i + 1..n {
                    t *= kv;
                }
                s += t;
            }
            value_matches("fold", &out);
            conclude(dr, "fold", v(&out).eqf(s));
        }
        _ => {
            let cs: Vec<F> = vars("c", n);
            let out = multiadd(dr, &es, &cs);
            let mut s = F::ZERO;
            for i in 0..n {
                s += vs[i] * cs[i];
            }
            value_matches("multiadd", &out);
            conclude(dr, "multiadd", v(&out).eqf(s));
        }
    }
}
both!(many, elem_many_complete, elem_many_sound);

/// Honest inverses and quotients satisfy the circuit, and only a zero divisor is refused.
pub fn elem_invert_complete<F: HF>() {
    type M = Always<()>;
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    match choose(if toy::<F>() { 3 } else { 2 }) {
        0 => match a.invert(dr) {
            Ok(x) => {
                value_matches("invert", &x);
                dr.prove_satisfied("invert: satisfied");
                prove_eq("invert", v(&x) * av, F::ONE);
            }
            Err(_) => prove("invert refuses only zero", av.is0()),
        },
        1 => match a.div_nonzero(dr, &b) {
            Ok(x) => {
                value_matches("div", &x);
                dr.prove_satisfied("div: satisfied");
                prove_eq("div", v(&x) * bv, av);
                prove("div refuses zero", bv.is0().not());
            }
            Err(_) => prove("div refuses only zero", bv.is0()),
        },
        _ => {
            let x = a.invert_with(dr, <Rec<F, M> as Driver>::just(|| bv)).unwrap();
            value_matches("invert_with", &x);
            prove_eq("invert_with output", v(&x), bv);
            prove(
                "invert_with accepts exactly the inverse",
                Fml::all(dr.cons.iter().cloned()).iff((av * bv).eqf(F::ONE)),
            );
        }
    }
}
pub fn elem_invert_sound<F: HF>() {
    type M = Empty;
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    match choose(3) {
        0 => {
            let x = a.invert(dr).unwrap();
            dr.implies("invert", vec![], (v(&x) * av).eqf(F::ONE));
        }
        1 => {
            let x = a.div_nonzero(dr, &b).unwrap();
            dr.implies("div", vec![], (v(&x) * bv).eqf(av));
        }
        _ => {
            let x = a.invert_with(dr, Empty).unwrap();
            dr.implies("invert_with", vec![], (v(&x) * av).eqf(F::ONE));
        }
    }
}

fn assertions<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    let (label, spec) = match choose(3) {
        0 => {
            a.enforce_zero(dr).unwrap();
            ("enforce_zero", av.is0())
        }
        1 => {
            a.enforce_equal(dr, &b).unwrap();
            ("enforce_equal", av.eqf(bv))
        }
        _ => {
            let k = choose(5);
            a.enforce_root_of_unity(dr, k as u32).unwrap();
            let mut p = av;
            for _ in 0..k {
                p = p * p;
            }
            ("enforce_root_of_unity", p.eqf(F::ONE))
        }
    };
    // satisfiable exactly when the specification holds
    if M::WITNESS {
        prove(label, Fml::all(dr.cons.iter().cloned()).iff(spec));
    } else {
        dr.implies(label, vec![], spec);
    }
}
both!(assertions, elem_assertions_complete, elem_assertions_sound);

fn tests<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    let (label, out, fact) = if choose_bool() {
        ("is_zero", a.is_zero(dr).unwrap(), av.is0())
    } else {
        ("is_equal", a.is_equal(dr, &b).unwrap(), av.eqf(bv))
    };
    bvalue_matches(label, &out);
    let w = out.wire().val;
    let spec = fact.clone().implies(w.eqf(F::ONE)).and(fact.not().implies(w.is0()));
    conclude(dr, label, spec);
}
both!(tests, elem_tests_complete, elem_tests_sound);

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::{Fp, Fq};
    use symx::{T13, T7};
    h!(hs, "P03", elem_ops_complete, Fp, "Element::{mul,square,negate,add,sub,add_coeff,scale,double,one,zero,constant,alloc}: honest witness satisfies the circuit and yields the specified value");
    h!(hs, "P03", elem_ops_complete, Fq, "the same over the other field");
    h!(hs, "P03", elem_ops_sound, Fp, "the same operations with every gate wire adversarial: the constraints force the specified output");
    h!(hs, "P03", elem_alloc_square_complete, Fp, "alloc_square, honest");
    h!(hs, "P03", elem_alloc_square_sound, Fp, "alloc_square, adversarial wires");
    h!(hs, "P03", elem_many_complete, Fp, "sum, fold, multiadd over up to 5 elements, honest");
    h!(hs, "P03", elem_many_sound, Fp, "sum, fold, multiadd over up to 5 elements, adversarial wires");
    h!(hs, "P03", elem_invert_complete, Fp, "invert, div_nonzero, invert_with: honest");
    h!(hs, "P03", elem_invert_complete, T13, "invert, div_nonzero, invert_with over F_13: only a zero divisor is refused");
    h!(hs, "P03", elem_invert_sound, T13, "invert, div_nonzero, invert_with: adversarial wires, F_13");
    h!(hs, "P03", elem_assertions_complete, T13, "enforce_zero, enforce_equal, enforce_root_of_unity(k<=4): satisfied exactly when the statement holds");
    h!(hs, "P03", elem_assertions_sound, T13, "the same, adversarial wires");
    h!(hs, "P01", elem_tests_complete, Fp, "is_zero, is_equal: honest");
    h!(hs, "P01", elem_tests_sound, T7, "is_zero, is_equal: adversarial wires, F_7");
    h!(hs, "P01", elem_tests_sound, T13, "is_zero, is_equal: adversarial wires, F_13");
}
