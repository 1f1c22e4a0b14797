//! `Point`: the affine group law on y^2 = x^3 + b.
use crate::both;
use crate::util::*;
use pasta_curves::curve::{Aff, CurveParams};

/// A curve over any harness field (the toy parameters give curves of prime order with an efficient endomorphism).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cv<F>(PhantomData<F>);
pub fn curve_b<F: HF>() -> u64 {
    match <F::P as PBase>::TOY {
        Some(7) => 3,
        Some(13) => 2,
        Some(19) => 2,
        Some(37) => 5,
        Some(97) => 10,
        Some(p) => panic!("no curve over F_{p}"),
        None => 5,
    }
}
impl<F: HF> CurveParams for Cv<F> {
    type Base = F;
    type Scalar = F;
    const ID: &'static str = "cv";
    fn b() -> F {
        F::from(curve_b::<F>())
    }
    fn gen() -> (F, F) {
        match <F::P as PBase>::TOY {
            Some(7) => (F::ONE, F::from(2)),
            Some(13) => (F::ONE, F::from(4)),
            Some(19) => (F::from(4), F::from(3)),
            Some(37) => (F::from(6), F::from(6)),
            Some(97) => (F::ONE, F::from(37)),
            _ => (-F::ONE, F::from(2)),
        }
    }
}
pub type A<F> = Aff<Cv<F>, F>;
pub type Pt<F, M> = Point<'static, Rec<F, M>, A<F>>;

pub fn pt<F: HF, M: RecMode>(dr: &mut Rec<F, M>, x: F, y: F) -> Pt<F, M> {
    Point::constant(dr, A::<F>::from_xy_unchecked(x, y)).expect("not the identity")
}
pub fn xy<F: HF, M: RecMode>(p: &Pt<F, M>) -> (F, F) {
    let w = wire_vals(p);
    assert_eq!(w.len(), 2);
    (w[0], w[1])
}
pub fn on_curve<F: HF>(x: F, y: F) -> Fml {
    (y * y).eqf(x * x * x + F::from(curve_b::<F>()))
}
pub fn pvalue<F: HF, M: RecMode>(label: &str, dr: &mut Rec<F, M>, p: &Pt<F, M>) {
    let mut es: Vec<E<F, M>> = vec![];
    p.write(dr, &mut es).unwrap();
    for e in &es {
        value_matches(label, e);
    }
}
/// Textbook chord addition; the abscissae must differ.
pub fn chord<F: HF>(p: (F, F), q: (F, F)) -> Option<(F, F)> {
    let d: Option<F> = (q.0 - p.0).invert().into();
    let l = (q.1 - p.1) * d?;
    let x = l * l - p.0 - q.0;
    Some((x, l * (p.0 - x) - p.1))
}
pub fn tangent<F: HF>(p: (F, F)) -> Option<(F, F)> {
    let d: Option<F> = (p.1 + p.1).invert().into();
    let l = (p.0 * p.0 + p.0 * p.0 + p.0 * p.0) * d?;
    let x = l * l - p.0 - p.0;
    Some((x, l * (p.0 - x) - p.1))
}
fn same<F: HF>(a: (F, F), b: (F, F)) -> Fml {
    a.0.eqf(b.0).and(a.1.eqf(b.1))
}

pub fn alloc_complete<F: HF>() {
    type M = Always<()>;
    let mut d = Rec::<F, M>::new();
    let (x, y) = (F::var("x"), F::var("y"));
    let p: Pt<F, M> = Point::alloc(&mut d, Always::maybe_just(|| A::<F>::from_xy_unchecked(x, y))).unwrap();
    prove("coordinates", same(xy(&p), (x, y)));
    pvalue("alloc", &mut d, &p);
    prove("accepts exactly the curve", Fml::all(d.cons.iter().cloned()).iff(on_curve(x, y)));
    // the point at infinity has no coordinates
    let inf = Point::<'_, Rec<F, M>, A<F>>::alloc(
        &mut d,
        Always::maybe_just(|| <A<F> as group::prime::PrimeCurveAffine>::identity()),
    );
    check("infinity is refused", inf.is_err());
    check(
        "infinity is refused as a constant",
        Point::<'_, Rec<F, M>, A<F>>::constant(&mut d, <A<F> as group::prime::PrimeCurveAffine>::identity()).is_err(),
    );
}
pub fn alloc_sound<F: HF>() {
    let mut d = Rec::<F, Empty>::new();
    let p: Pt<F, Empty> = Point::alloc(&mut d, Empty).unwrap();
    let (x, y) = xy(&p);
    d.implies("on the curve", vec![], on_curve(x, y));
}

fn simple<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (x, y) = (F::var("x"), F::var("y"));
    let p = pt::<F, M>(dr, x, y);
    let z = <F as ff::WithSmallOrderMulGroup<3>>::ZETA;
    let (label, out, spec) = match choose(4) {
        0 => ("endo", p.endo(dr), (z * x, y)),
        1 => ("negate", p.negate(dr), (x, -y)),
        2 => {
            let (c, cv) = bo(dr);
            let o = p.conditional_endo(dr, &c).unwrap();
            ("conditional_endo", o, (x + cv * (z * x - x), y))
        }
        _ => {
            let (c, cv) = bo(dr);
            let o = p.conditional_negate(dr, &c).unwrap();
            ("conditional_negate", o, (x, y - cv * (y + y)))
        }
    };
    pvalue(label, dr, &out);
    conclude(dr, label, same(xy(&out), spec));
}
both!(simple, simple_complete, simple_sound);

pub fn group_complete<F: HF>() {
    type M = Always<()>;
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let a = (F::var("x1"), F::var("y1"));
    let b = (F::var("x2"), F::var("y2"));
    let p = pt::<F, M>(dr, a.0, a.1);
    let q = pt::<F, M>(dr, b.0, b.1);
    match choose(4) {
        0 => match p.double(dr) {
            Ok(o) => {
                pvalue("double", dr, &o);
                dr.prove_satisfied("double: satisfied");
                prove("double", same(xy(&o), tangent(a).expect("refused otherwise")));
            }
            Err(_) => prove("double refuses only y = 0", (a.1 + a.1).is0()),
        },
        1 => match p.add_incomplete(dr, &q, None) {
            Ok(o) => {
                pvalue("add", dr, &o);
                dr.prove_satisfied("add: satisfied");
                prove("add", same(xy(&o), chord(a, b).expect("refused otherwise")));
            }
            Err(_) => prove("add refuses only equal abscissae", a.0.eqf(b.0)),
        },
        2 => {
            let (mut nz, nzv) = el(dr, "nz");
            match p.add_incomplete(dr, &q, Some(&mut nz)) {
                Ok(o) => {
                    value_matches("nonzero", &nz);
                    dr.prove_satisfied("add with accumulator: satisfied");
                    prove("add with accumulator", same(xy(&o), chord(a, b).expect("refused otherwise")));
                    prove_eq("accumulator", v(&nz), nzv * (b.0 - a.0));
                }
                Err(_) => prove("add refuses only equal abscissae", a.0.eqf(b.0)),
            }
        }
        _ => match p.double_and_add_incomplete(dr, &q) {
            Ok(o) => {
                pvalue("double_and_add", dr, &o);
                dr.prove_satisfied("double_and_add: satisfied");
                let r = chord(a, b).expect("refused otherwise");
                prove("double_and_add", same(xy(&o), chord(r, a).expect("refused otherwise")));
            }
            Err(_) => match chord(a, b) {
                None => check("refused: equal abscissae", true),
                Some(r) => prove("refused: (P + Q) and P share the abscissa", r.0.eqf(a.0)),
            },
        },
    }
}
pub fn group_sound<F: HF>() {
    type M = Empty;
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let a = (F::var("x1"), F::var("y1"));
    let b = (F::var("x2"), F::var("y2"));
    let p = pt::<F, M>(dr, a.0, a.1);
    let q = pt::<F, M>(dr, b.0, b.1);
    let nz = |x: F| x.is0().not();
    match choose(4) {
        0 => {
            let o = p.double(dr).unwrap();
            assume(nz(a.1));
            let t = tangent(a).unwrap();
            dr.implies("double", vec![], same(xy(&o), t));
        }
        1 => {
            let o = p.add_incomplete(dr, &q, None).unwrap();
            assume(nz(a.0 - b.0));
            let t = chord(a, b).unwrap();
            dr.implies("add", vec![], same(xy(&o), t));
        }
        2 => {
            let (mut acc, accv) = el(dr, "acc");
            let o = p.add_incomplete(dr, &q, Some(&mut acc)).unwrap();
            dr.implies("accumulator", vec![], v(&acc).eqf(accv * (b.0 - a.0)));
            dr.implies("accumulator is zero on equal abscissae", vec![a.0.eqf(b.0)], v(&acc).is0());
            assume(nz(a.0 - b.0));
            let t = chord(a, b).unwrap();
            dr.implies("add with accumulator", vec![], same(xy(&o), t));
        }
        _ => {
            let o = p.double_and_add_incomplete(dr, &q).unwrap();
            assume(nz(a.0 - b.0));
            let r = chord(a, b).unwrap();
            assume(nz(a.0 - r.0));
            let t = chord(r, a).unwrap();
            dr.implies("double_and_add", vec![], same(xy(&o), t));
        }
    }
}
/// The operations stay on the curve and agree with the group: doubling then negating, adding inverses.
pub fn stays_on_curve<F: HF>() {
    type M = Always<()>;
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let a = (F::var("x1"), F::var("y1"));
    let b = (F::var("x2"), F::var("y2"));
    assume(on_curve(a.0, a.1));
    assume(on_curve(b.0, b.1));
    let p = pt::<F, M>(dr, a.0, a.1);
    let q = pt::<F, M>(dr, b.0, b.1);
    let (label, r) = match choose(5) {
        0 => ("double", p.double(dr)),
        1 => ("add", p.add_incomplete(dr, &q, None)),
        2 => ("double_and_add", p.double_and_add_incomplete(dr, &q)),
        3 => ("endo", Ok(p.endo(dr))),
        _ => ("negate", Ok(p.negate(dr))),
    };
    if let Ok(o) = r {
        let (x, y) = xy(&o);
        prove(label, on_curve(x, y));
    }
}

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::{Fp, Fq};
    use symx::{T13, T37, T7};
    h!(hs, "P04", alloc_complete, T13, "Point::alloc/constant: satisfied exactly on the curve (F_13), infinity refused");
    h!(hs, "P04", alloc_complete, T37, "the same over F_37");
    h!(hs, "P04", alloc_sound, T13, "Point::alloc: adversarial wires lie on the curve (F_13)");
    h!(hs, "P04", alloc_sound, T37, "Point::alloc: adversarial wires lie on the curve (F_37)");
    h!(hs, "P04", simple_complete, Fp, "endo, negate, conditional_endo, conditional_negate: honest");
    h!(hs, "P04", simple_complete, Fq, "the same over the other field");
    h!(hs, "P04", simple_sound, T13, "endo, negate, conditional_endo, conditional_negate: adversarial wires (F_13)");
    h!(hs, "P04", group_complete, Fp, "double, add_incomplete, double_and_add_incomplete: honest, against the textbook formulas, exceptional cases refused");
    h!(hs, "P04", group_complete, T13, "the same over F_13");
    h!(hs, "P04", group_sound, T7, "double, add_incomplete, double_and_add_incomplete: adversarial wires (F_7)");
    h!(hs, "P04", group_sound, T13, "double, add_incomplete, double_and_add_incomplete: adversarial wires (F_13)");
    h!(hs, "P04", stays_on_curve, T13, "results of every operation lie on the curve (F_13, group of order 19)");
}
