//! The circuits that scale and add points.
use crate::hx_e2e::Nst;
use crate::hx_util::*;
use crate::internal::endoscalar::*;
use group::Group;
use group::prime::PrimeCurveAffine;
use pasta_curves::Fq;
use pasta_curves::curve::Aff;
use ragu_arithmetic::{CurveAffine, Uendo};
use ragu_circuits::Circuit as _;
use ragu_circuits::polynomials::ProductionRank as Rb;
use ragu_circuits::staging::MultiStage;

type Pt<F> = Aff<Nst<F>, Fq>;
fn pt<F: HF>(k: u64) -> Pt<F> {
    Pt::<F>::from(Pt::<F>::generator() * Fq::from(k * k * 1009 + 3 * k + 5))
}
fn xy<F: HF>(p: Pt<F>) -> [F; 2] {
    let c = p.coordinates().unwrap();
    [*c.x(), *c.y()]
}
fn patterns() -> Vec<Uendo> {
    // bit by bit: little endian
    let of = |f: &dyn Fn(u32) -> bool| {
        let one = Uendo::from(1u64);
        (0..Uendo::BITS).filter(|i| f(*i)).fold(Uendo::from(0u64), |s, i| s | (one << i as usize))
    };
    vec![of(&|i| i % 3 == 0), of(&|i| (i * i + i / 7) % 5 < 2), of(&|_| true)]
}
fn bits(e: Uendo) -> Vec<bool> {
    let one = Uendo::from(1u64);
    (0..Uendo::BITS).map(|i| (e >> i as usize) & one == one).collect()
}
/// Step k of a run over N points: starts from the point it is to start from, and ends where scaling and adding its
/// share of the inputs leads.
fn step<F: HF, M: RecMode, const N: usize>() {
    generic_position();
    let steps = (N - 1).div_ceil(4);
    let k = choose(steps);
    let e = patterns()[choose(3)];
    let s: Fq = ragu_primitives::lift_endoscalar(e);
    let pts: Vec<Pt<F>> = (0..N as u64).map(|i| pt::<F>(i + 1)).collect();
    let range = 4 * k..(4 * k + 4).min(N - 1);
    // interstitial points need not be those of an honest run, but for the last
    let w = PointsWitness::<Pt<F>, N>::new(e, &pts);
    let start = if k == 0 { pts[0] } else if M::WITNESS { w.interstitials[k - 1] } else { pt::<F>(50) };
    let end: Pt<F> = pts[1..][range].iter().fold(start.to_curve(), |a, p| a * s + p).into();
    let mut d = Rec::<F, M>::new();
    let c = MultiStage::<F, Rb, _>::new(EndoscalingStep::<Pt<F>, Rb, N>::new(k));
    if M::WITNESS {
        let (w, e) = (&*Box::leak(Box::new(w)), e);
        let r = |d: &mut Rec<F, M>| {
            c.witness(d, Rec::<F, M>::just(|| EndoscalingStepWitness { endoscalar: e, points: w })).unwrap().into_output();
        };
        let all: Vec<F> = bits(e).into_iter().map(bit).chain(pts.iter().chain(w.interstitials.iter()).flat_map(|p| xy::<F>(*p))).collect();
        d.preset.extend(all);
        r(&mut d);
        d.prove_satisfied("constraints");
        prove_eqs("end point", &xy::<F>(w.interstitials[k]), &xy::<F>(end));
        return;
    }
    // the wires of the stages, in order; those of the end point are left open
    let mut vals: Vec<F> = bits(e).into_iter().map(bit).collect();
    vals.extend(pts.iter().flat_map(|p| xy::<F>(*p)));
    vals.extend((0..steps).flat_map(|i| xy::<F>(if i + 1 == k { start } else { pt::<F>(60 + i as u64) })));
    d.fixed.extend(vals.into_iter().enumerate());
    let at = Uendo::BITS as usize + 2 * (N + k);
    d.fixed.remove(&at);
    d.fixed.remove(&(at + 1));
    c.witness(&mut d, Rec::<F, M>::just(|| unreachable!())).unwrap().into_output();
    let got = [d.alloc_log[at].val, d.alloc_log[at + 1].val];
    prove_eqs("end point", &got, &xy::<F>(end));
}

fn step6<F: HF, M: RecMode>() {
    step::<F, M, 6>()
}
fn step5<F: HF, M: RecMode>() {
    step::<F, M, 5>()
}
fn step2<F: HF, M: RecMode>() {
    step::<F, M, 2>()
}
fn step10<F: HF, M: RecMode>() {
    step::<F, M, 10>()
}
both!(step2, step2_honest, step2_sound);
both!(step5, step5_honest, step5_sound);
both!(step6, step6_honest, step6_sound);
both!(step10, step10_honest, step10_sound);
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q09", step2_honest, Fp, "one input: honest");
    h!(hs, "Q09", step2_sound, Fp, "one input: the end point is forced");
    h!(hs, "Q09", step5_honest, Fp, "one full step: honest");
    h!(hs, "Q09", step5_sound, Fp, "one full step: the end point is forced");
    h!(hs, "Q09", step6_honest, Fp, "a full step and a partial one: honest");
    h!(hs, "Q09", step6_sound, Fp, "a full step and a partial one: the end point is forced");
    h!(hs, "Q09", step10_honest, Fp, "three steps: honest");
    h!(hs, "Q09", step10_sound, Fp, "three steps: the end point is forced", 20000, 1);
}
