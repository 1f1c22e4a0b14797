use crate::prog::*;
use crate::util::*;
use crate::wiring::*;
use ragu_circuits::polynomials::sparse::Polynomial;
use ragu_circuits::polynomials::Rank;
use ragu_circuits::registry::{CircuitIndex, RegistryBuilder};
use ragu_circuits::staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder, StageExt};
use ragu_circuits::{Circuit, CircuitExt, WithAux};
use ragu_core::gadgets::{Bound, Kind};
use ragu_primitives::io::Write;

type P<F> = Polynomial<F, R>;
pub fn coeffs<F: HF>(p: &P<F>) -> Vec<F> {
    p.iter_coeffs().collect()
}
fn ops<F: HF>(n: usize) -> Vec<Op<F>> {
    // distinguishable circuits
    let k = |s: &str| arb(format!("k{n}{s}"));
    let v = F::var(&format!("v{n}"));
    match n % 3 {
        0 => vec![Op::Alloc(v), Op::Zero(0, 1, k("a"), k("b"), k("c"))],
        1 => vec![Op::Gate([v, v, v, v]), Op::Zero(1, 3, k("a"), k("b"), k("c")), Op::Alloc(v)],
        _ => vec![Op::Call { body: vec![Op::Alloc(v), Op::Zero(0, 1, k("a"), Coeff::Two, k("c"))], known: true }],
    }
}
/// Up to five circuits of every sort, and the interpolation of their wiring polynomials.
pub fn interpolation<F: HF>() {
    opaque_bytes();
    generic_position();
    let total = 1 + choose(5);
    let (x, y) = (F::var("x"), F::var("y"));
    let mut b = RegistryBuilder::<F, R>::new();
    // what they are registered as, in order of registration
    let start = choose(4);
    let kinds: Vec<usize> = (0..total).map(|i| (start + 3 * i) % 4).collect();
    let mut groups: [Vec<usize>; 4] = Default::default();
    let progs: Vec<_> = (0..total).map(|i| Prog::<F, 1> { ops: ops(i) }).collect();
    for (i, k) in kinds.iter().enumerate() {
        let p = progs[i].clone();
        b = match k {
            0 => b.register_internal_circuit(p).unwrap(),
            1 => b.register_bonding(Bond { n: i, wrong: 0, m: PhantomData }.object().unwrap()),
            2 => b.register_internal_step(p).unwrap(),
            _ => b.register_circuit(p).unwrap(),
        };
        groups[*k].push(i);
    }
    check("numbers", b.num_circuits() == total && b.num_internal_circuits() == groups[0].len() + groups[1].len());
    let log2 = b.log2_circuits();
    check("domain", 1usize << log2 >= total && (log2 == 0 || 1usize << (log2 - 1) < total));
    let r = b.finalize().unwrap();
    check("all there", r.num_circuits() == total);
    let n4 = R::num_coeffs() as u64;
    let key = r.digest() * (x * y).pow_vartime([n4 - 1]);
    let (one, wire) = slot(x);
    let mut order = vec![];
    for (k, g) in groups.iter().enumerate() {
        for &i in g {
            order.push(if k == 1 { Bond { n: i, wrong: 0, m: PhantomData }.meaning(x, y) } else { poly(&formal(&progs[i], one, wire.clone()).all_cons(), y) });
        }
    }
    let full = r.xy(x, y);
    for i in 0..1usize << log2 {
        let ix = CircuitIndex::new(i);
        check("conversions", usize::from(ix) == i && CircuitIndex::from_u32(i as u32) == ix);
        let s = order.get(i).copied().unwrap_or(F::ZERO) + key;
        check("in the domain", r.circuit_in_domain(ix));
        let w: F = ix.omega_j();
        prove_eq("the i-th circuit is at its point", r.circuit_xy(ix, x, y), s);
        prove_eq("as a polynomial in X", r.circuit_y(ix, y).eval(x), s);
        prove_eq("as a polynomial in Y", r.wx(w, x).eval(y), s);
        prove_eq("as a polynomial in W", full.eval(w), s);
        for j in 0..i {
            check("points differ", CircuitIndex::new(j).omega_j::<F>() != w);
        }
    }
    for i in [1usize << log2, 5 + (1 << log2), 1 << 20] {
        check("not in the domain", !r.circuit_in_domain(CircuitIndex::new(i)));
    }
    // anywhere else
    let w = F::var("w");
    let v = full.eval(w);
    prove_eq("between the points, at (x, y)", r.wxy(w, x, y), v);
    prove_eq("between the points, in X", r.wy(w, y).eval(x), v);
    prove_eq("between the points, in Y", r.wx(w, x).eval(y), v);
    let at = r.at(w);
    prove_eqs("cached", &[at.xy(x, y), at.y(y).eval(x), at.x(x).eval(y)], &[v, v, v]);
    // of low degree in W
    let c = coeffs(&full);
    prove_eqs("degree in W", &c[1 << log2..], &vec![F::ZERO; c.len() - (1 << log2)]);
}

// ---------------------------------------------------------------- stages

pub type Vk<F, const N: usize> = FixedVec<PhantomData<Kind![F; Element<'_, _>]>, ConstLen<N>>;
macro_rules! stage {
    ($name:ident, $parent:ty, $values:expr, $used:expr) => {
        #[derive(Clone, Default)]
        pub struct $name;
        impl<F: HF> Stage<F, R> for $name {
            type Parent = $parent;
            type Witness<'s> = Vec<F>;
            type OutputKind = Vk<F, $used>;
            fn values() -> usize {
                $values
            }
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, witness: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::OutputKind>> {
                FixedVec::try_from_fn(|i| Element::alloc(dr, witness.as_ref().map(|v| v[i])))
            }
        }
    };
}
stage!(S1, (), 3, 3);
stage!(S2, S1, 4, 3);
stage!(S3, S2, 5, 5);
stage!(Over, S1, 3, 4);
stage!(Wide, S1, 70, 1);
const STAGES: [(usize, usize, usize); 3] = [(1, 2, 3), (3, 2, 3), (5, 3, 5)];

/// A stage's polynomial holds its values in its own gates and nothing else; its mask covers everything else.
pub fn stages<F: HF>() {
    opaque_bytes();
    generic_position();
    let (n, n4) = (R::n(), R::num_coeffs());
    let k = choose(3);
    let (skip, gates, used) = STAGES[k];
    let alpha = F::var("alpha");
    let v = vars::<F>("v", used);
    fn all<F: HF, S: Stage<F, R> + Default>() -> (usize, usize) {
        (S::skip_gates(), <S as StageExt<F, R>>::num_gates())
    }
    let shape = match k {
        0 => all::<F, S1>(),
        1 => all::<F, S2>(),
        _ => all::<F, S3>(),
    };
    check("where the stage is", shape == (skip, gates));
    let rx = match k {
        0 => <S1 as StageExt<F, R>>::rx(alpha, v.clone()),
        1 => <S2 as StageExt<F, R>>::rx(alpha, v.clone()),
        _ => S3.rx_configured(alpha, v.clone()),
    }
    .unwrap();
    let mut want = vec![F::ZERO; n4];
    want[4 * n - 1] = alpha;
    for (i, x) in v.iter().enumerate() {
        let g = skip + i / 2;
        want[if i % 2 == 0 { 2 * n - 1 - g } else { 4 * n - 1 - g }] = *x;
    }
    prove_eqs("values in their places", &coeffs(&rx), &want);
    for i in 0..gates {
        let g = match k {
            0 => <S1 as StageExt<F, R>>::generator_index_for_b(i),
            1 => <S2 as StageExt<F, R>>::generator_index_for_b(i),
            _ => <S3 as StageExt<F, R>>::generator_index_for_b(i),
        };
        check("generator of a value", g == 2 * n - 1 - skip - i);
    }
    // the masks
    let last = choose_bool();
    let mask = match (k, last) {
        (0, false) => <S1 as StageExt<F, R>>::mask(),
        (1, false) => <S2 as StageExt<F, R>>::mask(),
        (_, false) => <S3 as StageExt<F, R>>::mask(),
        (0, _) => <S1 as StageExt<F, R>>::final_mask(),
        (1, _) => <S2 as StageExt<F, R>>::final_mask(),
        _ => <S3 as StageExt<F, R>>::final_mask(),
    }
    .unwrap();
    let r = RegistryBuilder::<F, R>::new().register_bonding(mask).finalize().unwrap();
    let i = CircuitIndex::new(0);
    check("counts", r.constraint_counts(i) == (n, 4 * n - 1));
    let inside = |g: usize| g == 0 || if last { g >= skip + gates } else { (skip..skip + gates).contains(&g) };
    let (x, y) = match choose(3) {
        0 => (F::var("x"), F::var("y")),
        1 => (F::ZERO, F::var("y")),
        _ => (F::var("x"), F::ZERO),
    };
    let zero = |f: F| f.key() == F::ZERO.key();
    let key = |x: F| if zero(x) { F::ZERO } else { r.digest() * x.pow_vartime([n4 as u64 - 1]) };
    let poly_of = |x: F| {
        let mut w = vec![F::ZERO; n4];
        for g in 0..n {
            for j in [g, 2 * n - 1 - g, 2 * n + g, 4 * n - 1 - g] {
                if !inside(g) && !zero(x) {
                    w[j] = x.pow_vartime([j as u64]);
                }
            }
        }
        w
    };
    let mut want = poly_of(y);
    want[n4 - 1] += key(y);
    prove_eqs("mask in X", &coeffs(&r.circuit_y(i, y)), &want);
    let mut want = poly_of(x);
    want[n4 - 1] += key(x);
    prove_eqs("mask in Y", &coeffs(&r.wx(i.omega_j(), x)), &want);
    prove_eq("mask at (x, y)", r.circuit_xy(i, x, y), if zero(y) { F::ZERO } else { poly(&poly_of(x), y) + key(x * y) });
    if !last {
        prove_eq("the stage passes its mask", rx.revdot(&r.circuit_y(i, y)), F::ZERO);
    }
}
pub fn stage_errors<F: HF>() {
    let v = vars::<F>("v", 4);
    let e = Over.rx_configured(F::ONE, v);
    check("too many values", matches!(e, Err(ragu_core::Error::GateBoundExceeded { limit: 2 })));
    check("no room", matches!(<Wide as StageExt<F, R>>::mask(), Err(ragu_core::Error::GateBoundExceeded { limit: 32 })));
    check("no room at the end", matches!(<Wide as StageExt<F, R>>::final_mask(), Err(ragu_core::Error::GateBoundExceeded { limit: 32 })));
    check("room", <S3 as StageExt<F, R>>::mask().is_ok());
    let m = MultiStage::<F, R, _>::new(Multi { over: true, k: vec![], m: PhantomData });
    let e = m.trace(vec![vec![F::ONE; 3], vec![F::ONE; 4]]);
    check("too many values in a circuit", matches!(e, Err(ragu_core::Error::GateBoundExceeded { limit: 2 })));
}
/// Constrains values of all three stages together.
#[derive(Clone)]
pub struct Multi<F: HF> {
    over: bool,
    k: Vec<F>,
    m: PhantomData<F>,
}
fn dot<'dr, F: HF, D: Driver<'dr, F = F>>(d: &mut D, k: &[F], e: &[Element<'dr, D>]) -> Element<'dr, D> {
    let w = d.add(|l| e.iter().zip(k).fold(l, |l, (e, k)| l.add_term(e.wire(), Coeff::Arbitrary(*k))));
    let v: Vec<_> = e.iter().map(|e| e.value()).collect();
    let s = D::just(|| v.into_iter().zip(k).fold(F::ZERO, |s, (v, k)| s + *v.take() * *k));
    Element::promote(w, s)
}
impl<F: HF> MultiStageCircuit<F, R> for Multi<F> {
    type Last = S3;
    type Instance<'s> = F;
    type Witness<'s> = Vec<Vec<F>>;
    type Output = Kind![F; Element<'_, _>];
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, instance: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, instance)
    }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: StageBuilder<'a, 'dr, D, R, (), S3>,
        witness: DriverValue<D, Vec<Vec<F>>>,
    ) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        let part = |i: usize| witness.as_ref().map(|w| w[i].clone());
        let (g1, dr) = dr.add_stage::<S1>()?;
        if self.over {
            dr.configure_stage(Over)?;
            unreachable!()
        }
        let (g2, dr) = dr.configure_stage(S2)?;
        let (g3, dr) = dr.add_stage::<S3>()?;
        let d = dr.finish();
        let a = g1.unenforced(d, part(0))?;
        let b = g2.enforced(d, part(1))?;
        let c = g3.unenforced(d, part(2))?;
        let (p, q, s) = (dot(d, &self.k, &a), dot(d, &self.k, &b), dot(d, &self.k, &c));
        let m = p.mul(d, &q)?;
        Ok(WithAux::new(m.add(d, &s), D::unit()))
    }
}
/// The circuit's own trace leaves the stages empty; together with the stages' polynomials it satisfies the circuit,
/// whatever values the stages hold.
pub fn multistage<F: HF>() {
    opaque_bytes();
    generic_position();
    let n = R::n();
    let k = vars::<F>("k", 5);
    let v: Vec<Vec<F>> = STAGES.iter().enumerate().map(|(i, s)| vars::<F>(&format!("v{i}x"), s.2)).collect();
    let multi = MultiStage::<F, R, _>::new(Multi { over: false, k: k.clone(), m: PhantomData });
    let final_mask = multi.final_mask().unwrap();
    let r = RegistryBuilder::<F, R>::new().register_circuit(multi.clone()).unwrap().register_bonding(final_mask).finalize().unwrap();
    let (mi, ci) = (CircuitIndex::new(0), CircuitIndex::new(1));
    let t = multi.trace(v.clone()).unwrap().into_output();
    let own = r.assemble_with_alpha(&t, ci, F::var("alpha")).unwrap();
    let c = coeffs(&own);
    for g in 1..8 {
        prove_eqs("no stage values in the circuit's own trace", &[c[g], c[2 * n - 1 - g], c[2 * n + g], c[4 * n - 1 - g]], &[F::ZERO; 4]);
    }
    let (y, z) = (F::var("y"), F::var("z"));
    prove_eq("the trace passes the final mask", own.revdot(&r.circuit_y(mi, y)), F::ZERO);
    let mut sum = own;
    sum.add_assign(&<S1 as StageExt<F, R>>::rx(F::var("b1"), v[0].clone()).unwrap());
    sum.add_assign(&<S2 as StageExt<F, R>>::rx(F::var("b2"), v[1].clone()).unwrap());
    sum.add_assign(&<S3 as StageExt<F, R>>::rx(F::var("b3"), v[2].clone()).unwrap());
    let mut rhs = sum.clone();
    rhs.dilate(z);
    rhs.add_assign(&r.circuit_y(ci, y));
    rhs.add_assign(&R::tz(z));
    let dot = |v: &[F]| v.iter().zip(&k).fold(F::ZERO, |s, (a, b)| s + *a * *b);
    let out = dot(&v[0]) * dot(&v[1]) + dot(&v[2]);
    prove_eq("k(Y)", multi.ky(out, y).unwrap(), out * y + F::ONE);
    prove_eq("the sum satisfies the circuit", sum.revdot(&rhs), out * y + F::ONE);
}

// ---------------------------------------------------------------- bonding

/// A circuit of constraints between stage values only; or one breaking a rule.
#[derive(Clone)]
pub struct Bond<F> {
    n: usize,
    wrong: usize,
    m: PhantomData<F>,
}
impl<F: HF> Bond<F> {
    fn object(self) -> Result<ragu_circuits::BondingObject<'static, F, R>> {
        MultiStage::<F, R, _>::new(self).into_bonding_object()
    }
    fn k(&self) -> [F; 3] {
        [0, 1, 2].map(|i| F::from((7 + 10 * self.n + i) as u64))
    }
    /// s(x, y), with the constant wire's constraint left out
    fn meaning(&self, x: F, y: F) -> F {
        let k = self.k();
        let (_, w) = slot(x);
        // wires: (b1, d1, b2)
        let e = [w(1, 1), w(1, 3), w(2, 1)];
        let first = k[0] * e[0] + k[1] * e[1];
        let second = e[2] * k[2] - e[0];
        (first * y + second) * y
    }
}
impl<F: HF> MultiStageCircuit<F, R> for Bond<F> {
    type Last = S1;
    type Instance<'s> = ();
    type Witness<'s> = ();
    type Output = ();
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<()> {
        Ok(())
    }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: StageBuilder<'a, 'dr, D, R, (), S1>,
        _: DriverValue<D, ()>,
    ) -> Result<WithAux<(), DriverValue<D, ()>>> {
        let k = self.k().map(Coeff::Arbitrary);
        let (g, dr) = dr.add_stage::<S1>()?;
        let d = dr.finish();
        let e = g.unenforced(d, D::just(|| vec![F::ZERO; 3]))?;
        d.enforce_zero(|l| l.add_term(e[0].wire(), k[0]).add_term(e[1].wire(), k[1]))?;
        match self.wrong {
            1 => drop(d.mul(|| unreachable!())?),
            2 => drop(d.gate(|| unreachable!())?),
            3 => drop(d.constant(Coeff::Two)),
            4 => drop(d.add(|l| l.add(e[0].wire()).gain(Coeff::Two).add(&D::ONE))),
            5 => d.enforce_zero(|l| l.sub(&D::ONE).add(e[1].wire()))?,
            6 => d.enforce_equal(&D::ONE, e[0].wire())?,
            7 => drop(d.routine(Ro2 { gate: true }, ())?),
            _ => {}
        }
        let t = d.add(|l| l.add_term(e[2].wire(), k[2]).sub(e[0].wire()));
        if self.wrong == 8 {
            d.routine(Ro2 { gate: false }, ())?;
        }
        d.enforce_zero(|l| l.add(&t))?;
        Ok(WithAux::new((), D::unit()))
    }
}
#[derive(Clone)]
struct Ro2 {
    gate: bool,
}
impl<F: HF> ragu_core::routines::Routine<F> for Ro2 {
    type Input = ();
    type Output = ();
    type Aux<'dr> = ();
    fn execute<'dr, D: Driver<'dr, F = F>>(&self, d: &mut D, _: (), _: DriverValue<D, ()>) -> Result<()> {
        if self.gate {
            d.mul(|| unreachable!())?;
        } else {
            d.enforce_zero(|l| l.add(&D::ONE))?;
        }
        Ok(())
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(&self, _: &mut D, _: &()) -> Result<ragu_core::routines::Prediction<(), DriverValue<D, ()>>> {
        Ok(ragu_core::routines::Prediction::Unknown(D::unit()))
    }
}
pub fn bonding<F: HF>() {
    opaque_bytes();
    generic_position();
    let wrong = choose(9);
    let b = Bond { n: 3, wrong, m: PhantomData::<F> };
    let o = b.clone().object();
    if wrong > 0 {
        check("refused", matches!(o, Err(ragu_core::Error::InvalidWitness(_))));
        return;
    }
    let r = RegistryBuilder::<F, R>::new().register_bonding(o.ok().unwrap()).finalize().unwrap();
    let i = CircuitIndex::new(0);
    check("counts", r.constraint_counts(i) == (3, 2));
    let n4 = R::num_coeffs() as u64;
    let (x, y) = match choose(3) {
        0 => (F::var("x"), F::var("y")),
        1 => (F::ZERO, F::var("y")),
        _ => (F::var("x"), F::ZERO),
    };
    let zero = x.key() == F::ZERO.key();
    let s = if zero { F::ZERO } else { b.meaning(x, y) } + r.digest() * (x * y).pow_vartime([n4 - 1]);
    prove_eq("s(x, y)", r.circuit_xy(i, x, y), s);
    prove_eq("s(x, Y) at y", r.wx(i.omega_j(), x).eval(y), s);
    prove_eq("s(X, y) at x", r.circuit_y(i, y).eval(x), s);
    // on any polynomial: the constraints and nothing about the constant wire
    let all: Vec<F> = vars("r", n4 as usize);
    let p = P::from_coeffs(all.clone());
    let n = R::n();
    let k = b.k();
    let (b1, d1, b2) = (all[2 * n - 2], all[4 * n - 2], all[2 * n - 3]);
    let says = ((k[0] * b1 + k[1] * d1) * y + (k[2] * b2 - b1)) * y;
    prove_eq("what it says of any trace", p.revdot(&r.circuit_y(i, y)), says + r.digest() * y.pow_vartime([n4 - 1]) * all[0]);
}

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "R05", interpolation, Fp, "registries of one to five circuits");
    h!(hs, "R06", stages, Fp, "three chained stages and their masks");
    h!(hs, "R06", stage_errors, Fp, "stages that do not fit");
    h!(hs, "R06", multistage, Fp, "a circuit over three stages");
    h!(hs, "R07", bonding, Fp, "bonding circuits and circuits that are none");
}
