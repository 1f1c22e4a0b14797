//! The whole of it: proofs made by the prover, at the production rank and with the real circuits, are accepted.
use crate::header::Header;
use crate::hx_cycle::{Pos, fixed};
use crate::hx_hdr::*;
use crate::hx_util::*;
use crate::hx_ver::HS;
use group::Group;
use group::prime::PrimeCurveAffine;
use pasta_curves::{Fp, Fq};
use pasta_curves::curve::{Aff, CurveParams};
use ragu_arithmetic::{Cycle, FixedGenerators};
use crate::step::{Encoded, Index, Step};
use crate::*;
use ragu_circuits::polynomials::ProductionRank as Rb;
use ragu_core::gadgets::{Bound, Kind};

/// The curve over the circuit field and the one over the scalar field; the scalar field is never symbolic.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Nst<F>(PhantomData<F>);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Hst<F>(PhantomData<F>);
impl<F: HF> CurveParams for Nst<F> {
    type Base = F;
    type Scalar = Fq;
    const ID: &'static str = "nst";
    fn b() -> F {
        F::from(5)
    }
    fn r#gen() -> (F, F) {
        (-F::ONE, F::from(2))
    }
}
impl<F: HF> CurveParams for Hst<F> {
    type Base = Fq;
    type Scalar = F;
    const ID: &'static str = "hst";
    fn b() -> Fq {
        Fq::from(5)
    }
    fn r#gen() -> (Fq, Fq) {
        (-Fq::from(1), Fq::from(2))
    }
}
pub struct Gn<C: CurveAffine>(Vec<C>, C);
impl<C: CurveAffine> FixedGenerators<C> for Gn<C> {
    fn g(&self) -> &[C] {
        &self.0
    }
    fn h(&self) -> &C {
        &self.1
    }
}
fn gens<C: CurveAffine>() -> Gn<C> {
    let g = C::generator();
    let mut p = g.to_curve();
    let mut v = vec![];
    for _ in 0..8192 {
        v.push(C::from(p));
        p += g;
    }
    Gn(v, g)
}
/// The real cycle, with a small permutation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Pc<F>(PhantomData<F>);
pub struct Prm<F: HF> {
    n: Gn<Aff<Nst<F>, Fq>>,
    h: Gn<Aff<Hst<F>, F>>,
    pos: Pos<F>,
    poq: Pos<Fq>,
}
impl<F: HF> Cycle for Pc<F> {
    type CircuitField = F;
    type ScalarField = Fq;
    type NestedCurve = Aff<Nst<F>, Fq>;
    type HostCurve = Aff<Hst<F>, F>;
    type NestedGenerators = Gn<Self::NestedCurve>;
    type HostGenerators = Gn<Self::HostCurve>;
    type CircuitPoseidon = Pos<F>;
    type ScalarPoseidon = Pos<Fq>;
    type Params = Prm<F>;
    fn nested_generators(p: &Self::Params) -> &Self::NestedGenerators {
        &p.n
    }
    fn host_generators(p: &Self::Params) -> &Self::HostGenerators {
        &p.h
    }
    fn circuit_poseidon(p: &Self::Params) -> &Pos<F> {
        &p.pos
    }
    fn scalar_poseidon(p: &Self::Params) -> &Pos<Fq> {
        &p.poq
    }
    fn generate() -> Prm<F> {
        Prm { n: gens(), h: gens(), pos: fixed(), poq: fixed() }
    }
}
/// Randomness that depends on nothing.
struct Ctr(u64);
impl rand::TryRng for Ctr {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> core::result::Result<u32, Self::Error> {
        Ok(rand::TryRng::try_next_u64(self)? as u32)
    }
    fn try_next_u64(&mut self) -> core::result::Result<u64, Self::Error> {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        Ok(self.0 ^ (self.0 >> 29))
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> core::result::Result<(), Self::Error> {
        for c in b.iter_mut() {
            *c = (rand::TryRng::try_next_u64(self)? >> 32) as u8;
        }
        Ok(())
    }
}
impl rand::TryCryptoRng for Ctr {}

/// Makes a header out of a witness.
pub struct Leaf;
impl<F: HF> Step<Pc<F>> for Leaf {
    const INDEX: Index = Index::new(0);
    type Witness<'s> = F;
    type Aux<'s> = ();
    type Left = ();
    type Right = ();
    type Output = H1;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>, const HS: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, F>,
        l: DriverValue<D, ()>,
        r: DriverValue<D, ()>,
    ) -> RResult<((Encoded<'dr, D, (), HS>, Encoded<'dr, D, (), HS>, Encoded<'dr, D, H1, HS>), DriverValue<D, F>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let l = Encoded::new(dr, l)?;
        let r = Encoded::new(dr, r)?;
        let d = D::just(|| *w.snag());
        let o = Encoded::new(dr, w)?;
        Ok(((l, r, o), d, D::unit()))
    }
}
/// The product of two headers.
pub struct Merge;
impl<F: HF> Step<Pc<F>> for Merge {
    const INDEX: Index = Index::new(1);
    type Witness<'s> = ();
    type Aux<'s> = ();
    type Left = H1;
    type Right = H1;
    type Output = H1;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>, const HS: usize>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
        l: DriverValue<D, F>,
        r: DriverValue<D, F>,
    ) -> RResult<((Encoded<'dr, D, H1, HS>, Encoded<'dr, D, H1, HS>, Encoded<'dr, D, H1, HS>), DriverValue<D, F>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let l: Encoded<'dr, D, H1, HS> = Encoded::new(dr, l)?;
        let r: Encoded<'dr, D, H1, HS> = Encoded::new(dr, r)?;
        let o = l.as_gadget().mul(dr, r.as_gadget())?;
        let d = o.value().map(|v| *v);
        Ok(((l, r, Encoded::from_gadget(o)), d, D::unit()))
    }
}
/// Knows a square root of its left input; whether it does, and whatever bit, is passed on.
pub struct Root;
impl<F: HF> Step<Pc<F>> for Root {
    const INDEX: Index = Index::new(2);
    type Witness<'s> = (F, bool);
    type Aux<'s> = F;
    type Left = H1;
    type Right = ();
    type Output = H2;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>, const HS: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, (F, bool)>,
        l: DriverValue<D, F>,
        r: DriverValue<D, ()>,
    ) -> RResult<((Encoded<'dr, D, H1, HS>, Encoded<'dr, D, (), HS>, Encoded<'dr, D, H2, HS>), DriverValue<D, (F, bool)>, DriverValue<D, F>)>
    where
        Self: 'dr,
    {
        let l: Encoded<'dr, D, H1, HS> = Encoded::new(dr, l)?;
        let r = Encoded::new(dr, r)?;
        let root = w.as_ref().map(|w| w.0);
        let e = Element::alloc(dr, root.as_ref().map(|v| *v))?;
        let sq = e.square(dr)?;
        dr.enforce_equal(sq.wire(), l.as_gadget().wire())?;
        let data = w.as_ref().map(|w| *w);
        let o: Encoded<'dr, D, H2, HS> = Encoded::new(dr, w)?;
        Ok(((l, r, o), data, root))
    }
}
/// As H1, under another name.
pub struct H4;
impl<F: HF> Header<F> for H4 {
    const SUFFIX: crate::header::Suffix = crate::header::Suffix::new(8);
    type Data = F;
    type Output = Kind![F; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, F>) -> RResult<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
type Ap<F> = Application<'static, Pc<F>, Rb, HS>;
fn application<F: HF>() -> Ap<F> {
    opaque_bytes();
    given_randomness();
    generic_position();
    let p: &'static Prm<F> = Box::leak(Box::new(Pc::<F>::generate()));
    ApplicationBuilder::new().register(Leaf).unwrap().register(Merge).unwrap().register(Root).unwrap().finalize(p).unwrap()
}
fn leaf<F: HF>(app: &Ap<F>, rng: &mut Ctr, w: F) -> Pcd<Pc<F>, Rb, H1> {
    app.seed(rng, Leaf, w).unwrap().0
}
fn merge<F: HF>(app: &Ap<F>, rng: &mut Ctr, l: Pcd<Pc<F>, Rb, H1>, r: Pcd<Pc<F>, Rb, H1>) -> Pcd<Pc<F>, Rb, H1> {
    app.fuse(rng, Merge, (), l, r).unwrap().0
}
fn accepts<F: HF, H: Header<F>>(app: &Ap<F>, p: &Pcd<Pc<F>, Rb, H>) -> bool {
    app.verify(p, Ctr(99)).unwrap()
}
/// Every commitment in a proof opens to the polynomial next to it, every registry polynomial is the registry's.
fn parts<F: HF, H: Header<F>>(app: &Ap<F>, p: &Pcd<Pc<F>, Rb, H>, x: [F; 2]) {
    let p = p.proof();
    let (h, n) = (&app.params.h, &app.params.n);
    macro_rules! opens {
        ($($g:ident $name:literal $po:expr, $co:expr;)*) => { $( check(concat!("commitment: ", $name), $po.commit_to_affine($g) == $co); )* };
    }
    opens!(
        h "application" p.application.rx_triple.rx, p.application.rx_triple.commitment;
        h "hashes_1" p.circuits.hashes_1.rx, p.circuits.hashes_1.commitment;
        h "hashes_2" p.circuits.hashes_2.rx, p.circuits.hashes_2.commitment;
        h "inner_collapse" p.circuits.inner_collapse.rx, p.circuits.inner_collapse.commitment;
        h "outer_collapse" p.circuits.outer_collapse.rx, p.circuits.outer_collapse.commitment;
        h "compute_v" p.circuits.compute_v.rx, p.circuits.compute_v.commitment;
        h "preamble" p.preamble.native.rx, p.preamble.native.commitment;
        h "inner_error" p.inner_error.native.rx_triple.rx, p.inner_error.native.rx_triple.commitment;
        h "outer_error" p.outer_error.native.rx, p.outer_error.native.commitment;
        h "query" p.query.native.rx_triple.rx, p.query.native.rx_triple.commitment;
        h "eval" p.eval.native.rx, p.eval.native.commitment;
        h "a" p.ab.native.a_poly, p.ab.native.a_commitment;
        h "b" p.ab.native.b_poly, p.ab.native.b_commitment;
        h "registry wx0" p.s_prime.native.registry_wx0_poly, p.s_prime.native.registry_wx0_commitment;
        h "registry wx1" p.s_prime.native.registry_wx1_poly, p.s_prime.native.registry_wx1_commitment;
        h "registry wy" p.inner_error.native.registry_wy_poly, p.inner_error.native.registry_wy_commitment;
        h "registry xy" p.query.native.registry_xy_poly, p.query.native.registry_xy_commitment;
        h "f" p.f.native.poly, p.f.native.commitment;
        h "p" p.p.native.poly, p.p.native.commitment;
        n "preamble bridge" p.preamble.bridge.rx, p.preamble.bridge.commitment;
        n "s_prime bridge" p.s_prime.bridge.rx, p.s_prime.bridge.commitment;
        n "inner_error bridge" p.inner_error.bridge.rx, p.inner_error.bridge.commitment;
        n "outer_error bridge" p.outer_error.bridge.rx, p.outer_error.bridge.commitment;
        n "ab bridge" p.ab.bridge.rx, p.ab.bridge.commitment;
        n "query bridge" p.query.bridge.rx, p.query.bridge.commitment;
        n "f bridge" p.f.bridge.rx, p.f.bridge.commitment;
        n "eval bridge" p.eval.bridge.rx, p.eval.bridge.commitment;
    );
    let c = &p.challenges;
    let (reg, t) = (&app.native_registry, F::from(0x1234_5678_9abc));
    prove_eq("registry (w, x of the left proof, Y)", p.s_prime.native.registry_wx0_poly.eval(t), reg.wxy(c.w, x[0], t));
    prove_eq("registry (w, x of the right proof, Y)", p.s_prime.native.registry_wx1_poly.eval(t), reg.wxy(c.w, x[1], t));
    prove_eq("registry (w, X, y)", p.inner_error.native.registry_wy_poly.eval(t), reg.wxy(c.w, t, c.y));
    prove_eq("registry (W, x, y)", p.query.native.registry_xy_poly.eval(t), reg.wxy(t, c.x, c.y));
    prove_eq("c = <a, b>", p.ab.native.c, p.ab.native.a_poly.revdot(&p.ab.native.b_poly));
    prove_eq("v = p(u)", p.p.native.v, p.p.native.poly.eval(c.u));
}
pub fn seeded<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let w = F::var("w");
    let l = leaf(&app, &mut rng, w);
    prove_eq("data", *l.data(), w);
    check("accepted", accepts(&app, &l));
    let l = app.rerandomize(l, &mut rng).unwrap();
    prove_eq("data after rerandomization", *l.data(), w);
    check("accepted after rerandomization", accepts(&app, &l));
}
pub fn fused<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let (w, v) = (F::var("w"), F::var("v"));
    let (l, r) = (leaf(&app, &mut rng, w), leaf(&app, &mut rng, v));
    let o = merge(&app, &mut rng, l, r);
    prove_eq("data", *o.data(), w * v);
    check("accepted", accepts(&app, &o));
}
pub fn first_parts<F: HF>() {
    let app = application::<F>();
    let l = leaf(&app, &mut Ctr(1), F::var("w"));
    let one = app.trivial_pcd().proof().challenges.x;
    parts(&app, &l, [one; 2]);
}
pub fn fused_parts<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let (l, r) = (leaf(&app, &mut rng, F::var("w")), leaf(&app, &mut rng, F::var("v")));
    let xs = [l.proof().challenges.x, r.proof().challenges.x];
    let o = merge(&app, &mut rng, l, r);
    parts(&app, &o, xs);
}
pub fn unlike_headers<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let w = F::var("w");
    let l = leaf(&app, &mut rng, w * w);
    let (t, ()) = app.seed(&mut rng, step::internal::trivial::Trivial::new(), ()).unwrap();
    let b = choose_bool();
    let (o, aux) = app.fuse(&mut rng, Root, (w, b), l, t).unwrap();
    prove_eq("data", o.data().0, w);
    check("data", o.data().1 == b);
    prove_eq("aux", aux, w);
    check("accepted", accepts(&app, &o));
}
/// One input is itself the result of a step.
fn deep<F: HF>(left: bool) {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let w = F::var("w");
    let k = |rng: &mut Ctr, k: u64| leaf(&app, rng, F::from(k));
    let (a, b, c) = (leaf(&app, &mut rng, w), k(&mut rng, 3), k(&mut rng, 4));
    let d = merge(&app, &mut rng, a, b);
    let o = if left { merge(&app, &mut rng, d, c) } else { merge(&app, &mut rng, c, d) };
    prove_eq("data", *o.data(), w * F::from(12));
    check("accepted", accepts(&app, &o));
}
pub fn deep_left<F: HF>() {
    deep::<F>(true)
}
pub fn deep_right<F: HF>() {
    deep::<F>(false)
}
/// Both are; then once more, and rerandomized.
pub fn deeper<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let w = F::var("w");
    let k = |rng: &mut Ctr, k: u64| leaf(&app, rng, F::from(k));
    let (a, b, c, d, e) = (leaf(&app, &mut rng, w), k(&mut rng, 3), k(&mut rng, 4), k(&mut rng, 5), k(&mut rng, 6));
    let (l, r) = (merge(&app, &mut rng, a, b), merge(&app, &mut rng, c, d));
    let o = merge(&app, &mut rng, l, r);
    check("accepted", accepts(&app, &o));
    let o = merge(&app, &mut rng, e, o);
    prove_eq("data", *o.data(), w * F::from(360));
    check("accepted, three levels", accepts(&app, &o));
    let o = app.rerandomize(o, &mut rng).unwrap();
    prove_eq("data", *o.data(), w * F::from(360));
    check("accepted after rerandomization", accepts(&app, &o));
}
type Pr<F> = crate::proof::Proof<Pc<F>, Rb>;
type Poly<F> = ragu_circuits::polynomials::sparse::Polynomial<F, Rb>;
/// What is altered, whether that shows when the proof is verified, whether it shows when it is used, and how.
type Tamper<F> = (String, bool, bool, Box<dyn Fn(&mut Pr<F>, F, &Prm<F>)>);
/// Adds to one coefficient.
fn bump<G: HF>(p: &mut Poly<G>, k: usize, e: G) {
    let mut v: Vec<G> = p.iter_coeffs().collect();
    v[k] += e;
    *p = Poly::from_coeffs(v);
}
fn tampers<F: HF>() -> Vec<Tamper<F>> {
    let mut o: Vec<Tamper<F>> = vec![];
    macro_rules! pair {
        ($name:literal, $at:expr, $($poly:ident).+, $($com:ident).+) => {
            for k in $at {
                o.push((format!("{} coefficient {k}", $name), true, true, Box::new(move |p, e, pr| { bump(&mut p.$($poly).+, k, e); p.$($com).+ = p.$($poly).+.commit_to_affine(&pr.h); })));
            }
            o.push((format!("{} commitment", $name), $name == "p", true, Box::new(|p, _, pr| p.$($com).+ = (pr.h.1 + p.$($com).+).into())));
        };
    }
    macro_rules! bridge {
        ($name:literal, $b:ident) => {
            for k in [1usize, 4100] {
                o.push((format!("{} bridge coefficient {k}", $name), true, true, Box::new(move |p, _, pr| { bump(&mut p.$b.bridge.rx, k, Fq::from(77)); p.$b.bridge.commitment = p.$b.bridge.rx.commit_to_affine(&pr.n); })));
            }
            o.push((format!("{} bridge commitment", $name), true, true, Box::new(|p, _, pr| p.$b.bridge.commitment = (pr.n.1 + p.$b.bridge.commitment).into())));
        };
    }
    macro_rules! scalar {
        ($name:literal, |$p:ident| $e:expr) => {
            o.push(($name.into(), true, true, Box::new(|$p, e, _| $e += e)));
        };
    }
    pair!("application", [1usize, 4098], application.rx_triple.rx, application.rx_triple.commitment);
    pair!("hashes_1", [1usize, 5, 4100, 8188], circuits.hashes_1.rx, circuits.hashes_1.commitment);
    pair!("hashes_2", [1usize, 5, 4100, 8188], circuits.hashes_2.rx, circuits.hashes_2.commitment);
    pair!("inner_collapse", [1usize, 5, 4100, 8188], circuits.inner_collapse.rx, circuits.inner_collapse.commitment);
    pair!("outer_collapse", [1usize, 5, 4100, 8188], circuits.outer_collapse.rx, circuits.outer_collapse.commitment);
    pair!("compute_v", [1usize, 5, 4100, 8188], circuits.compute_v.rx, circuits.compute_v.commitment);
    pair!("preamble", [1usize, 8188], preamble.native.rx, preamble.native.commitment);
    pair!("inner_error", [1usize, 8188], inner_error.native.rx_triple.rx, inner_error.native.rx_triple.commitment);
    pair!("outer_error", [1usize, 8188], outer_error.native.rx, outer_error.native.commitment);
    pair!("query", [1usize, 8188], query.native.rx_triple.rx, query.native.rx_triple.commitment);
    pair!("eval", [1usize, 8188], eval.native.rx, eval.native.commitment);
    pair!("a", [1usize, 5, 4100, 8188], ab.native.a_poly, ab.native.a_commitment);
    pair!("b", [8000usize, 8091], ab.native.b_poly, ab.native.b_commitment);
    pair!("registry_xy", [1usize, 5, 4100, 8188], query.native.registry_xy_poly, query.native.registry_xy_commitment);
    pair!("p", [1usize, 5, 4100, 8188], p.native.poly, p.native.commitment);
    bridge!("preamble", preamble);
    bridge!("s_prime", s_prime);
    bridge!("inner_error", inner_error);
    bridge!("outer_error", outer_error);
    bridge!("ab", ab);
    bridge!("query", query);
    bridge!("f", f);
    bridge!("eval", eval);
    scalar!("left header", |p| p.application.left_header[0]);
    scalar!("right header", |p| p.application.right_header[HS - 1]);
    o.push(("circuit id".into(), true, true, Box::new(|p, _, _| p.application.circuit_id = ragu_circuits::registry::CircuitIndex::new(17))));
    o.push(("circuit id of no circuit".into(), true, true, Box::new(|p, _, _| p.application.circuit_id = ragu_circuits::registry::CircuitIndex::new(5003))));
    o.push(("longer header".into(), true, true, Box::new(|p, _, _| p.application.left_header.push(F::ZERO))));
    o.push(("shorter header".into(), true, true, Box::new(|p, _, _| { p.application.right_header.pop(); })));
    scalar!("c", |p| p.ab.native.c);
    scalar!("v", |p| p.p.native.v);
    scalar!("w", |p| p.challenges.w);
    scalar!("y", |p| p.challenges.y);
    scalar!("z", |p| p.challenges.z);
    scalar!("mu", |p| p.challenges.mu);
    scalar!("nu", |p| p.challenges.nu);
    scalar!("mu_prime", |p| p.challenges.mu_prime);
    scalar!("nu_prime", |p| p.challenges.nu_prime);
    scalar!("x", |p| p.challenges.x);
    scalar!("alpha", |p| p.challenges.alpha);
    scalar!("u", |p| p.challenges.u);
    scalar!("pre_beta", |p| p.challenges.pre_beta);
    for k in [1usize, 4100] {
        for i in 0..9 {
            o.push((format!("endoscaling step {i} coefficient {k}"), true, false, Box::new(move |p, _, _| bump(&mut p.p.nested.step_rxs[i], k, Fq::from(77)))));
        }
    }
    for k in [1usize, 4090] {
        o.push((format!("endoscalar coefficient {k}"), true, false, Box::new(move |p, _, _| bump(&mut p.p.nested.endoscalar_rx, k, Fq::from(77)))));
    }
    for k in [1usize, 4010] {
        o.push((format!("points coefficient {k}"), true, false, Box::new(move |p, _, _| bump(&mut p.p.nested.points_rx, k, Fq::from(77)))));
    }
    o
}
const CHUNKS: usize = 8;
type Three<F> = (Ap<F>, Pcd<Pc<F>, Rb, H1>, Pcd<Pc<F>, Rb, H1>);
/// An application, a proof of a step over two first proofs and a first proof; made once, nothing in them is symbolic.
fn three<F: HF>() -> &'static Three<F> {
    use std::any::{Any, TypeId};
    thread_local!(static MADE: std::cell::RefCell<std::collections::HashMap<TypeId, &'static dyn Any>> = Default::default());
    let app = application::<F>;
    if let Some(t) = MADE.with(|m| m.borrow().get(&TypeId::of::<F>()).copied()) {
        opaque_bytes();
        given_randomness();
        generic_position();
        return t.downcast_ref().unwrap();
    }
    let app = app();
    let mut rng = Ctr(1);
    let k = |rng: &mut Ctr, k: u64| leaf(&app, rng, F::from(k));
    let (a, b, r) = (k(&mut rng, 11), k(&mut rng, 17), k(&mut rng, 13));
    let l = merge(&app, &mut rng, a, b);
    let t: &'static Three<F> = Box::leak(Box::new((app, l, r)));
    MADE.with(|m| m.borrow_mut().insert(TypeId::of::<F>(), t));
    t
}
/// A proof of which one part is altered is refused, and so is whatever is made of it.
fn tamper<F: HF>(chunk: usize, both: bool) {
    let all = tampers::<F>();
    let mine: Vec<usize> = (0..all.len()).filter(|i| i % CHUNKS == chunk).collect();
    let i = mine[choose(mine.len())];
    let (name, shows, used, f) = &all[i];
    let (app, l, r) = three::<F>();
    let e = F::var("e");
    assume(Fml::not(e.is0()));
    let (mut p, d) = l.clone().into_parts();
    f(&mut p, e, app.params);
    let bad = p.carry::<H1>(d);
    let yes = |f: &dyn Fn() -> bool| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
    // a commitment next to a native trace only matters when the proof is used, the endoscaling traces only when it is verified
    if *shows {
        check(&format!("{name} altered: refused"), !yes(&|| accepts(app, &bad)));
    }
    for left in [true, false] {
        if !used || !both && left != (i / CHUNKS % 2 == 0) {
            continue;
        }
        check(
            &format!("{name} altered, {} input: the result is refused", if left { "left" } else { "right" }),
            !yes(&|| {
                let (x, y) = if left { (bad.clone(), r.clone()) } else { (r.clone(), bad.clone()) };
                app.fuse(&mut Ctr(3), Merge, (), x, y).is_ok_and(|o| accepts(app, &o.0))
            }),
        );
    }
}
macro_rules! chunks {
    ($($f:ident $g:ident $k:literal)*) => {
        $( pub fn $f<F: HF>() { tamper::<F>($k, false) }
           pub fn $g<F: HF>() { tamper::<F>($k, true) } )*
        fn tampered(hs: &mut Vec<Harness>) { $(
            h!(hs, "Q12", $f, Fp, "alterations, used as one input");
            h!(hs, "Q12", $g, Fp, "alterations, used as either input", 20000, 1);
        )* }
    };
}
chunks!(tamper_0 tamper_both_0 0 tamper_1 tamper_both_1 1 tamper_2 tamper_both_2 2 tamper_3 tamper_both_3 3 tamper_4 tamper_both_4 4 tamper_5 tamper_both_5 5 tamper_6 tamper_both_6 6 tamper_7 tamper_both_7 7);
/// Other data than was proved, or under another header type.
pub fn other_data<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let (w, v) = (F::var("w"), F::var("v"));
    assume(Fml::not(w.eqf(v)));
    let l = leaf(&app, &mut rng, w);
    let r = leaf(&app, &mut rng, F::from(3));
    check("other data: refused", !accepts(&app, &l.proof().clone().carry::<H1>(v)));
    check("other type: refused", !accepts(&app, &l.proof().clone().carry::<H4>(w)));
    check("nothing: refused", !accepts(&app, &l.proof().clone().carry::<()>(())));
    let o = merge(&app, &mut rng, l.proof().clone().carry::<H1>(v), r.clone());
    check("other data as left input: the result is refused", !accepts(&app, &o));
    let o = merge(&app, &mut rng, r.clone(), l.proof().clone().carry::<H1>(v));
    check("other data as right input: the result is refused", !accepts(&app, &o));
    let o = merge(&app, &mut rng, r, l);
    check("other data: refused", !accepts(&app, &o.proof().clone().carry::<H1>(v * F::from(3))));
    check("the data: accepted", accepts(&app, &o.proof().clone().carry::<H1>(w * F::from(3))));
}
/// A step whose constraints do not hold.
pub fn unsatisfied<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let (w, s) = (F::var("w"), F::var("s"));
    assume(Fml::not(w.eqf(s * s)));
    let l = leaf(&app, &mut rng, w);
    let (t, ()) = app.seed(&mut rng, step::internal::trivial::Trivial::new(), ()).unwrap();
    let (o, _) = app.fuse(&mut rng, Root, (s, true), l.clone(), t.clone()).unwrap();
    check("refused", !accepts(&app, &o));
    let o = app.rerandomize(o, &mut rng).unwrap();
    check("refused after rerandomization", !accepts(&app, &o));
    // the child's data changed so that they do hold
    let (o, _) = app.fuse(&mut rng, Root, (s, true), l.proof().clone().carry(s * s), t).unwrap();
    check("fitted input: refused", !accepts(&app, &o));
}
/// The trivial proof is no proof of anything else.
pub fn from_nothing<F: HF>() {
    let app = application::<F>();
    let mut rng = Ctr(1);
    let t = app.trivial_pcd();
    check("no data from nothing", !accepts(&app, &t.proof().clone().carry::<H1>(F::var("w"))));
    let l = leaf(&app, &mut rng, F::from(3));
    let o = merge(&app, &mut rng, t.proof().clone().carry::<H1>(F::var("v")), l.clone());
    check("not as a left input", !accepts(&app, &o));
    let o = merge(&app, &mut rng, l, t.proof().clone().carry::<H1>(F::var("v")));
    check("not as a right input", !accepts(&app, &o));
}
pub fn all(hs: &mut Vec<Harness>) {
    h!(hs, "Q05", first_parts, Fp, "a first proof");
    h!(hs, "Q05", fused_parts, Fp, "a step over two first proofs");
    h!(hs, "Q11", seeded, Fp, "a first proof, then rerandomized");
    h!(hs, "Q11", fused, Fp, "a step over two first proofs");
    h!(hs, "Q11", unlike_headers, Fp, "headers of different types, auxiliary data");
    h!(hs, "Q11", deep_left, Fp, "the left input is itself such");
    h!(hs, "Q11", deep_right, Fp, "the right input is itself such");
    h!(hs, "Q11", deeper, Fp, "three levels", 20000, 1);
    h!(hs, "Q13", other_data, Fp, "data that was not proved");
    h!(hs, "Q13", unsatisfied, Fp, "constraints that do not hold");
    h!(hs, "Q13", from_nothing, Fp, "the trivial proof");
    tampered(hs);
}
