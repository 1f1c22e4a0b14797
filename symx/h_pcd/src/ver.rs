//! Which claims a proof makes, and the decider that checks them.
use crate::header::Header;
use crate::hx_cycle::*;
use crate::hx_hdr::*;
use crate::hx_util::*;
use crate::internal::native::{self, RxComponent, RxIndex};
use crate::internal::{claims, native::claims as nclaims, nested, nested::claims as sclaims};
use crate::proof::*;
use crate::{Application as App, Proof};
use ragu_circuits::polynomials::{Rank, TestRank as Rk, sparse::Polynomial};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::{Circuit, WithAux};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::drivers::LinearExpression;
use std::borrow::Cow;

pub const HS: usize = 4;
pub type Pf<F> = Proof<Cy<F>, Rk>;
pub type Po<F> = Polynomial<F, Rk>;

/// A small circuit, a different one for every number.
struct Tiny(u64);
impl<F: HF> Circuit<F> for Tiny {
    type Instance<'s> = ();
    type Witness<'s> = ();
    type Output = Kind![F; Element<'_, _>];
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, _: DriverValue<D, ()>) -> RResult<Bound<'dr, D, Self::Output>> {
        Ok(Element::zero(dr))
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, _: DriverValue<D, ()>) -> RResult<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let mut es = vec![];
        for i in 0..4 {
            es.push(Element::alloc(dr, D::just(|| F::from(i)))?);
        }
        for i in 0..4u64 {
            let k = |j: u64| Coeff::Arbitrary(F::from(3 + self.0 * 17 + i * 5 + j * (self.0 + 2)));
            dr.enforce_zero(|lc| es.iter().enumerate().fold(lc.add_term(&D::ONE, k(9)), |lc, (j, e)| lc.add_term(e.wire(), k(j as u64))))?;
        }
        Ok(WithAux::new(es.pop().unwrap(), D::unit()))
    }
}
pub fn registry<F: HF>(n: usize) -> Registry<'static, F, Rk> {
    registry_r::<F, Rk>(n)
}
pub fn registry_r<F: HF, R: Rank>(n: usize) -> Registry<'static, F, R> {
    let mut b = RegistryBuilder::<F, R>::new();
    for i in 0..n {
        b = b.register_internal_circuit(Tiny(i as u64)).unwrap();
    }
    b.finalize().unwrap()
}
/// Three coefficients in the lower half, two of them at wires of `Tiny`: no two such polynomials pair up, so that claims are linear in them.
pub fn low<F: HF>(name: &str, k: usize) -> Po<F> {
    let mut v = vec![F::ZERO; 128];
    for i in 0..3 {
        v[[61, 62, [3, 57, 5, 59, 2, 58, 1, 60, 4, 56][k % 10]][i]] = F::var(&format!("{name}{i}"));
    }
    Po::from_coeffs(v)
}
pub fn konst<F: HF>(k: u64) -> Po<F> {
    konst_r::<F, Rk>(k)
}
pub fn konst_r<F: HF, R: Rank>(k: u64) -> Polynomial<F, R> {
    let mut v = vec![F::ZERO; 128];
    v[1] = F::from(k);
    v[126] = F::from(2 * k + 1);
    Polynomial::from_coeffs(v)
}
pub fn gen_pt<F: HF>(k: u64) -> A<F> {
    use group::{Group, prime::PrimeCurveAffine};
    let mut p = A::<F>::generator().to_curve();
    for _ in 1..k {
        p = p + A::<F>::generator();
    }
    p.into()
}
pub fn proof<F: HF>(native: &dyn Fn(&str, usize) -> Po<F>, nest: &dyn Fn(&str, usize) -> Po<F>, ch: &dyn Fn(&str) -> F) -> Pf<F> {
    proof_r::<F, Rk>(native, nest, ch)
}
pub fn proof_r<F: HF, R: Rank>(native: &dyn Fn(&str, usize) -> Polynomial<F, R>, nest: &dyn Fn(&str, usize) -> Polynomial<F, R>, ch: &dyn Fn(&str) -> F) -> Proof<Cy<F>, R> {
    let konst = |k: u64| konst_r::<F, R>(k);
    use std::cell::Cell;
    let k = Cell::new(0);
    let next = || {
        k.set(k.get() + 1);
        k.get()
    };
    let rt = |n: &str| RxTriple { rx: native(n, next()), commitment: gen_pt(1) };
    let br = |n: &str| {
        let c = A::<F>::from_xy_unchecked(ch(&format!("{n}_x")), ch(&format!("{n}_y")));
        Bridge { rx: nest(n, next()), commitment: c }
    };
    let g = gen_pt(1);
    Proof {
        application: Application { circuit_id: CircuitIndex::new(15), left_header: (0..HS).map(|i| ch(&format!("left{i}"))).collect(), right_header: (0..HS).map(|i| ch(&format!("right{i}"))).collect(), rx_triple: rt("application") },
        preamble: Preamble { native: rt("preamble"), bridge: br("b_preamble") },
        s_prime: SPrime { native: NativeSPrime { registry_wx0_poly: konst(1), registry_wx0_commitment: g, registry_wx1_poly: konst(2), registry_wx1_commitment: g }, bridge: br("b_s_prime") },
        inner_error: InnerError { native: NativeInnerError { registry_wy_poly: konst(3), registry_wy_commitment: g, rx_triple: rt("inner_error") }, bridge: br("b_inner_error") },
        outer_error: OuterError { native: rt("outer_error"), bridge: br("b_outer_error") },
        ab: AB { native: NativeAB { a_poly: konst(5), a_commitment: g, b_poly: konst(7), b_commitment: g, c: ch("c") }, bridge: br("b_ab") },
        query: Query { native: NativeQuery { registry_xy_poly: konst(11), registry_xy_commitment: g, rx_triple: rt("query") }, bridge: br("b_query") },
        f: crate::proof::F { native: NativeF { poly: konst(13), commitment: g }, bridge: br("b_f") },
        eval: Eval { native: rt("eval"), bridge: br("b_eval") },
        p: P {
            native: NativeP { poly: konst(4), commitment: konst_r::<F, R>(4).commit_to_affine(&params::<F>().gens), v: ch("v") },
            nested: NestedP { step_rxs: (0..STEPS).map(|i| nest(&format!("step{i}_"), next())).collect(), endoscalar_rx: nest("endoscalar", next()), points_rx: nest("points", next()) },
        },
        challenges: Challenges { w: ch("w"), y: ch("y"), z: ch("z"), mu: ch("mu"), nu: ch("nu"), mu_prime: ch("mu_prime"), nu_prime: ch("nu_prime"), x: ch("x"), alpha: ch("alpha"), u: ch("u"), pre_beta: ch("pre_beta") },
        circuits: InternalCircuits { hashes_1: rt("hashes_1"), hashes_2: rt("hashes_2"), inner_collapse: rt("inner_collapse"), outer_collapse: rt("outer_collapse"), compute_v: rt("compute_v") },
    }
}
pub const STEPS: usize = nested::NUM_INTERNAL_CIRCUITS - 11;
pub fn cs<F: HF>(p: &Po<F>) -> Vec<F> {
    p.iter_coeffs().collect()
}
pub fn rdot<F: HF>(a: &[F], b: &[F]) -> F {
    a.iter().zip(b.iter().rev()).fold(F::ZERO, |s, (x, y)| s + *x * *y)
}
fn sum<F: HF>(ps: &[&Po<F>]) -> Vec<F> {
    let mut v = vec![F::ZERO; 128];
    for p in ps {
        for (x, y) in v.iter_mut().zip(cs(p)) {
            *x += y;
        }
    }
    v
}
fn fold<F: HF>(ps: &[&Po<F>], z: F) -> Vec<F> {
    let mut v = vec![F::ZERO; 128];
    for p in ps {
        for (x, y) in v.iter_mut().zip(cs(p)) {
            *x = *x * z + y;
        }
    }
    v
}
/// the other side of a circuit claim: rx(zX) + s(X, y) + t(X, z)
fn circuit_b<F: HF>(reg: &Registry<'static, F, Rk>, id: CircuitIndex, a: &[F], y: F, z: F) -> Vec<F> {
    let (s, t) = (cs(&reg.circuit_y(id, y)), cs(&<Rk as Rank>::tz(z)));
    let mut zi = F::ONE;
    (0..128)
        .map(|i| {
            let v = a[i] * zi + s[i] + t[i];
            zi *= z;
            v
        })
        .collect()
}
/// How the claim about a set of polynomials is made up, and the value it has to have.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ky {
    C,
    App,
    Bridge,
    Unified,
    One,
    Zero,
}
pub struct Claim<F> {
    pub name: String,
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub ky: Ky,
}
/// The claims of the native side for one proof (`ps.len() == 1`) or two.
pub fn native_claims<F: HF>(reg: &Registry<'static, F, Rk>, ps: &[&Pf<F>], y: F, z: F) -> Vec<Vec<Claim<F>>> {
    use RxIndex::*;
    use native::InternalCircuitIndex as I;
    let mut out = vec![];
    out.push(ps.iter().map(|p| Claim { name: "a*b".into(), a: cs(&p.ab.native.a_poly), b: cs(&p.ab.native.b_poly), ky: Ky::C }).collect());
    let circ = |id: CircuitIndex, name: &str, rx: &dyn Fn(&Pf<F>) -> Vec<F>, ky: Ky, id_of: Option<&dyn Fn(&Pf<F>) -> CircuitIndex>| -> Vec<Claim<F>> {
        ps.iter()
            .map(|p| {
                let a = rx(p);
                let b = circuit_b(reg, id_of.map_or(id, |f| f(p)), &a, y, z);
                Claim { name: name.into(), a, b, ky }
            })
            .collect()
    };
    out.push(circ(CircuitIndex::new(0), "application", &|p| cs(&p.application.rx_triple.rx), Ky::App, Some(&|p| p.application.circuit_id)));
    let of = |id: I, rs: &'static [RxIndex], ky: Ky| circ(id.circuit_index(), &format!("{id:?}"), &|p| sum(&rs.iter().map(|r| &p[*r].rx).collect::<Vec<_>>()), ky, None);
    out.push(of(I::Hashes1Circuit, &[Hashes1, Preamble, OuterError], Ky::Bridge));
    out.push(of(I::Hashes2Circuit, &[Hashes2, OuterError], Ky::Unified));
    out.push(of(I::InnerCollapseCircuit, &[InnerCollapse, Preamble, InnerError, OuterError], Ky::Unified));
    out.push(of(I::OuterCollapseCircuit, &[OuterCollapse, Preamble, OuterError], Ky::Unified));
    out.push(of(I::ComputeVCircuit, &[ComputeV, Preamble, Query, Eval], Ky::Unified));
    let bond = |id: I, rs: &[RxIndex]| {
        let rx: Vec<&Po<F>> = rs.iter().flat_map(|r| ps.iter().map(|p| &p[*r].rx)).collect();
        vec![Claim { name: format!("{id:?}"), a: fold(&rx, z), b: cs(&reg.circuit_y(id.circuit_index(), y)), ky: Ky::Zero }]
    };
    out.push(bond(I::PreambleStage, &[Preamble]));
    out.push(bond(I::InnerErrorStage, &[InnerError]));
    out.push(bond(I::OuterErrorStage, &[OuterError]));
    out.push(bond(I::QueryStage, &[Query]));
    out.push(bond(I::EvalStage, &[Eval]));
    out.push(bond(I::InnerErrorFinalStaged, &[InnerCollapse]));
    out.push(bond(I::OuterErrorFinalStaged, &[Hashes1, Hashes2, OuterCollapse]));
    out.push(bond(I::EvalFinalStaged, &[ComputeV]));
    out
}
pub fn nested_claims<F: HF>(reg: &Registry<'static, F, Rk>, p: &Pf<F>, y: F, z: F) -> Vec<Claim<F>> {
    use nested::InternalCircuitIndex as I;
    let mut out = vec![];
    let n = &p.p.nested;
    for (i, s) in n.step_rxs.iter().enumerate() {
        let a = sum(&[s, &n.endoscalar_rx, &n.points_rx]);
        let b = circuit_b(reg, I::EndoscalingStep(i as u32).circuit_index(), &a, y, z);
        out.push(Claim { name: format!("step {i}"), a, b, ky: Ky::One });
    }
    let mut bond = |id: I, rx: &[&Po<F>]| out.push(Claim { name: format!("{id:?}"), a: fold(rx, z), b: cs(&reg.circuit_y(id.circuit_index(), y)), ky: Ky::Zero });
    bond(I::EndoscalarStage, &[&n.endoscalar_rx]);
    bond(I::PointsStage, &[&n.points_rx]);
    bond(I::PointsFinalStaged, &n.step_rxs.iter().collect::<Vec<_>>());
    bond(I::BridgePreamble, &[&p.preamble.bridge.rx]);
    bond(I::BridgeSPrime, &[&p.s_prime.bridge.rx]);
    bond(I::BridgeInnerError, &[&p.inner_error.bridge.rx]);
    bond(I::BridgeOuterError, &[&p.outer_error.bridge.rx]);
    bond(I::BridgeAB, &[&p.ab.bridge.rx]);
    bond(I::BridgeQuery, &[&p.query.bridge.rx]);
    bond(I::BridgeF, &[&p.f.bridge.rx]);
    bond(I::BridgeEval, &[&p.eval.bridge.rx]);
    out
}
/// The instance polynomial: first element highest, then the constant one.
pub fn instance<F: HF>(v: &[F], y: F) -> F {
    v.iter().chain([&F::ONE]).fold(F::ZERO, |s, x| s * y + *x)
}
pub fn unified<F: HF>(p: &Pf<F>) -> Vec<F> {
    let pt = |b: &Bridge<Cy<F>, Rk>| {
        let c = b.commitment.coordinates().unwrap();
        [*c.x(), *c.y()]
    };
    let c = &p.challenges;
    let mut v = vec![];
    v.extend(pt(&p.preamble.bridge));
    v.push(c.w);
    v.extend(pt(&p.s_prime.bridge));
    v.extend([c.y, c.z]);
    v.extend(pt(&p.inner_error.bridge));
    v.extend([c.mu, c.nu]);
    v.extend(pt(&p.outer_error.bridge));
    v.extend([c.mu_prime, c.nu_prime, p.ab.native.c]);
    v.extend(pt(&p.ab.bridge));
    v.push(c.x);
    v.extend(pt(&p.query.bridge));
    v.push(c.alpha);
    v.extend(pt(&p.f.bridge));
    v.push(c.u);
    v.extend(pt(&p.eval.bridge));
    v.extend([c.pre_beta, p.p.native.v]);
    v
}
pub fn ky_value<F: HF>(p: &Pf<F>, output: &[F], k: Ky, y: F) -> F {
    let a = &p.application;
    match k {
        Ky::C => p.ab.native.c,
        Ky::App => instance(&[&a.left_header[..], &a.right_header[..], output].concat(), y),
        Ky::Bridge => instance(&[&unified(p)[..], &a.left_header[..], &a.right_header[..], &[F::ZERO]].concat(), y),
        Ky::Unified => instance(&[&unified(p)[..], &[F::ZERO]].concat(), y),
        Ky::One => F::ONE,
        Ky::Zero => F::ZERO,
    }
}

/// Every draw yields the same value: nothing depends on the order of the draws.
#[derive(Clone)]
pub struct Same(pub u8, pub u32);
impl rand::TryRng for Same {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(u32::from_le_bytes([self.0; 4]))
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(u64::from_le_bytes([self.0; 8]))
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Self::Error> {
        b.fill(self.0);
        Ok(())
    }
}
impl rand::TryCryptoRng for Same {}
impl Same {
    fn value<F: HF>() -> F {
        <F as ff::Field>::random(&mut Same(37, 0))
    }
}
pub fn app<F: HF>() -> App<'static, Cy<F>, Rk, HS> {
    app_r::<F, Rk>()
}
pub fn app_r<F: HF, R: Rank>() -> App<'static, Cy<F>, R, HS> {
    App {
        native_registry: registry_r(17),
        nested_registry: registry_r(nested::NUM_INTERNAL_CIRCUITS),
        params: params(),
        num_application_steps: 2,
        seeded_trivial: Default::default(),
        _marker: PhantomData,
    }
}
fn fixed_name<F: HF>(s: &str) -> F {
    F::from(s.bytes().fold(7u64, |h, b| (h * 31 + b as u64) % 1000003))
}
/// What the decider checks besides the reversed dot products.
fn rest_holds<F: HF>(app: &App<'static, Cy<F>, Rk, HS>, p: &Pf<F>, w: F) -> Vec<Fml> {
    let ev = |q: &Po<F>, x: F| cs(q).iter().rev().fold(F::ZERO, |s, c| s * x + *c);
    vec![
        ev(&p.p.native.poly, p.challenges.u).eqf(p.p.native.v),
        ev(&p.query.native.registry_xy_poly, w).eqf(app.native_registry.wxy(w, p.challenges.x, p.challenges.y)),
    ]
}
fn claims_hold<F: HF>(cl: &[Claim<F>], p: &Pf<F>, output: &[F], y: F) -> Vec<Fml> {
    cl.iter().map(|c| rdot(&c.a, &c.b).eqf(ky_value(p, output, c.ky, y))).collect()
}
/// The decider accepts exactly when every claim holds; `part` chooses which ones are free to fail.
fn decide<F: HF>(part: usize) {
    given_randomness();
    opaque_bytes();
    generic_position();
    let app = app::<F>();
    let r = Same::value::<F>();
    let low = |n: &str, k: usize| low::<F>(n, k);
    let ch = |n: &str| match (part, n) {
        (0, "c" | "mu" | "b_f_x") | (2, "u" | "v" | "c") => F::var(n),
        (0, n) if n.starts_with("left") => F::var(n),
        _ => fixed_name::<F>(n),
    };
    let mut p = proof::<F>(&low, &low, &ch);
    if part == 1 {
        p.ab.native.c = rdot(&cs(&p.ab.native.a_poly), &cs(&p.ab.native.b_poly));
    }
    if part != 2 {
        p.p.native.v = cs(&p.p.native.poly).iter().rev().fold(F::ZERO, |s, c| s * p.challenges.u + *c);
    }
    let h = F::var("h");
    let out = [h, F::ZERO, F::ZERO, F::from(9)];
    let native: Vec<Claim<F>> = native_claims(&app.native_registry, &[&p], r, r).into_iter().flatten().collect();
    let nested = nested_claims(&app.nested_registry, &p, r, r);
    // the polynomial m(W, x, y): two coefficients, one of them free
    let k = F::var("k");
    p.query.native.registry_xy_poly = Po::from_coeffs(vec![k, F::from(3)]);
    let (n, s, o) = (claims_hold(&native, &p, &out, r), claims_hold(&nested, &p, &out, r), rest_holds(&app, &p, r));
    let mut want = true;
    for (i, fs) in [n, s, o].into_iter().enumerate() {
        for (j, f) in fs.into_iter().enumerate() {
            if i == part {
                // each path: all of them, or all but one
                if want && choose_bool() {
                    want = false;
                    assume(f.not());
                } else {
                    assume(f);
                }
            } else {
                assume(f);
            }
        }
    }
    let mut rng = Same(37, 0);
    let pcd = p.carry::<H1>(h);
    let got = app.verify(&pcd, &mut rng).unwrap();
    check("accepted exactly when all claims hold", got == want);
}
/// A proof all of whose claims hold is refused if its headers have the wrong length, its circuit does not exist, or the
/// commitment to p is to something else.
pub fn decide_shape<F: HF>() {
    given_randomness();
    opaque_bytes();
    generic_position();
    let app = app::<F>();
    let r = Same::value::<F>();
    let ch = |n: &str| fixed_name::<F>(n);
    let mut p = proof::<F>(&|n, k| low::<F>(n, k), &|n, k| low::<F>(n, k), &ch);
    let wrong = choose(8);
    let wrong_len = [HS - 1, HS + 1, 0];
    match wrong {
        1..=3 => p.application.left_header = (0..wrong_len[wrong - 1]).map(|i| F::from(i as u64 + 2)).collect(),
        4..=6 => p.application.right_header = (0..wrong_len[wrong - 4]).map(|i| F::from(i as u64 + 2)).collect(),
        7 => {
            p.application.circuit_id = CircuitIndex::new(32 + choose(3));
            check("not a circuit of this registry", !app.native_registry.circuit_in_domain(p.application.circuit_id));
        }
        _ => {}
    }
    p.ab.native.c = rdot(&cs(&p.ab.native.a_poly), &cs(&p.ab.native.b_poly));
    p.p.native.poly = konst(6);
    p.p.native.v = cs(&p.p.native.poly).iter().rev().fold(F::ZERO, |s, c| s * p.challenges.u + *c);
    let g = &params::<F>().gens;
    let right = wrong > 0 || choose_bool();
    p.p.native.commitment = if right {
        p.p.native.poly.commit_to_affine(g)
    } else {
        konst::<F>(9).commit_to_affine(g)
    };
    let want = wrong == 0 && right;
    let h = F::var("h");
    if wrong == 0 {
        let out = [h, F::ZERO, F::ZERO, F::from(9)];
        let native: Vec<Claim<F>> = native_claims(&app.native_registry, &[&p], r, r).into_iter().flatten().collect();
        let nested = nested_claims(&app.nested_registry, &p, r, r);
        p.query.native.registry_xy_poly = Po::from_coeffs(vec![F::var("k"), F::from(3)]);
        for f in [claims_hold(&native, &p, &out, r), claims_hold(&nested, &p, &out, r), rest_holds(&app, &p, r)].concat() {
            assume(f);
        }
    }
    let pcd = p.carry::<H1>(h);
    match app.verify(&pcd, &mut Same(37, 0)) {
        Ok(got) => check("accepted exactly when nothing is wrong", got == want),
        Err(_) => check("an error only for a malformed proof", wrong > 0),
    }
}
pub fn decide_native<F: HF>() {
    decide::<F>(0)
}
pub fn decide_nested<F: HF>() {
    decide::<F>(1)
}
pub fn decide_rest<F: HF>() {
    decide::<F>(2)
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q10", decide_native, Fp, "the decider and the native claims");
    h!(hs, "Q10", decide_nested, Fp, "the decider and the nested claims");
    h!(hs, "Q10", decide_shape, Fp, "the decider and malformed proofs");
    h!(hs, "Q10", decide_rest, Fp, "the decider and the evaluation claims");
}
