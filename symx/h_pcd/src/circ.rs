//! The internal circuits of the native side.
use crate::hx_cycle::*;
use crate::hx_fold::Par;
use crate::hx_tr::spec_new;
use crate::hx_util::*;
use crate::hx_ver::{self, HS, Pf, gen_pt, instance};
use crate::internal::fold_revdot::{NumErrorTerms, Parameters};
use crate::internal::native::circuits::{hashes_1, hashes_2, inner_collapse, outer_collapse};
use crate::internal::native::stages::{inner_error, outer_error, preamble};
use crate::internal::native::{self, unified};
use crate::internal::{transcript, *};
use ragu_circuits::polynomials::TestRank as Rk;
use ragu_circuits::staging::{Stage, StageExt};
use ragu_circuits::{Circuit, WithAux};
use ragu_core::convert::WireMap;
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::gadgets::Bound;
use ragu_primitives::io::Write;
use std::collections::VecDeque;

type Hn = Always<()>;
type Pre<F> = preamble::Stage<Cy<F>, Rk, HS>;
type Out<F, FP> = outer_error::Stage<Cy<F>, Rk, HS, FP>;
type Inn<F, FP> = inner_error::Stage<Cy<F>, Rk, HS, FP>;
/// Where things are among the 29 elements of the unified instance.
pub const U_PREAMBLE: usize = 0;
pub const U_W: usize = 2;
pub const U_S: usize = 3;
pub const U_Y: usize = 5;
pub const U_Z: usize = 6;
pub const U_INNER: usize = 7;
pub const U_MU: usize = 9;
pub const U_NU: usize = 10;
pub const U_OUTER: usize = 11;
pub const U_MU2: usize = 13;
pub const U_NU2: usize = 14;
pub const U_C: usize = 15;
pub const U_AB: usize = 16;
pub const U_X: usize = 18;
pub const U_QUERY: usize = 19;
pub const U_ALPHA: usize = 21;
pub const U_F: usize = 22;
pub const U_U: usize = 24;
pub const U_EVAL: usize = 25;
pub const U_BETA: usize = 27;
pub const U_V: usize = 28;

struct Inject<F: HF, M>(VecDeque<W<F>>, PhantomData<M>);
impl<F: HF, M: RecMode> WireMap<F> for Inject<F, M> {
    type Src = Emulator<Wireless<Empty, F>>;
    type Dst = Rec<F, Empty>;
    fn convert_wire(&mut self, _: &()) -> RResult<W<F>> {
        Ok(self.0.pop_front().unwrap())
    }
}
/// A stage's values as elements on the wires that were allocated for it.
pub struct Stages<F: HF>(VecDeque<W<F>>);
impl<F: HF> Stages<F> {
    pub fn of<M: RecMode>(d: &Rec<F, M>) -> Self {
        Stages(d.alloc_log.iter().copied().collect())
    }
    pub fn take<S: Stage<F, Rk> + Default + 'static>(&mut self) -> Bound<'static, Rec<F, Empty>, S::OutputKind> {
        let n = 2 * S::values().div_ceil(2);
        let ws: VecDeque<_> = self.0.drain(..n).collect();
        let g = S::default().witness(&mut Emulator::counter(), Empty).unwrap();
        g.map(&mut Inject::<F, Empty>(ws, PhantomData)).unwrap()
    }
}
/// What an honest prover puts on the wires of a stage.
pub fn stage_vals<'s, F: HF, S: Stage<F, Rk> + Default + 's>(w: S::Witness<'s>) -> Vec<F> {
    let mut d = Rec::<F, Hn>::new();
    let o = S::default().witness(&mut d, Hn::maybe_just(|| w)).unwrap();
    let mut v = wire_vals(&o);
    v.resize(2 * S::values().div_ceil(2), F::ZERO);
    v
}
pub fn ser<'dr, F: HF, M: RecMode, G: Write<F>>(dr: &mut Rec<F, M>, g: &Bound<'static, Rec<F, M>, G>) -> Vec<F> {
    let mut v: Vec<E<F, M>> = vec![];
    G::write_gadget(g, dr, &mut v).unwrap();
    v.iter().map(|e| e.wire().val).collect()
}
pub fn v<F: HF, M: RecMode>(e: &E<F, M>) -> F {
    e.wire().val
}
pub fn vs<F: HF, M: RecMode>(e: &[E<F, M>]) -> Vec<F> {
    e.iter().map(v).collect()
}
pub fn inst<F: HF>(ch: &dyn Fn(&str) -> F) -> unified::Instance<Cy<F>> {
    let mut k = 1;
    let mut p = || {
        k += 1;
        gen_pt::<F>(k)
    };
    unified::Instance {
        bridge_preamble_commitment: p(),
        w: ch("w"),
        bridge_s_prime_commitment: p(),
        y: ch("y"),
        z: ch("z"),
        bridge_inner_error_commitment: p(),
        mu: ch("mu"),
        nu: ch("nu"),
        bridge_outer_error_commitment: p(),
        mu_prime: ch("mu_prime"),
        nu_prime: ch("nu_prime"),
        c: ch("c"),
        bridge_ab_commitment: p(),
        x: ch("x"),
        bridge_query_commitment: p(),
        alpha: ch("alpha"),
        bridge_f_commitment: p(),
        u: ch("u"),
        bridge_eval_commitment: p(),
        pre_beta: ch("pre_beta"),
        v: ch("v"),
        coverage: Default::default(),
    }
}
/// The elements of an instance, in order.
pub fn inst_vals<F: HF>(i: &unified::Instance<Cy<F>>) -> Vec<F> {
    let p = |a: &A<F>| {
        let c = a.coordinates().unwrap();
        [*c.x(), *c.y()]
    };
    let mut o = vec![];
    o.extend(p(&i.bridge_preamble_commitment));
    o.push(i.w);
    o.extend(p(&i.bridge_s_prime_commitment));
    o.extend([i.y, i.z]);
    o.extend(p(&i.bridge_inner_error_commitment));
    o.extend([i.mu, i.nu]);
    o.extend(p(&i.bridge_outer_error_commitment));
    o.extend([i.mu_prime, i.nu_prime, i.c]);
    o.extend(p(&i.bridge_ab_commitment));
    o.push(i.x);
    o.extend(p(&i.bridge_query_commitment));
    o.push(i.alpha);
    o.extend(p(&i.bridge_f_commitment));
    o.push(i.u);
    o.extend(p(&i.bridge_eval_commitment));
    o.extend([i.pre_beta, i.v]);
    o
}
pub fn child_proof<F: HF>(side: &str, fixed: bool) -> Pf<F> {
    let mut p = hx_ver::proof::<F>(&|_, k| hx_ver::konst(k as u64), &|_, k| hx_ver::konst(k as u64), &|n| F::var(&format!("{side}_{n}")));
    let k = std::cell::Cell::new(if fixed { 20 } else { 40 });
    let pt = || {
        k.set(k.get() + 1);
        gen_pt::<F>(k.get())
    };
    for b in [&mut p.preamble.bridge, &mut p.s_prime.bridge, &mut p.inner_error.bridge, &mut p.outer_error.bridge, &mut p.ab.bridge, &mut p.query.bridge, &mut p.f.bridge, &mut p.eval.bridge] {
        b.commitment = pt();
    }
    p
}
pub fn header<F: HF>(n: &str) -> Vec<F> {
    (0..HS).map(|i| F::var(&format!("{n}{i}"))).collect()
}
pub fn errs<F: HF, FP: Parameters>(
    ky: outer_error::KyValues<F>,
    state: Vec<F>,
    collapsed: &dyn Fn(usize) -> F,
) -> outer_error::Witness<Cy<F>, FP> {
    outer_error::Witness {
        error_terms: FixedVec::from_fn(|i| F::var(&format!("oe{i}"))),
        collapsed: FixedVec::from_fn(|i| collapsed(i)),
        ky,
        sponge_state_elements: FixedVec::from_fn(|i| state[i]),
    }
}
pub fn free_ky<F: HF>() -> outer_error::KyValues<F> {
    let k = |s: &str| outer_error::ChildKyValues { application: F::var(&format!("{s}ka")), unified: F::var(&format!("{s}ku")), unified_bridge: F::var(&format!("{s}kb")) };
    outer_error::KyValues { left: k("l"), right: k("r") }
}
/// Σ over rows i and columns j of μ⁻¹… as Horner: rows by μ⁻¹, columns by μν, the diagonal from `ky`.
pub fn collapse_spec<F: HF>(mu: F, mui: F, nu: F, m: usize, errs: &[F], ky: &[F]) -> F {
    let mut k = 0;
    let mut acc = F::ZERO;
    for i in 0..m {
        let mut row = F::ZERO;
        for j in 0..m {
            let t = if i == j {
                ky[i]
            } else {
                k += 1;
                errs[k - 1]
            };
            row = row * (mu * nu) + t;
        }
        acc = acc * mui + row;
    }
    acc
}
pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
pub fn nz<F: HF>(x: F) -> F {
    assume(x.is0().not());
    x.invert().unwrap()
}
type FP1 = native::RevdotParameters;
/// Every group's claim is folded from its error terms and the k(y) of its claims, in order.
fn inner<F: HF, M: RecMode>() {
    let (l, r) = (leak(child_proof::<F>("l", true)), leak(child_proof::<F>("r", false)));
    let (lh, rh) = (header::<F>("lh"), header::<F>("rh"));
    let pw = leak(preamble::Witness::new(l, r, &lh, &rh).unwrap());
    let m = <FP1 as Parameters>::GroupSize::len();
    let n = <FP1 as Parameters>::NumGroups::len();
    let ins = inst::<F>(&|s| F::var(s));
    let ie = leak(inner_error::Witness::<Cy<F>, FP1> { error_terms: FixedVec::from_fn(|g| FixedVec::from_fn(|i| F::var(&format!("e{g}_{i}")))) });
    let ky_list = |lc: F, rc: F, l: [F; 3], r: [F; 3]| {
        let mut k = vec![lc, rc, l[0], r[0], l[2], r[2]];
        for _ in 0..4 {
            k.extend([l[1], r[1]]);
        }
        k.resize(n * m, F::ZERO);
        k
    };
    let mut d = Rec::<F, M>::new();
    let ow;
    if M::WITNESS {
        let k = free_ky::<F>();
        let a = |k: &outer_error::ChildKyValues<F>| [k.application, k.unified, k.unified_bridge];
        let kl = ky_list(l.ab.native.c, r.ab.native.c, a(&k.left), a(&k.right));
        let mui = nz(ins.mu);
        let col = |g: usize| collapse_spec(ins.mu, mui, ins.nu, m, &ie.error_terms[g][..], &kl[g * m..(g + 1) * m]);
        ow = leak(errs::<F, FP1>(k, vec![F::var("s0"), F::var("s1"), F::var("s2")], &col));
        d.preset.extend(stage_vals::<F, Pre<F>>(pw));
        d.preset.extend(stage_vals::<F, Out<F, FP1>>(ow));
        d.preset.extend(stage_vals::<F, Inn<F, FP1>>(ie));
    } else {
        ow = leak(errs::<F, FP1>(free_ky(), vec![F::ZERO; 3], &|_| F::ZERO));
    }
    let c = inner_collapse::Circuit::<Cy<F>, Rk, HS, FP1>::new();
    let iv = inst_vals(&ins);
    let w = Rec::<F, M>::just(|| inner_collapse::Witness { preamble_witness: pw, unified: ins, inner_error_witness: ie, outer_error_witness: ow });
    let out = c.witness(&mut d, w).unwrap().into_output();
    let mut st = Stages::of(&d);
    let o = ser_out(&mut d, &out);
    prove_eq("suffix", o[29], F::ZERO);
    check("length of the instance", o.len() == 30);
    let (pre, oe, ie) = (st.take::<Pre<F>>(), st.take::<Out<F, FP1>>(), st.take::<Inn<F, FP1>>());
    if M::WITNESS {
        d.prove_satisfied("constraints");
        prove_eqs("instance", &o[..29], &iv);
        return;
    }
    let a = |k: &outer_error::ChildKyOutputs<'static, Rec<F, Empty>>| [v(&k.application), v(&k.unified), v(&k.unified_bridge)];
    let kl = ky_list(v(&pre.left.unified.c), v(&pre.right.unified.c), a(&oe.left), a(&oe.right));
    let mui = nz(o[U_MU]);
    for g in 0..n {
        prove_eq("folded group", v(&oe.collapsed[g]), collapse_spec(o[U_MU], mui, o[U_NU], m, &vs(&ie.error_terms[g]), &kl[g * m..(g + 1) * m]));
    }
}
both!(inner, inner_honest, inner_sound);
/// c is the value both layers fold to, except when both children are trivial: then it is free.
fn outer<F: HF, M: RecMode>() {
    let (l, r) = (leak(child_proof::<F>("l", true)), leak(child_proof::<F>("r", false)));
    let (mut lh, mut rh) = (header::<F>("lh"), header::<F>("rh"));
    // the last element of a child's header says which header it is; 1 is the trivial one
    let (lt, rt) = (choose_bool(), choose_bool());
    let suffix = |t: bool, n: &str| if t { F::ONE } else { F::ONE + F::var(n) };
    let (ls, rs) = (suffix(lt, "lt"), suffix(rt, "rt"));
    for (t, s) in [(lt, ls), (rt, rs)] {
        if !t {
            assume((s - F::ONE).is0().not());
        }
    }
    lh[HS - 1] = ls;
    rh[HS - 1] = rs;
    let pw = leak(preamble::Witness::new(l, r, &lh, &rh).unwrap());
    let n = <FP1 as Parameters>::NumGroups::len();
    let mut ins = inst::<F>(&|s| F::var(s));
    let ow = leak(errs::<F, FP1>(free_ky(), vec![F::var("s0"), F::var("s1"), F::var("s2")], &|i| F::var(&format!("col{i}"))));
    let mut d = Rec::<F, M>::new();
    if M::WITNESS {
        let mui = nz(ins.mu_prime);
        if !lt || !rt {
            ins.c = collapse_spec(ins.mu_prime, mui, ins.nu_prime, n, &ow.error_terms[..], &ow.collapsed[..]);
        }
        d.preset.extend(stage_vals::<F, Pre<F>>(pw));
        d.preset.extend(stage_vals::<F, Out<F, FP1>>(ow));
    }
    let c = outer_collapse::Circuit::<Cy<F>, Rk, HS, FP1>::new();
    let iv = inst_vals(&ins);
    let w = Rec::<F, M>::just(|| outer_collapse::Witness { preamble_witness: pw, unified: ins, outer_error_witness: ow });
    if !M::WITNESS {
        // the stage's wires come first: name the two suffixes now
        before::<F, Pre<F>>(&mut d, |pre| vec![(pre.left.output_header[HS - 1].wire().id, ls), (pre.right.output_header[HS - 1].wire().id, rs)]);
    }
    let out = c.witness(&mut d, w).unwrap().into_output();
    let mut st = Stages::of(&d);
    let o = ser_out(&mut d, &out);
    prove_eq("suffix", o[29], F::ZERO);
    check("length of the instance", o.len() == 30);
    let (_, oe) = (st.take::<Pre<F>>(), st.take::<Out<F, FP1>>());
    if M::WITNESS {
        d.prove_satisfied("constraints");
        prove_eqs("instance", &o[..29], &iv);
        return;
    }
    if !lt || !rt {
        let mui = nz(o[U_MU2]);
        prove_eq("c", o[U_C], collapse_spec(o[U_MU2], mui, o[U_NU2], n, &vs(&oe.error_terms), &vs(&oe.collapsed)));
    }
}
both!(outer, outer_honest, outer_sound);
/// The specification's challenges for the points of an instance.
fn first_half<F: HF>(p: &Pos<F>, u: &[F]) -> (F, F, F, Vec<F>) {
    let mut s = spec_new(p, b"FIXME");
    let mut pt = |s: &mut Spec<'_, F, Pos<F>>, i: usize| {
        s.absorb(u[i]);
        s.absorb(u[i + 1]);
    };
    pt(&mut s, U_PREAMBLE);
    let w = s.squeeze().unwrap();
    pt(&mut s, U_S);
    let y = s.squeeze().unwrap();
    let z = s.squeeze().unwrap();
    pt(&mut s, U_INNER);
    (w, y, z, s.saved())
}
fn second_half<F: HF>(p: &Pos<F>, state: &[F], u: &[F]) -> Vec<(usize, F)> {
    let mut s = Spec::resume(p, state.to_vec());
    let mut o = vec![(U_MU, s.squeeze().unwrap()), (U_NU, s.squeeze().unwrap())];
    for (i, cs) in [(U_OUTER, &[U_MU2, U_NU2][..]), (U_AB, &[U_X]), (U_QUERY, &[U_ALPHA]), (U_F, &[U_U]), (U_EVAL, &[U_BETA])] {
        s.absorb(u[i]);
        s.absorb(u[i + 1]);
        for &c in cs {
            o.push((c, s.squeeze().unwrap()));
        }
    }
    o
}
/// The instances of a child's circuits, from the values in the preamble: (application, unified, unified with headers).
fn child_ky<F: HF>(left: &[F], right: &[F], out: &[F], u: &[F], y: F) -> [F; 3] {
    [
        instance(&[left, right, out].concat(), y),
        instance(&[u, &[F::ZERO]].concat(), y),
        instance(&[u, left, right, &[F::ZERO]].concat(), y),
    ]
}
fn pre_ky<F: HF>(p: &preamble::ProofInputs<'static, Rec<F, Empty>, Cy<F>, HS>, y: F) -> [F; 3] {
    let u = ser_out(&mut Rec::<F, Empty>::new(), &p.unified);
    child_ky(&vs(&p.children.left), &vs(&p.children.right), &vs(&p.output_header), &u, y)
}
fn proof_ky<F: HF>(p: &Pf<F>, out: &[F], y: F) -> [F; 3] {
    child_ky(&p.application.left_header, &p.application.right_header, out, &hx_ver::unified(p), y)
}
/// hashes_1: the first challenges, the children's instances, their circuits and the state handed on.
fn h1<F: HF, M: RecMode>() {
    opaque_products();
    let p = params::<F>();
    let log2 = 1 + choose(5) as u32;
    let (mut l, mut r) = (child_proof::<F>("l", true), child_proof::<F>("r", false));
    l.application.circuit_id = ragu_circuits::registry::CircuitIndex::new(1);
    r.application.circuit_id = ragu_circuits::registry::CircuitIndex::new((1 << log2) - 1);
    let (l, r) = (leak(l), leak(r));
    let (lh, rh) = (header::<F>("lh"), header::<F>("rh"));
    let pw = leak(preamble::Witness::new(l, r, &lh, &rh).unwrap());
    let mut ins = inst::<F>(&|s| F::var(s));
    let mut d = Rec::<F, M>::new();
    let ow;
    if M::WITNESS {
        let (w, y, z, st) = first_half(&p.pos, &inst_vals(&ins));
        let k = |[a, u, b]: [F; 3]| outer_error::ChildKyValues { application: a, unified: u, unified_bridge: b };
        let ky = outer_error::KyValues { left: k(proof_ky(l, &lh, y)), right: k(proof_ky(r, &rh, y)) };
        ow = leak(errs::<F, FP1>(ky, st, &|i| F::var(&format!("col{i}"))));
        // what the circuit provides itself is not read from the instance
        d.preset.extend(stage_vals::<F, Pre<F>>(pw));
        d.preset.extend(stage_vals::<F, Out<F, FP1>>(ow));
        (ins.w, ins.y, ins.z) = (w, y, z);
    } else {
        ow = leak(errs::<F, FP1>(free_ky(), vec![F::ZERO; 3], &|_| F::ZERO));
    }
    let iv = inst_vals(&ins);
    let c = hashes_1::Circuit::<'static, Cy<F>, Rk, HS, FP1>::new(p, log2);
    let w = Rec::<F, M>::just(|| hashes_1::Witness { unified: ins, preamble_witness: pw, outer_error_witness: ow });
    let out = c.witness(&mut d, w).unwrap().into_output();
    let mut st = Stages::of(&d);
    let o = ser_out(&mut d, &out);
    let (pre, oe) = (st.take::<Pre<F>>(), st.take::<Out<F, FP1>>());
    check("length of the instance", o.len() == 30 + 2 * HS);
    prove_eqs("headers", &o[29..29 + HS], &vs(&pre.left.output_header));
    prove_eqs("headers", &o[29 + HS..29 + 2 * HS], &vs(&pre.right.output_header));
    prove_eq("suffix", o[29 + 2 * HS], F::ZERO);
    if M::WITNESS {
        d.prove_satisfied("constraints");
        prove_eqs("instance", &o[..29], &iv);
        return;
    }
    let (w, y, z, st) = first_half(&p.pos, &o);
    prove_eqs("w, y, z", &[o[U_W], o[U_Y], o[U_Z]], &[w, y, z]);
    prove_eqs("saved state", &ser_state(&oe.sponge_state), &st);
    for (side, k, child) in [("left", &oe.left, &pre.left), ("right", &oe.right, &pre.right)] {
        let want = pre_ky(child, o[U_Y]);
        prove_eqs(&format!("k(y) of the {side} child"), &[v(&k.application), v(&k.unified), v(&k.unified_bridge)], &want);
        let mut id = v(&child.circuit_id);
        for _ in 0..log2 {
            id = id.square();
        }
        prove_eq(&format!("circuit of the {side} child exists"), id, F::ONE);
    }
}
both!(h1, h1_honest, h1_sound);
fn ser_state<F: HF>(s: &ragu_primitives::poseidon::SpongeState<'static, Rec<F, Empty>, Pos<F>>) -> Vec<F> {
    wire_vals(s)
}
/// hashes_2: resumes where hashes_1 left off.
fn h2<F: HF, M: RecMode>() {
    opaque_products();
    let p = params::<F>();
    let mut ins = inst::<F>(&|s| F::var(s));
    let mut d = Rec::<F, M>::new();
    let st: Vec<F> = (0..3).map(|i| F::var(&format!("s{i}"))).collect();
    let ow = leak(errs::<F, FP1>(free_ky(), st.clone(), &|i| F::var(&format!("col{i}"))));
    if M::WITNESS {
        let mut u = inst_vals(&ins);
        for (i, c) in second_half(&p.pos, &st, &u) {
            u[i] = c;
        }
        (ins.mu, ins.nu, ins.mu_prime, ins.nu_prime, ins.x, ins.alpha, ins.u, ins.pre_beta) = (u[U_MU], u[U_NU], u[U_MU2], u[U_NU2], u[U_X], u[U_ALPHA], u[U_U], u[U_BETA]);
        d.preset.extend(vec![F::ZERO; 2 * <Pre<F> as Stage<F, Rk>>::values().div_ceil(2)]);
        d.preset.extend(stage_vals::<F, Out<F, FP1>>(ow));
    }
    let iv = inst_vals(&ins);
    let c = hashes_2::Circuit::<'static, Cy<F>, Rk, HS, FP1>::new(p);
    let w = Rec::<F, M>::just(|| hashes_2::Witness { unified: ins, outer_error_witness: ow });
    let out = c.witness(&mut d, w).unwrap().into_output();
    let mut st = Stages::of(&d);
    let o = ser_out(&mut d, &out);
    let (_, oe) = (st.take::<Pre<F>>(), st.take::<Out<F, FP1>>());
    check("length of the instance", o.len() == 30);
    prove_eq("suffix", o[29], F::ZERO);
    if M::WITNESS {
        d.prove_satisfied("constraints");
        prove_eqs("instance", &o[..29], &iv);
        return;
    }
    for (i, c) in second_half(&p.pos, &ser_state(&oe.sponge_state), &o) {
        prove_eq(&format!("challenge {i}"), o[i], c);
    }
}
both!(h2, h2_honest, h2_sound);
/// Values for some of the wires that a stage is about to be given.
pub fn before<F: HF, S: Stage<F, Rk> + Default + 'static>(d: &mut Rec<F, impl RecMode>, f: impl Fn(&Bound<'static, Rec<F, Empty>, S::OutputKind>) -> Vec<(u32, F)>) {
    let ws: VecDeque<_> = (0..2 * S::values().div_ceil(2) as u32).map(|id| W { id, val: F::ZERO }).collect();
    let mut st = Stages(ws);
    for (i, x) in f(&st.take::<S>()) {
        d.fixed.insert(i as usize, x);
    }
}
pub fn ser_out<F: HF, M: RecMode, G: Gadget<'static, Rec<F, M>>>(d: &mut Rec<F, M>, g: &G) -> Vec<F>
where
    G::Kind: Write<F, Rebind<'static, Rec<F, M>> = G>,
{
    let mut o: Vec<E<F, M>> = vec![];
    <G::Kind as Write<F>>::write_gadget(g, d, &mut o).unwrap();
    vs(&o)
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q07", inner_honest, Fp, "inner_collapse: what an honest prover does satisfies it");
    h!(hs, "Q07", outer_honest, Fp, "outer_collapse: what an honest prover does satisfies it");
    h!(hs, "Q07", outer_sound, Fp, "outer_collapse: what satisfies it is folded correctly, unless both children are trivial");
    h!(hs, "Q06", h1_honest, Fp, "hashes_1: what an honest prover does satisfies it");
    h!(hs, "Q06", h1_sound, Fp, "hashes_1: what satisfies it is the first half of the transcript");
    h!(hs, "Q06", h2_honest, Fp, "hashes_2: what an honest prover does satisfies it");
    h!(hs, "Q06", h2_sound, Fp, "hashes_2: what satisfies it is the second half of the transcript");
    h!(hs, "Q07", inner_sound, Fp, "inner_collapse: what satisfies it is folded correctly");
}
