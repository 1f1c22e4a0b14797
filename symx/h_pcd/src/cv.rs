//! What is queried where: the circuit that computes v, and the prover's side of the same list.
use crate::hx_circ::*;
use crate::hx_cycle::*;
use crate::hx_util::*;
use crate::hx_ver::{self, HS, Pf, Po, cs, konst};
use crate::internal::native::circuits::compute_v;
use crate::internal::native::stages::{eval, preamble, query};
use crate::internal::native::{self, InternalCircuitIndex, RxIndex};
use ragu_circuits::polynomials::{Rank, TestRank as Rk};
use ragu_circuits::Circuit as _;
use std::collections::HashMap;

type Pre<F> = preamble::Stage<Cy<F>, Rk, HS>;
type Que<F> = query::Stage<Cy<F>, Rk, HS>;
type Eva<F> = eval::Stage<Cy<F>, Rk, HS>;
const RX: [RxIndex; 11] = {
    use RxIndex::*;
    [Application, Hashes1, Hashes2, InnerCollapse, OuterCollapse, ComputeV, Preamble, InnerError, OuterError, Query, Eval]
};
const IDS: [InternalCircuitIndex; 13] = {
    use InternalCircuitIndex::*;
    [Hashes1Circuit, Hashes2Circuit, InnerCollapseCircuit, OuterCollapseCircuit, ComputeVCircuit, PreambleStage, InnerErrorStage, OuterErrorStage, QueryStage, EvalStage, InnerErrorFinalStaged, OuterErrorFinalStaged, EvalFinalStaged]
};
/// What belongs to one child: values at u, then values elsewhere, then where.
#[derive(Clone)]
pub struct Child<T> {
    pub rx: Vec<T>,
    pub a: T,
    pub b: T,
    pub xy: T,
    pub p: T,
}
/// The polynomials (or their values at u), in the order in which they are combined.
#[derive(Clone)]
pub struct Polys<T> {
    pub child: [Child<T>; 2],
    pub wx: [T; 2],
    pub wy: T,
    pub a: T,
    pub b: T,
    pub xy: T,
}
impl<T: Clone> Polys<T> {
    fn in_order(&self) -> Vec<T> {
        let mut o = vec![];
        for c in &self.child {
            o.extend(c.rx.iter().cloned());
            o.extend([c.a.clone(), c.b.clone(), c.xy.clone(), c.p.clone()]);
        }
        o.extend([self.wx[0].clone(), self.wx[1].clone(), self.wy.clone(), self.a.clone(), self.b.clone(), self.xy.clone()]);
        o
    }
}
/// Values claimed elsewhere.
#[derive(Clone)]
pub struct Claimed<F> {
    pub rx: [Vec<F>; 2],
    pub a: [F; 2],
    pub b: [F; 2],
    pub xy_w: [F; 2],
    pub xy_id: [F; 2],
    pub wy_x: [F; 2],
    pub v: [F; 2],
    pub fixed: Vec<F>,
    pub wxy: F,
    /// the new accumulator's
    pub ax: F,
    pub bx: F,
}
#[derive(Clone)]
pub struct At<F> {
    pub w: F,
    pub x: F,
    pub y: F,
    pub z: F,
    pub u: [F; 2],
    pub cy: [F; 2],
    pub cx: [F; 2],
    pub id: [F; 2],
}
/// Everything that is opened: the polynomial, its claimed value and the point, first one with the highest power of alpha.
pub fn openings<F: HF, T: Clone>(p: &Polys<T>, c: &Claimed<F>, at: &At<F>) -> Vec<(T, F, F)> {
    let xz = at.x * at.z;
    let mut o = vec![];
    let mut q = |p: &T, v: F, x: F| o.push((p.clone(), v, x));
    for i in 0..2 {
        q(&p.child[i].p, c.v[i], at.u[i]);
    }
    for i in 0..2 {
        q(&p.child[i].xy, c.xy_w[i], at.w);
    }
    for i in 0..2 {
        q(&p.wx[i], c.xy_w[i], at.cy[i]);
    }
    for i in 0..2 {
        q(&p.wx[i], c.wy_x[i], at.y);
    }
    for i in 0..2 {
        q(&p.wy, c.wy_x[i], at.cx[i]);
    }
    q(&p.wy, c.wxy, at.x);
    q(&p.xy, c.wxy, at.w);
    for i in 0..2 {
        q(&p.xy, c.xy_id[i], at.id[i]);
    }
    for i in 0..2 {
        q(&p.child[i].a, c.a[i], xz);
        q(&p.child[i].b, c.b[i], at.x);
    }
    q(&p.a, c.ax, xz);
    q(&p.b, c.bx, at.x);
    for i in 0..2 {
        for (p, v) in p.child[i].rx.iter().zip(&c.rx[i]) {
            q(p, *v, xz);
        }
    }
    for (k, v) in c.fixed.iter().enumerate() {
        q(&p.xy, *v, CircuitIndex::new(k).omega_j::<F>());
    }
    o
}
use ragu_circuits::registry::CircuitIndex;
fn horner<F: HF>(v: impl IntoIterator<Item = F>, x: F) -> F {
    v.into_iter().fold(F::ZERO, |s, c| s * x + c)
}
/// The values at (xz, x) of the two sides of every claim, in order.
fn sides<F: HF>(c: &Claimed<F>, z: F, txz: F) -> (Vec<F>, Vec<F>) {
    use RxIndex::*;
    let (mut a, mut b) = (vec![], vec![]);
    let rx = |i: usize, r: RxIndex| c.rx[i][RX.iter().position(|x| *x == r).unwrap()];
    for i in 0..2 {
        a.push(c.a[i]);
        b.push(c.b[i]);
    }
    for i in 0..2 {
        a.push(rx(i, Application));
        b.push(rx(i, Application) + c.xy_id[i] + txz);
    }
    for (k, rs) in [&[Hashes1, Preamble, OuterError][..], &[Hashes2, OuterError], &[InnerCollapse, Preamble, InnerError, OuterError], &[OuterCollapse, Preamble, OuterError], &[ComputeV, Preamble, Query, Eval]].iter().enumerate() {
        for i in 0..2 {
            let s = rs.iter().fold(F::ZERO, |s, r| s + rx(i, *r));
            a.push(s);
            b.push(s + c.fixed[k] + txz);
        }
    }
    for (k, rs) in [&[Preamble][..], &[InnerError], &[OuterError], &[Query], &[Eval], &[InnerCollapse], &[Hashes1, Hashes2, OuterCollapse], &[ComputeV]].iter().enumerate() {
        a.push(horner(rs.iter().flat_map(|r| (0..2).map(move |i| (i, *r))).map(|(i, r)| rx(i, r)), z));
        b.push(c.fixed[5 + k]);
    }
    (a, b)
}
/// Groups of seven, nineteen of them; missing ones count as zero.
fn two_layer<F: HF>(v: &[F], s1: F, s2: F) -> F {
    horner((0..19).map(|g| horner((0..7).map(|i| v.get(7 * g + i).copied().unwrap_or(F::ZERO)), s1)), s2)
}
fn t_at<F: HF>(x: F, z: F) -> F {
    horner(cs(&<Rk as Rank>::tz(z)).into_iter().rev(), x)
}
fn num<F: HF>(s: &str) -> F {
    F::from(s.bytes().fold(7u64, |h, b| (h * 31 + b as u64) % 1000003))
}
/// One challenge or point is arbitrary, the others are fixed numbers.
fn points<F: HF>() -> (impl Fn(&str) -> F, At<F>, [F; 5]) {
    const NAMES: [&str; 16] = ["none", "w", "x", "y", "z", "u", "alpha", "mu", "nu", "mu_prime", "nu_prime", "left_u", "right_u", "left_y", "right_x", "left_id"];
    let sel = NAMES[choose(NAMES.len())];
    let free = F::var("challenge");
    let ch = move |s: &str| if s == sel { free } else { num::<F>(s) };
    let at = At {
        w: ch("w"),
        x: ch("x"),
        y: ch("y"),
        z: ch("z"),
        u: [ch("left_u"), ch("right_u")],
        cy: [ch("left_y"), ch("right_y")],
        cx: [ch("left_x"), ch("right_x")],
        id: [ch("left_id"), ch("right_id")],
    };
    let mus = [ch("mu"), ch("nu"), ch("mu_prime"), ch("nu_prime"), ch("alpha")];
    (ch, at, mus)
}
fn beta<F: HF>(pre: F) -> F {
    ragu_primitives::lift_endoscalar(ragu_primitives::extract_endoscalar(pre))
}
fn rxv<F: HF>(v: &[F]) -> native::RxValues<F> {
    native::RxValues::from_fn(|id| v[RX.iter().position(|x| *x == id).unwrap()])
}
/// compute_v: v is what the openings, folded with alpha, and the polynomials' values at u, folded with beta, add up to.
fn cv<F: HF, M: RecMode>() {
    generic_position();
    let (ch, mut at, [mu, nu, mu2, nu2, alpha]) = points::<F>();
    if M::WITNESS {
        at.id = [0, 1].map(|i| CircuitIndex::new(20 + i).omega_j::<F>());
    }
    let u = ch("u");
    let mut k = 0;
    let mut fresh = |n: &str| {
        k += 1;
        F::var(&format!("{n}{k}"))
    };
    // values
    let mut child = |s: &str| Child { rx: (0..11).map(|_| fresh(&format!("{s}_u"))).collect::<Vec<_>>(), a: fresh("a"), b: fresh("b"), xy: fresh("xy"), p: fresh("p") };
    let pu = Polys { child: [child("l"), child("r")], wx: [fresh("wx0"), fresh("wx1")], wy: fresh("wy"), a: fresh("a"), b: fresh("b"), xy: fresh("xy") };
    let mut two = |s: &str| [fresh(&format!("l{s}")), fresh(&format!("r{s}"))];
    let (a, b, xy_w, xy_id, wy_x, v) = (two("a"), two("b"), two("xyw"), two("xyid"), two("wyx"), two("v"));
    let cl = Claimed { rx: [(0..11).map(|_| fresh("lrx")).collect(), (0..11).map(|_| fresh("rrx")).collect()], a, b, xy_w, xy_id, wy_x, v, fixed: (0..13).map(|_| fresh("fixed")).collect(), wxy: fresh("wxy"), ax: F::ZERO, bx: F::ZERO };
    // the specification
    let spec = |pu: &Polys<F>, cl: &Claimed<F>, v: [F; 2]| {
        let (a, b) = sides(cl, at.z, t_at(at.x, at.z));
        let mut cl = cl.clone();
        cl.v = v;
        cl.ax = two_layer(&a, mu.invert().unwrap(), mu2.invert().unwrap());
        cl.bx = two_layer(&b, mu * nu, mu2 * nu2);
        let fu = horner(openings(pu, &cl, &at).into_iter().map(|(p, v, x)| (p - v) * (u - x).invert().unwrap()), alpha);
        horner([fu].into_iter().chain(pu.in_order()), beta(ch("pre_beta")))
    };
    let (mut l, mut r) = (child_proof::<F>("l", true), child_proof::<F>("r", false));
    for (i, p) in [&mut l, &mut r].into_iter().enumerate() {
        p.challenges.u = at.u[i];
        p.challenges.y = at.cy[i];
        p.challenges.x = at.cx[i];
        p.p.native.v = cl.v[i];
        p.application.circuit_id = CircuitIndex::new(20 + i);
    }
    let (l, r) = (leak(l), leak(r));
    let (lh, rh) = (header::<F>("lh"), header::<F>("rh"));
    let pw = leak(preamble::Witness::new(l, r, &lh, &rh).unwrap());
    let ce = |c: &Child<F>| eval::ChildEvaluationsWitness { rx: rxv(&c.rx), a_poly: c.a, b_poly: c.b, registry_xy_poly: c.xy, p_poly: c.p };
    let ew = leak(eval::Witness { left: ce(&pu.child[0]), right: ce(&pu.child[1]), current: eval::CurrentStepWitness { registry_wx0: pu.wx[0], registry_wx1: pu.wx[1], registry_wy: pu.wy, a_poly: pu.a, b_poly: pu.b, registry_xy: pu.xy } });
    let cq = |i: usize| query::ChildEvaluationsWitness { rx: rxv(&cl.rx[i]), a_poly_at_xz: cl.a[i], b_poly_at_x: cl.b[i], child_registry_xy_at_current_w: cl.xy_w[i], current_registry_xy_at_child_circuit_id: cl.xy_id[i], current_registry_wy_at_child_x: cl.wy_x[i] };
    let qw = leak(query::Witness::<Cy<F>> { fixed_registry: native::InternalCircuitValues::from_fn(|id| cl.fixed[IDS.iter().position(|x| *x == id).unwrap()]), registry_wxy: cl.wxy, left: cq(0), right: cq(1) });
    let ins = || {
        let mut i = inst::<F>(&|s| ch(s));
        i.v = F::var("unused_v");
        i
    };
    let run = |d: &mut Rec<F, M>| {
        let c = compute_v::Circuit::<Cy<F>, Rk, HS>::new();
        let w = Rec::<F, M>::just(|| compute_v::Witness { unified: ins(), preamble_witness: pw, query_witness: qw, eval_witness: ew });
        c.witness(d, w).unwrap().into_output()
    };
    let mut d = Rec::<F, M>::new();
    if M::WITNESS {
        d.preset.extend(stage_vals::<F, Pre<F>>(pw));
        d.preset.extend(stage_vals::<F, Que<F>>(qw));
        d.preset.extend(stage_vals::<F, Eva<F>>(ew));
    } else {
        // which wires are the challenges: found in a run with a witness
        let mut h = Rec::<F, Always<()>>::new();
        h.preset.extend(stage_vals::<F, Pre<F>>(pw));
        h.preset.extend(stage_vals::<F, Que<F>>(qw));
        h.preset.extend(stage_vals::<F, Eva<F>>(ew));
        let c = compute_v::Circuit::<Cy<F>, Rk, HS>::new();
        let out = c.witness(&mut h, Always::maybe_just(|| compute_v::Witness { unified: ins(), preamble_witness: pw, query_witness: qw, eval_witness: ew })).unwrap().into_output();
        let ids = out_ids(&mut h, &out);
        let nums: Vec<F> = inst_vals(&ins());
        for i in 0..28 {
            if [U_W, U_Y, U_Z, U_MU, U_NU, U_MU2, U_NU2, U_X, U_ALPHA, U_U, U_BETA].contains(&i) {
                let n = h.alloc_log.iter().position(|w| w.id == ids[i]).unwrap();
                d.fixed.insert(n, nums[i]);
            }
        }
        before::<F, Pre<F>>(&mut d, |p| {
            let mut o = vec![];
            for (i, c) in [&p.left, &p.right].into_iter().enumerate() {
                o.extend([(c.unified.u.wire().id, at.u[i]), (c.unified.y.wire().id, at.cy[i]), (c.unified.x.wire().id, at.cx[i]), (c.circuit_id.wire().id, at.id[i])]);
            }
            o
        });
        // the bits of the endoscalar: extraction is P05's
        d.fixed_gates = h.bit_gates.clone();
    }
    let out = run(&mut d);
    let mut st = Stages::of(&d);
    let o = ser_out(&mut d, &out);
    check("length of the instance", o.len() == 30);
    prove_eq("suffix", o[29], F::ZERO);
    if M::WITNESS {
        d.prove_satisfied("constraints");
        let iv = inst_vals(&ins());
        prove_eqs("instance but v", &o[..28], &iv[..28]);
        prove_eq("v", o[28], spec(&pu, &cl, cl.v));
        return;
    }
    let (p, q, e) = (st.take::<Pre<F>>(), st.take::<Que<F>>(), st.take::<Eva<F>>());
    let ce = |c: &eval::ChildEvaluations<'static, Rec<F, Empty>>| Child { rx: RX.iter().map(|r| v_(c.rx.get(*r))).collect(), a: v_(&c.a_poly), b: v_(&c.b_poly), xy: v_(&c.registry_xy_poly), p: v_(&c.p_poly) };
    let pu = Polys { child: [ce(&e.left), ce(&e.right)], wx: [v_(&e.registry_wx0), v_(&e.registry_wx1)], wy: v_(&e.registry_wy), a: v_(&e.a_poly), b: v_(&e.b_poly), xy: v_(&e.registry_xy) };
    let c = [&q.left, &q.right];
    let cl = Claimed {
        rx: c.map(|c| RX.iter().map(|r| v_(c.rx.get(*r))).collect()),
        a: c.map(|c| v_(&c.a_poly_at_xz)),
        b: c.map(|c| v_(&c.b_poly_at_x)),
        xy_w: c.map(|c| v_(&c.child_registry_xy_at_current_w)),
        xy_id: c.map(|c| v_(&c.current_registry_xy_at_child_circuit_id)),
        wy_x: c.map(|c| v_(&c.current_registry_wy_at_child_x)),
        v: [v_(&p.left.unified.v), v_(&p.right.unified.v)],
        fixed: IDS.iter().map(|i| v_(q.fixed_registry.get(*i))).collect(),
        wxy: v_(&q.registry_wxy),
        ax: F::ZERO,
        bx: F::ZERO,
    };
    prove_eq("v", o[28], spec(&pu, &cl, cl.v));
}
both!(cv, cv_honest, cv_sound);
/// A polynomial with two free coefficients.
fn two_coeffs<F: HF>(name: &str, k: usize) -> Po<F> {
    let mut v = vec![F::ZERO; 128];
    v[(k * 7) % 120] = F::var(&format!("{name}_l"));
    v[127 - k % 3] = F::var(&format!("{name}_h"));
    Po::from_coeffs(v)
}
/// Two proofs and what the current step has computed so far.
fn step<F: HF>(ch: &dyn Fn(&str) -> F, at: &At<F>) -> ([Pf<F>; 2], Pf<F>, Polys<Vec<F>>) {
    let n = std::cell::Cell::new(0);
    let po = |s: &str| {
        n.set(n.get() + 1);
        two_coeffs::<F>(s, n.get())
    };
    let full = |side: &str| {
        let mut p = hx_ver::proof::<F>(&|s, _| po(&format!("{side}_{s}")), &|_, k| konst(k as u64), &|s| ch(s));
        p.ab.native.a_poly = po(&format!("{side}_a"));
        p.ab.native.b_poly = po(&format!("{side}_b"));
        p.query.native.registry_xy_poly = po(&format!("{side}_xy"));
        p.p.native.poly = po(&format!("{side}_p"));
        p
    };
    let mut c = [full("left"), full("right")];
    for (i, p) in c.iter_mut().enumerate() {
        p.challenges.u = at.u[i];
        p.challenges.y = at.cy[i];
        p.challenges.x = at.cx[i];
        p.application.circuit_id = CircuitIndex::new(15 + i);
    }
    let mut cur = hx_ver::proof::<F>(&|_, k| konst(k as u64), &|_, k| konst(k as u64), &|s| ch(s));
    cur.s_prime.native.registry_wx0_poly = po("wx0");
    cur.s_prime.native.registry_wx1_poly = po("wx1");
    cur.inner_error.native.registry_wy_poly = po("wy");
    cur.ab.native.a_poly = po("a");
    cur.ab.native.b_poly = po("b");
    cur.query.native.registry_xy_poly = po("xy");
    cur.f.native.poly = po("f");
    let of = |p: &Pf<F>| Child {
        rx: vec![
            cs(&p.application.rx_triple.rx),
            cs(&p.circuits.hashes_1.rx),
            cs(&p.circuits.hashes_2.rx),
            cs(&p.circuits.inner_collapse.rx),
            cs(&p.circuits.outer_collapse.rx),
            cs(&p.circuits.compute_v.rx),
            cs(&p.preamble.native.rx),
            cs(&p.inner_error.native.rx_triple.rx),
            cs(&p.outer_error.native.rx),
            cs(&p.query.native.rx_triple.rx),
            cs(&p.eval.native.rx),
        ],
        a: cs(&p.ab.native.a_poly),
        b: cs(&p.ab.native.b_poly),
        xy: cs(&p.query.native.registry_xy_poly),
        p: cs(&p.p.native.poly),
    };
    let pl = Polys {
        child: [of(&c[0]), of(&c[1])],
        wx: [cs(&cur.s_prime.native.registry_wx0_poly), cs(&cur.s_prime.native.registry_wx1_poly)],
        wy: cs(&cur.inner_error.native.registry_wy_poly),
        a: cs(&cur.ab.native.a_poly),
        b: cs(&cur.ab.native.b_poly),
        xy: cs(&cur.query.native.registry_xy_poly),
    };
    (c, cur, pl)
}
fn el_<F: HF>(d: &mut Rec<F, Always<()>>, v: F) -> E<F, Always<()>> {
    let w = d.input(v);
    Element::promote(w, Always::maybe_just(|| v))
}
/// f is the sum of the quotients of all openings, weighted like the circuit weighs them.
pub fn f_quotients<F: HF>() {
    opaque_bytes();
    generic_position();
    let (ch, mut at, mus) = points::<F>();
    at.id = [0, 1].map(|i| CircuitIndex::new(15 + i).omega_j::<F>());
    let alpha = mus[4];
    let ([l, r], cur, pl) = step::<F>(&ch, &at);
    let app = hx_ver::app::<F>();
    let mut d = Rec::<F, Always<()>>::new();
    let [w, y, z, x, al] = [at.w, at.y, at.z, at.x, alpha].map(|v| el_(&mut d, v));
    let f = app.compute_native_f(&w, &y, &z, &x, &al, &cur.s_prime, &cur.inner_error, &cur.ab, &cur.query, &l, &r).unwrap();
    // claimed values do not matter here
    let z2 = [F::ZERO; 2];
    let cl = Claimed { rx: [vec![F::ZERO; 11], vec![F::ZERO; 11]], a: z2, b: z2, xy_w: z2, xy_id: z2, wy_x: z2, v: z2, fixed: vec![F::ZERO; 13], wxy: F::ZERO, ax: F::ZERO, bx: F::ZERO };
    let mut want = vec![F::ZERO; 128];
    for (p, _, x) in openings(&pl, &cl, &at) {
        // q[k-1] = p[k] + x q[k]
        let mut q = vec![F::ZERO; 128];
        for k in (1..128).rev() {
            q[k - 1] = p[k] + x * q[k];
        }
        for (w, q) in want.iter_mut().zip(q) {
            *w = *w * alpha + q;
        }
    }
    prove_eqs("coefficients of f", &cs(&f.poly), &want);
}
fn v_<F: HF>(e: &E<F, Empty>) -> F {
    v(e)
}
fn out_ids<F: HF, M: RecMode, G: Gadget<'static, Rec<F, M>>>(d: &mut Rec<F, M>, g: &G) -> Vec<u32>
where
    G::Kind: ragu_primitives::io::Write<F, Rebind<'static, Rec<F, M>> = G>,
{
    let mut o: Vec<E<F, M>> = vec![];
    <G::Kind as ragu_primitives::io::Write<F>>::write_gadget(g, d, &mut o).unwrap();
    o.iter().map(|e| e.wire().id).collect()
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q08", cv_honest, Fp, "compute_v: what an honest prover does");
    h!(hs, "Q08", f_quotients, Fp, "the prover's quotient polynomial");
    h!(hs, "Q08", cv_sound, Fp, "compute_v: what satisfies it");
}
