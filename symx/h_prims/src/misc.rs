//! The simulator, fixed-length vectors, writing, demotion, consistency, and witness independence.
use crate::both;
use crate::util::*;
use ragu_core::drivers::{DirectSum, DriverTypes};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::routines::{Prediction, Routine};
use ragu_core::{Error, Result};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::io::{Buffer, Pipe, Write};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{multipack, Endoscalar, Sendable, Simulator};
use std::cell::RefCell;

// ---------------------------------------------------------------- P07: the simulator

fn coeff<F: HF>(name: &str) -> (Coeff<F>, F) {
    let v = F::var(name);
    match choose(6) {
        0 => (Coeff::Zero, F::ZERO),
        1 => (Coeff::One, F::ONE),
        2 => (Coeff::Two, F::ONE + F::ONE),
        3 => (Coeff::NegativeOne, -F::ONE),
        4 => (Coeff::Arbitrary(v), v),
        _ => (Coeff::NegativeArbitrary(v), -v),
    }
}
fn outcome<T>(label: &str, r: Result<T>, ok: Fml) -> Option<T> {
    match r {
        Ok(x) => {
            prove(&format!("{label} accepted"), ok);
            Some(x)
        }
        Err(e) => {
            prove(&format!("{label} refused"), ok.not());
            check(&format!("{label} error kind"), matches!(e, Error::InvalidWitness(_)));
            None
        }
    }
}
pub fn sim_gate<F: HF>() {
    let mut s = Simulator::<F>::new();
    let (a, b, c, d) = (F::var("a"), F::var("b"), F::var("c"), F::var("d"));
    let (ca, av) = if choose_bool() { (Coeff::Arbitrary(a), a) } else { (Coeff::NegativeArbitrary(a), -a) };
    let r = s.gate(|| Ok((ca, Coeff::Arbitrary(b), Coeff::Arbitrary(c), Coeff::Arbitrary(d))));
    let n = s.num_gates();
    if let Some((x, y, z, w)) = outcome("gate", r, (av * b).eqf(c).and((c * d).is0())) {
        prove_eqs("gate wires", &[x, y, z, w], &[av, b, c, d]);
        check("gate counted", n == 1 && s.num_allocations() == 0 && s.num_constraints() == 0);
    }
}
pub fn sim_ops<F: HF>() {
    let mut s = Simulator::<F>::new();
    let (c, v) = coeff::<F>("v");
    match choose(7) {
        0 => {
            let w = s.alloc(|| Ok(c)).unwrap();
            prove_eq("alloc", w, v);
            check("alloc counted", s.num_allocations() == 1 && s.num_gates() == 0 && s.num_constraints() == 0);
        }
        1 => {
            let w = s.constant(c);
            prove_eq("constant", w, v);
            check("constant is free", s.num_allocations() + s.num_gates() + s.num_constraints() == 0);
        }
        2 => {
            let (x, y, z) = (F::var("x"), F::var("y"), F::var("z"));
            let w = s.add(|lc| lc.add(&x).add_term(&y, c).sub(&z));
            prove_eq("add", w, x + v * y - z);
            check("add is free", s.num_allocations() + s.num_gates() + s.num_constraints() == 0);
        }
        3 => {
            let (x, y) = (F::var("x"), F::var("y"));
            let r = s.enforce_zero(|lc| lc.add_term(&x, c).add(&y));
            if outcome("enforce_zero", r, (v * x + y).is0()).is_some() {
                check("enforce_zero counted", s.num_constraints() == 1);
            }
        }
        4 => {
            let (x, y) = (F::var("x"), F::var("y"));
            let r = s.enforce_equal(&x, &y);
            if outcome("enforce_equal", r, x.eqf(y)).is_some() {
                check("enforce_equal counted", s.num_constraints() == 1);
            }
        }
        5 => {
            let (x, y, z) = (F::var("x"), F::var("y"), F::var("z"));
            let r = s.mul(|| Ok((Coeff::Arbitrary(x), Coeff::Arbitrary(y), Coeff::Arbitrary(z))));
            if let Some((a, b, c)) = outcome("mul", r, (x * y).eqf(z)) {
                prove_eqs("mul wires", &[a, b, c], &[x, y, z]);
                check("mul counted", s.num_gates() == 1);
            }
        }
        _ => {
            prove_eq("one", <Simulator<F> as Driver>::ONE, F::ONE);
            let e1 = s.alloc(|| Err(Error::InvalidWitness("no".into())));
            let e2 = s.gate(|| Err(Error::DegreeBoundExceeded { limit: 3 }));
            check("alloc error passes", matches!(e1, Err(Error::InvalidWitness(_))));
            check("gate error passes", matches!(e2, Err(Error::DegreeBoundExceeded { limit: 3 })));
        }
    }
}
/// Three operations in any order: the first false constraint stops the run, the counters count, reset clears.
pub fn sim_history<F: HF>() {
    let (x, y) = (F::var("x"), F::var("y"));
    let mut ok = Fml::B(true);
    let mut counts = (0, 0, 0);
    let plan: Vec<usize> = (0..3).map(|_| choose(4)).collect();
    let r = Simulator::<F>::simulate((x, y), |s, w| {
        let (x, y) = w.take();
        for p in &plan {
            match p {
                0 => {
                    ok = ok.clone().and(x.eqf(y));
                    s.enforce_equal(&x, &y)?;
                    counts.2 += 1;
                }
                1 => {
                    ok = ok.clone().and((x * y).eqf(F::ONE));
                    s.gate(|| Ok((Coeff::Arbitrary(x), Coeff::Arbitrary(y), Coeff::One, Coeff::Zero)))?;
                    counts.1 += 1;
                }
                2 => {
                    s.alloc(|| Ok(Coeff::Arbitrary(y)))?;
                    counts.0 += 1;
                }
                _ => {
                    ok = ok.clone().and((x + y).is0());
                    s.enforce_zero(|lc| lc.add(&x).add(&y))?;
                    counts.2 += 1;
                }
            }
        }
        Ok(())
    });
    let done = outcome("run", r, ok);
    if let Some(mut s) = done {
        check("counters", (s.num_allocations(), s.num_gates(), s.num_constraints()) == counts);
        s.reset();
        check("reset", (s.num_allocations(), s.num_gates(), s.num_constraints()) == (0, 0, 0));
    }
}
/// A routine under the simulator: predicted or not, it is executed and its constraints are checked.
#[derive(Clone)]
struct SquareIs {
    known: bool,
    lie: bool,
}
impl<F: HF> Routine<F> for SquareIs {
    type Input = Kind![F; Element<'_, _>];
    type Output = Kind![F; Element<'_, _>];
    type Aux<'dr> = F;
    fn execute<'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        input: Bound<'dr, D, Self::Input>,
        aux: DriverValue<D, Self::Aux<'dr>>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        let s = input.square(dr)?;
        let e = Element::alloc(dr, aux)?;
        let diff = s.sub(dr, &e);
        diff.enforce_zero(dr)?;
        Ok(s)
    }
    fn predict<'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        input: &Bound<'dr, D, Self::Input>,
    ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, Self::Aux<'dr>>>> {
        let lie = self.lie;
        let sq = D::just(|| {
            let v = *input.value().take();
            v * v + if lie { F::ONE } else { F::ZERO }
        });
        if self.known {
            let out = Element::alloc(dr, Maybe::clone(&sq))?;
            Ok(Prediction::Known(out, sq))
        } else {
            Ok(Prediction::Unknown(sq))
        }
    }
}
pub fn sim_routine<F: HF>() {
    let (known, lie) = (choose_bool(), choose_bool());
    let mut s = Simulator::<F>::new();
    let x = F::var("x");
    let input = Element::alloc(&mut s, Always::maybe_just(|| x)).unwrap();
    let r = s.routine(SquareIs { known, lie }, input);
    if let Some(out) = outcome("routine", r, Fml::B(!lie)) {
        prove_eq("routine output", *out.wire(), x * x);
        check("routine executed", s.num_gates() == 1 && s.num_constraints() >= 1);
    }
}

// ---------------------------------------------------------------- P08: vectors, writing, demotion

pub fn fixed_vec<F: HF>() {
    fn at<F: HF, const N: usize>() {
        let n = choose(6);
        let v: Vec<F> = vars("v", n);
        let how = choose(3);
        let r: Result<FixedVec<F, ConstLen<N>>> = match how {
            0 => FixedVec::new(v.clone()),
            1 => v.iter().copied().collect_fixed(),
            _ => v.iter().map(|x| Ok(*x)).try_collect_fixed(),
        };
        match r {
            Ok(f) => {
                check("accepted at its length only", n == N);
                check("length", f.len() == N);
                prove_eqs("elements in order", &f, &v);
                prove_eqs("clone", &Clone::clone(&f), &v);
                prove_eqs("iteration", &f.clone().into_iter().collect::<Vec<_>>(), &v);
                prove_eqs("into_inner", &f.into_inner(), &v);
            }
            Err(e) => check(
                "refused with both lengths",
                n != N && matches!(e, Error::VectorLengthMismatch { expected, actual } if expected == N && actual == n),
            ),
        }
    }
    match choose(4) {
        0 => at::<F, 0>(),
        1 => at::<F, 1>(),
        2 => at::<F, 3>(),
        _ => at::<F, 5>(),
    }
}
pub fn fixed_vec_from_fn<F: HF>() {
    let v: Vec<F> = vars("v", 4);
    let seen = RefCell::new(vec![]);
    let f = FixedVec::<F, ConstLen<4>>::from_fn(|i| {
        seen.borrow_mut().push(i);
        v[i]
    });
    check("from_fn visits in order, once", *seen.borrow() == [0, 1, 2, 3]);
    prove_eqs("from_fn", &f, &v);
    let bad = choose(5);
    let r = FixedVec::<F, ConstLen<4>>::try_from_fn(|i| {
        if i == bad {
            Err(Error::DegreeBoundExceeded { limit: i })
        } else {
            Ok(v[i])
        }
    });
    match r {
        Ok(f) => {
            check("try_from_fn succeeds", bad == 4);
            prove_eqs("try_from_fn", &f, &v);
        }
        Err(e) => check("try_from_fn error", matches!(e, Error::DegreeBoundExceeded { limit } if limit == bad && bad < 4)),
    }
    check("range", ConstLen::<4>::range() == (0..4) && <ConstLen<7> as Len>::len() == 7);
}
/// Mapping a vector of gadgets visits every element in order; equality enforces every wire.
fn fixed_vec_gadget<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = els(dr, "a", 3);
    let (b, bv) = els(dr, "b", 3);
    let a: FixedVec<_, ConstLen<3>> = FixedVec::new(a).unwrap();
    let b: FixedVec<_, ConstLen<3>> = FixedVec::new(b).unwrap();
    prove_eqs("wires in order", &wire_vals(&a), &av);
    check("wire count", a.num_wires().unwrap() == 3);
    a.enforce_equal(dr, &b).unwrap();
    let spec = Fml::all(av.iter().zip(&bv).map(|(x, y)| x.eqf(*y)));
    prove("enforce_equal is equality of all elements", Fml::all(dr.cons.iter().cloned()).iff(spec));
}
both!(fixed_vec_gadget, fixed_vec_gadget_honest, fixed_vec_gadget_free);

struct Sink<F>(Vec<F>);
impl<'dr, F: HF, M: RecMode> Buffer<'dr, Rec<F, M>> for Sink<F> {
    fn write(&mut self, _: &mut Rec<F, M>, e: &Element<'dr, Rec<F, M>>) -> Result<()> {
        self.0.push(e.wire().val);
        Ok(())
    }
}
fn written<F: HF, M: RecMode, G: Gadget<'static, Rec<F, M>>>(dr: &mut Rec<F, M>, g: &G) -> Vec<F>
where
    G::Kind: Write<F>,
{
    let mut s = Sink(vec![]);
    g.write(dr, &mut s).unwrap();
    s.0
}
fn writing<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (e, ev) = els(dr, "e", 4);
    let (b, bv) = bo(dr);
    let n = dr.events.len();
    match choose(7) {
        0 => prove_eqs("element", &written(dr, &e[0]), &ev[..1]),
        1 => prove_eqs("boolean", &written(dr, &b), &[bv]),
        2 => {
            let t = ((e[0].clone(), e[1].clone()), (b.clone(), e[2].clone()));
            prove_eqs("nested pairs", &written(dr, &t), &[ev[0], ev[1], bv, ev[2]]);
        }
        3 => {
            let t = [e[0].clone(), e[1].clone(), e[2].clone(), e[3].clone()];
            prove_eqs("array", &written(dr, &t), &ev);
        }
        4 => {
            check("unit", written::<F, M, ()>(dr, &()).is_empty());
        }
        5 => {
            let t: FixedVec<_, ConstLen<4>> = FixedVec::new(e.clone()).unwrap();
            prove_eqs("fixed vector", &written(dr, &t), &ev);
        }
        _ => {
            let t: FixedVec<_, ConstLen<2>> =
                FixedVec::new(vec![[e[0].clone(), e[1].clone()], [e[2].clone(), e[3].clone()]]).unwrap();
            let t = (t, b.clone());
            prove_eqs("nested containers", &written(dr, &t), &[ev[0], ev[1], ev[2], ev[3], bv]);
        }
    }
    // writing adds no constraint and no wire
    check("writing only writes", dr.events.len() == n);
}
both!(writing, writing_honest, writing_free);
fn vec_buffer<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (e, ev) = els(dr, "e", 3);
    let mut buf: Vec<E<F, M>> = vec![];
    for x in &e {
        x.write(dr, &mut buf).unwrap();
    }
    prove_eqs("buffered in order", &buf.iter().map(|x| v(x)).collect::<Vec<_>>(), &ev);
    for x in &buf {
        value_matches("buffered", x);
    }
    let s = e[0].clone().sendable();
    prove_eq("sendable", Sendable::clone(&s).wire().val, ev[0]);
    prove_eq("sendable, back", s.into_inner().wire().val, ev[0]);
}
both!(vec_buffer, vec_buffer_honest, vec_buffer_free);
/// A pipe allocates in the destination driver exactly the written values, in order.
pub fn pipe<F: HF>() {
    let mut src = Rec::<F, Always<()>>::new();
    let mut dst = Rec::<F, Always<()>>::new();
    let (e, ev) = els(&mut src, "e", 3);
    let mut out: Vec<E<F, Always<()>>> = vec![];
    {
        let mut p = Pipe::new(&mut dst, &mut out);
        for x in &e {
            Buffer::<Rec<F, Always<()>>>::write(&mut p, &mut src, x).unwrap();
        }
    }
    check("count", out.len() == 3 && dst.allocs == 3 && src.allocs == 0);
    prove_eqs("piped wires", &out.iter().map(|x| v(x)).collect::<Vec<_>>(), &ev);
    for x in &out {
        value_matches("piped", x);
    }
}
/// Demotion keeps every wire; promotion restores the gadget with the given witness.
fn demotion<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (e, ev) = el(dr, "e");
    let (b, bv) = bo(dr);
    let n = dr.events.len();
    let de = e.demote().unwrap();
    let de2 = de.clone();
    prove_eqs("demoted wires", &wire_vals(&de2), &[ev]);
    let db = b.demote().unwrap();
    let nb = choose_bool();
    let bb = db.promote(<Rec<F, M> as Driver>::just(|| nb));
    prove_eq("boolean wire kept", bb.wire().val, bv);
    let _ = <Rec<F, M> as Driver>::just(|| check("promoted boolean", bb.value().take() == nb));
    // demoted gadgets are compared by their wires
    let (f, fv) = el(dr, "f");
    let df = f.demote().unwrap();
    let before = dr.cons.len();
    de.enforce_equal(dr, &df).unwrap();
    prove("demoted equality", Fml::all(dr.cons[before..].iter().cloned()).iff(ev.eqf(fv)));
    // the removed and added drivers cost nothing
    check("no constraint, no wire but those of the equality", dr.events.len() == n + 1);
}
both!(demotion, demotion_honest, demotion_free);

// ---------------------------------------------------------------- P10: consistency

fn consistent<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    // booleans on arbitrary wires, so that consistency has something to say
    let (w, x) = (dr.free("w"), dr.free("x"));
    let (e, _) = el(dr, "e");
    let (ba, bb) = (choose_bool(), choose_bool());
    let (a, b) = (raw_bool::<F, M>(w, ba), raw_bool::<F, M>(x, bb));
    // with a witness: exactly the wires that carry it; without: 0 or 1
    let on = |v: F, b: bool| if M::WITNESS { v.eqf(bit(b)) } else { v.is0().or(v.eqf(F::ONE)) };
    let (label, spec) = match choose(7) {
        0 => {
            a.enforce_consistent(dr).unwrap();
            ("boolean", on(w.val, ba))
        }
        1 => {
            e.enforce_consistent(dr).unwrap();
            ("element", Fml::B(true))
        }
        2 => {
            (a, b).enforce_consistent(dr).unwrap();
            ("pair", on(w.val, ba).and(on(x.val, bb)))
        }
        3 => {
            [a, b].enforce_consistent(dr).unwrap();
            ("array", on(w.val, ba).and(on(x.val, bb)))
        }
        4 => {
            let v: FixedVec<_, ConstLen<2>> = FixedVec::new(vec![a, b]).unwrap();
            v.enforce_consistent(dr).unwrap();
            ("fixed vector", on(w.val, ba).and(on(x.val, bb)))
        }
        5 => {
            Box::new(((), [(a, e), (b, el(dr, "g").0)])).enforce_consistent(dr).unwrap();
            ("nested", on(w.val, ba).and(on(x.val, bb)))
        }
        _ => {
            let none: [B<F, M>; 0] = [];
            none.enforce_consistent(dr).unwrap();
            ("empty array", Fml::B(true))
        }
    };
    if M::WITNESS {
        prove(label, Fml::all(dr.cons.iter().cloned()).iff(spec));
    } else {
        dr.implies(label, vec![], spec);
    }
}
both!(consistent, consistent_honest, consistent_sound);
/// The same gadget on other wires.
struct Put<F: HF, M>(Vec<W<F>>, PhantomData<M>);
impl<F: HF, M: RecMode> ragu_core::convert::WireMap<F> for Put<F, M> {
    type Src = Rec<F, M>;
    type Dst = Rec<F, M>;
    fn convert_wire(&mut self, _: &W<F>) -> Result<W<F>> {
        Ok(self.0.remove(0))
    }
}
fn raw_bool<F: HF, M: RecMode>(w: W<F>, b: bool) -> B<F, M> {
    let mut scratch = Rec::<F, M>::new();
    let g: B<F, M> = Boolean::alloc(&mut scratch, <Rec<F, M> as Driver>::just(|| b)).unwrap();
    g.map(&mut Put::<F, M>(vec![w], PhantomData)).unwrap()
}
fn point_consistent<F: HF, M: RecMode>() {
    use crate::point::*;
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (x, y) = (F::var("x"), F::var("y"));
    if M::WITNESS {
        assume(on_curve(x, y));
    }
    let (w0, w1) = (dr.free("w"), dr.free("v"));
    let p: Pt<F, M> = pt(dr, x, y);
    let p = p.map(&mut Put::<F, M>(vec![w0, w1], PhantomData)).unwrap();
    let before = dr.cons.len();
    let nested = choose_bool();
    if nested {
        (p, ()).enforce_consistent(dr).unwrap();
    } else {
        p.enforce_consistent(dr).unwrap();
    }
    if M::WITNESS {
        let spec = w0.val.eqf(x).and(w1.val.eqf(y));
        prove("point", Fml::all(dr.cons[before..].iter().cloned()).iff(spec));
    } else {
        dr.implies("point on the curve", vec![], on_curve(w0.val, w1.val));
    }
}
both!(point_consistent, point_consistent_honest, point_consistent_sound);

// ---------------------------------------------------------------- P09: witness independence

type Prog<F, M> = fn(&mut Rec<F, M>, &[W<F>], &[F], bool) -> Result<()>;
fn progs<F: HF, M: RecMode>() -> Vec<(&'static str, Prog<F, M>)> {
    fn e<F: HF, M: RecMode>(w: &W<F>, v: F) -> E<F, M> {
        Element::promote(*w, <Rec<F, M> as Driver>::just(|| v))
    }
    vec![
        ("alloc", |d, _, v, _| {
            let a: E<F, M> = Element::alloc(d, <Rec<F, M> as Driver>::just(|| v[0]))?;
            let (b, _) = Element::alloc_square(d, <Rec<F, M> as Driver>::just(|| v[1]))?;
            a.enforce_equal(d, &b)
        }),
        ("arithmetic", |d, w, v, _| {
            let (a, b) = (e(&w[0], v[0]), e(&w[1], v[1]));
            let c = a.mul(d, &b)?.square(d)?.add(d, &a).sub(d, &b).double(d).negate(d);
            c.scale(d, Coeff::Two).enforce_zero(d)
        }),
        ("tests", |d, w, v, _| {
            let (a, b) = (e::<F, M>(&w[0], v[0]), e(&w[1], v[1]));
            let z = a.is_zero(d)?;
            let q = a.is_equal(d, &b)?;
            let x = z.and(d, &q)?.not(d);
            x.conditional_select(d, &a, &b)?;
            x.conditional_enforce_equal(d, &a, &b)
        }),
        ("inversion", |d, w, v, _| {
            let (a, b) = (e::<F, M>(&w[0], v[0]), e(&w[1], v[1]));
            a.invert(d)?;
            a.div_nonzero(d, &b)?;
            b.enforce_root_of_unity(d, 3)
        }),
        ("sums", |d, w, v, _| {
            let (a, b) = (e::<F, M>(&w[0], v[0]), e(&w[1], v[1]));
            let s = Element::sum(d, [&a, &b, &a]);
            let k: E<F, M> = Element::constant(d, F::from(7));
            let m = ragu_primitives::multiadd(d, &[a.clone(), b.clone(), k], &[F::ONE, F::ZERO, F::from(5)]);
            s.enforce_equal(d, &m)
        }),
        ("booleans", |d, _, _, b| {
            let x: B<F, M> = Boolean::alloc(d, <Rec<F, M> as Driver>::just(|| b))?;
            let y: B<F, M> = Boolean::alloc(d, <Rec<F, M> as Driver>::just(|| !b))?;
            let z = x.and(d, &y)?;
            multipack(d, &[x, y, z])?;
            Ok(())
        }),
        ("points", |d, w, v, b| {
            use crate::point::*;
            // a curve point whatever the inputs are: the generator or its negative
            let (gx, gy) = <Cv<F> as pasta_curves::curve::CurveParams>::gen();
            let y = if b { gy } else { -gy };
            let p: Pt<F, M> = Point::alloc(d, <Rec<F, M> as Driver>::just(|| A::<F>::from_xy_unchecked(gx, y)))?;
            let q = p.double(d)?;
            let c: B<F, M> = Boolean::alloc(d, <Rec<F, M> as Driver>::just(|| b))?;
            let r = p.conditional_negate(d, &c)?.conditional_endo(d, &c)?;
            q.double_and_add_incomplete(d, &r)?;
            let _ = (w, v);
            q.negate(d).endo(d).enforce_equal(d, &q)
        }),
        ("endoscalar", |d, _, v, b| {
            let _ = v;
            let t: u128 = if b { 0x5a5a_0f0f } else { 7 };
            let s: Endoscalar<'static, Rec<F, M>> = Endoscalar::alloc(d, <Rec<F, M> as Driver>::just(|| t.into()))?;
            s.lift(d)?;
            Ok(())
        }),
    ]
}
fn independence_of<F: HF>(k: usize) {
    let (w, v, b) = (vars::<F>("w", 2), vars::<F>("v", 2), choose_bool());
    let mut x = Rec::<F, Always<()>>::new();
    let mut y = Rec::<F, Empty>::new();
    let xs: Vec<W<F>> = w.iter().map(|a| x.input(*a)).collect();
    let ys: Vec<W<F>> = w.iter().map(|a| y.input(*a)).collect();
    let (name, p) = progs::<F, Always<()>>()[k];
    let q = progs::<F, Empty>()[k].1;
    check(&format!("{name}: no witness, no failure"), q(&mut y, &ys, &v, b).is_ok());
    // a witness may be refused, but up to there the structure is the same
    let r = p(&mut x, &xs, &v, b);
    let n = if r.is_ok() { y.events.len() } else { x.events.len() };
    prove_same_structure(name, &x.events, &y.events[..n.min(y.events.len())]);
}
pub fn independence<F: HF>() {
    independence_of::<F>(choose(8))
}

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    use symx::{T13, T7};
    h!(hs, "P07", sim_gate, T13, "Simulator::gate: accepted exactly when a*b = c and c*d = 0 (F_13)");
    h!(hs, "P07", sim_gate, T7, "the same over F_7");
    h!(hs, "P07", sim_ops, T13, "Simulator: every operation, its verdict, its wires and its counters");
    h!(hs, "P07", sim_history, T13, "Simulator: every sequence of three operations");
    h!(hs, "P07", sim_routine, T13, "Simulator::routine: executed whatever was predicted");
    h!(hs, "P08", fixed_vec, Fp, "FixedVec: lengths 0..=5 against expected lengths 0, 1, 3, 5");
    h!(hs, "P08", fixed_vec_from_fn, Fp, "FixedVec::{from_fn, try_from_fn}");
    h!(hs, "P08", fixed_vec_gadget_honest, T13, "FixedVec as a gadget");
    h!(hs, "P08", fixed_vec_gadget_free, T13, "FixedVec as a gadget, without a witness");
    h!(hs, "P08", writing_honest, Fp, "Write of elements, booleans, pairs, arrays, vectors and their nesting");
    h!(hs, "P08", writing_free, Fp, "the same without a witness");
    h!(hs, "P08", vec_buffer_honest, Fp, "buffers and sendable gadgets");
    h!(hs, "P08", vec_buffer_free, Fp, "the same without a witness");
    h!(hs, "P08", pipe, Fp, "Pipe: the destination receives the written values in order");
    h!(hs, "P08", demotion_honest, T13, "demote and promote");
    h!(hs, "P08", demotion_free, T13, "demote and promote, without a witness");
    h!(hs, "P10", consistent_honest, T13, "enforce_consistent on booleans and containers of them: satisfied exactly by the witness's wires");
    h!(hs, "P10", consistent_sound, T13, "enforce_consistent forces booleans to be 0 or 1, through every container");
    h!(hs, "P10", point_consistent_honest, T13, "enforce_consistent on points, honest");
    h!(hs, "P10", point_consistent_sound, T13, "enforce_consistent forces points onto the curve");
    h!(hs, "P09", independence, T13, "constraint structure of every gadget family with and without a witness (F_13)");
    h!(hs, "P09", independence, Fp, "the same over Fp");
}
