//! Arbitrary circuits (straight-line programs with nested routines over symbolic coefficients and witness values), and
//! an independent reading of what they mean: gates, wires and constraints in segments.
use crate::util::*;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::drivers::emulator::Emulator;
use ragu_core::drivers::DriverTypes;
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::routines::{Prediction, Routine};

/// Operands count from the newest wire backwards.
#[derive(Clone)]
pub enum Op<F: HF> {
    Alloc(F),
    Gate([F; 4]),
    Mul([F; 3]),
    Const(Coeff<F>),
    /// `c0 * w[i] + g * (w[j] + c1 * ONE)`
    Add(usize, usize, Coeff<F>, Coeff<F>, Coeff<F>),
    /// the same, enforced to be zero
    Zero(usize, usize, Coeff<F>, Coeff<F>, Coeff<F>),
    Equal(usize, usize),
    /// an allocation whose witness is refused
    Fail(usize),
    Call { body: Vec<Op<F>>, known: bool },
}
type El<'dr, D> = Element<'dr, D>;
fn back<T>(v: &[T], i: usize) -> &T {
    &v[v.len() - 1 - i % v.len()]
}
/// Runs the operations; `v` starts non-empty.
pub fn run<'dr, F: HF, D: Driver<'dr, F = F>>(dr: &mut D, ops: &[Op<F>], v: &mut Vec<El<'dr, D>>) -> Result<()> {
    let arb = Coeff::Arbitrary;
    for op in ops {
        match op.clone() {
            Op::Alloc(x) => {
                let w = dr.alloc(|| Ok(arb(x)))?;
                v.push(Element::promote(w, D::just(|| x)));
            }
            Op::Gate(x) => {
                let (a, b, c, d) = dr.gate(|| Ok((arb(x[0]), arb(x[1]), arb(x[2]), arb(x[3]))))?;
                for (w, x) in [a, b, c, d].into_iter().zip(x) {
                    v.push(Element::promote(w, D::just(|| x)));
                }
            }
            Op::Mul(x) => {
                let (a, b, c) = dr.mul(|| Ok((arb(x[0]), arb(x[1]), arb(x[2]))))?;
                for (w, x) in [a, b, c].into_iter().zip(x) {
                    v.push(Element::promote(w, D::just(|| x)));
                }
            }
            Op::Const(k) => {
                let w = dr.constant(k);
                v.push(Element::promote(w, D::just(|| val(k))));
            }
            Op::Add(i, j, c0, g, c1) => {
                let (p, q) = (back(v, i), back(v, j));
                let w = dr.add(|l| l.add_term(p.wire(), c0).gain(g).add(q.wire()).add_term(&D::ONE, c1));
                let (x, y) = (p.value(), q.value());
                let s = D::just(|| val(c0) * *x.take() + val(g) * (*y.take() + val(c1)));
                v.push(Element::promote(w, s));
            }
            Op::Zero(i, j, c0, g, c1) => {
                let (p, q) = (back(v, i), back(v, j));
                dr.enforce_zero(|l| l.add_term(p.wire(), c0).gain(g).add(q.wire()).add_term(&D::ONE, c1))?;
            }
            Op::Equal(i, j) => dr.enforce_equal(back(v, i).wire(), back(v, j).wire())?,
            Op::Fail(k) => {
                let w = dr.alloc(|| Err(ragu_core::Error::CircuitBoundExceeded { limit: k }))?;
                v.push(Element::promote(w, D::just(|| F::ZERO)));
            }
            Op::Call { body, known } => {
                let input = (back(v, 0).clone(), back(v, 1).clone());
                let out = dr.routine(Ro { body, known }, input)?;
                v.push(out.0);
                v.push(out.1);
            }
        }
    }
    Ok(())
}
#[derive(Clone)]
pub struct Ro<F: HF> {
    body: Vec<Op<F>>,
    known: bool,
}
pub type Pair<F> = (PhantomData<Kind![F; Element<'_, _>]>, PhantomData<Kind![F; Element<'_, _>]>);
fn body<'dr, F: HF, D: Driver<'dr, F = F>>(dr: &mut D, ops: &[Op<F>], i: &(El<'dr, D>, El<'dr, D>)) -> Result<(El<'dr, D>, El<'dr, D>)> {
    let mut v = vec![i.0.clone(), i.1.clone()];
    run(dr, ops, &mut v)?;
    Ok((back(&v, 0).clone(), back(&v, 1).clone()))
}
impl<F: HF> Routine<F> for Ro<F> {
    type Input = Pair<F>;
    type Output = Pair<F>;
    type Aux<'dr> = ();
    fn execute<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: Bound<'dr, D, Self::Input>, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, Self::Output>> {
        body(dr, &self.body, &input)
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(&self, dr: &mut D, input: &Bound<'dr, D, Self::Input>) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        Ok(if self.known { Prediction::Known(body(dr, &self.body, input)?, D::unit()) } else { Prediction::Unknown(D::unit()) })
    }
}
/// The circuit running the operations and returning its last wires.
#[derive(Clone)]
pub struct Prog<F: HF, const OUT: usize> {
    pub ops: Vec<Op<F>>,
}
impl<F: HF, const OUT: usize> Circuit<F> for Prog<F, OUT> {
    type Instance<'s> = Vec<F>;
    type Witness<'s> = ();
    type Output = FixedVec<PhantomData<Kind![F; Element<'_, _>]>, ConstLen<OUT>>;
    type Aux<'s> = usize;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, instance: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::Output>> {
        FixedVec::try_from_fn(|i| Element::alloc(dr, instance.as_ref().map(|v| v[i])))
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, _: DriverValue<D, ()>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, usize>>> {
        let mut v = vec![Element::one()];
        run(dr, &self.ops, &mut v)?;
        let out = FixedVec::try_from_fn(|i| Ok(back(&v, OUT - 1 - i).clone()))?;
        Ok(WithAux::new(out, D::just(|| 41)))
    }
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Default)]
pub struct Seg<F> {
    /// values of the wires (a, b, c, d) of each gate; with a witness
    pub vals: Vec<[F; 4]>,
    pub gates: usize,
    /// gates made by the program (their equations matter); the others only hold allocations
    pub proper: Vec<usize>,
    /// values of the constraints, in the order of enforcement
    pub cons: Vec<F>,
    free_d: Option<usize>,
}
/// Assigns gates and constraints to segments: one per routine call, in order of the calls.
pub struct Lay<F: HF, M> {
    pub segs: Vec<Seg<F>>,
    cur: usize,
    /// start of each segment, in gates; when known
    starts: Vec<usize>,
    /// value of a wire, by global gate index and slot; without a witness
    wire: Box<dyn Fn(usize, usize) -> F>,
    one: F,
    m: PhantomData<M>,
}
#[derive(Clone)]
pub enum LW<F> {
    One,
    V(F),
}
pub struct LSum<F>(F, F, F);
impl<F: HF> LinearExpression<LW<F>, F> for LSum<F> {
    fn add_term(self, w: &LW<F>, c: Coeff<F>) -> Self {
        let w = match w {
            LW::One => self.2,
            LW::V(v) => *v,
        };
        LSum(self.0 + self.1 * val(c) * w, self.1, self.2)
    }
    fn gain(self, c: Coeff<F>) -> Self {
        LSum(self.0, self.1 * val(c), self.2)
    }
}
impl<F: HF, M: RecMode> Lay<F, M> {
    fn new(starts: Vec<usize>, wire: Box<dyn Fn(usize, usize) -> F>, one: F) -> Self {
        Lay { segs: vec![Seg { vals: vec![], gates: 0, proper: vec![], cons: vec![], free_d: None }], cur: 0, starts, wire, one, m: PhantomData }
    }
    fn place(&mut self, x: Option<[F; 4]>) -> (usize, [F; 4]) {
        let s = &mut self.segs[self.cur];
        let local = s.gates;
        s.gates += 1;
        let v = x.unwrap_or_else(|| {
            let g = self.starts.get(self.cur).copied().unwrap_or(0) + local;
            [0, 1, 2, 3].map(|k| (self.wire)(g, k))
        });
        self.segs[self.cur].vals.push(v);
        (local, v)
    }
}
impl<F: HF, M: RecMode> DriverTypes for Lay<F, M> {
    type ImplField = F;
    type ImplWire = LW<F>;
    type MaybeKind = M;
    type LCadd = LSum<F>;
    type LCenforce = LSum<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(LW<F>, LW<F>, LW<F>, LW<F>)> {
        let x = if M::WITNESS { Some(values()?).map(|(a, b, c, d)| [val(a), val(b), val(c), val(d)]) } else { None };
        let (i, v) = self.place(x);
        self.segs[self.cur].proper.push(i);
        let [a, b, c, d] = v.map(LW::V);
        Ok((a, b, c, d))
    }
}
impl<'dr, F: HF, M: RecMode> Driver<'dr> for Lay<F, M> {
    type F = F;
    type Wire = LW<F>;
    const ONE: LW<F> = LW::One;
    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<F>>) -> Result<LW<F>> {
        let x = if M::WITNESS { Some(val(value()?)) } else { None };
        if let Some(i) = self.segs[self.cur].free_d.take() {
            let slot = &mut self.segs[self.cur].vals[i][3];
            if let Some(x) = x {
                *slot = x;
            }
            return Ok(LW::V(*slot));
        }
        let (i, v) = self.place(x.map(|x| [F::ZERO, x, F::ZERO, F::ZERO]));
        self.segs[self.cur].free_d = Some(i);
        Ok(LW::V(v[1]))
    }
    fn add(&mut self, lc: impl Fn(LSum<F>) -> LSum<F>) -> LW<F> {
        LW::V(lc(LSum(F::ZERO, F::ONE, self.one)).0)
    }
    fn enforce_zero(&mut self, lc: impl Fn(LSum<F>) -> LSum<F>) -> Result<()> {
        let v = lc(LSum(F::ZERO, F::ONE, self.one)).0;
        self.segs[self.cur].cons.push(v);
        Ok(())
    }
    fn routine<Ro: Routine<F> + 'dr>(&mut self, routine: Ro, input: Bound<'dr, Self, Ro::Input>) -> Result<Bound<'dr, Self, Ro::Output>> {
        self.segs.push(Seg { vals: vec![], gates: 0, proper: vec![], cons: vec![], free_d: None });
        let saved = std::mem::replace(&mut self.cur, self.segs.len() - 1);
        let aux = Emulator::predict(&routine, &input)?.into_aux();
        let r = routine.execute(self, input, aux);
        self.cur = saved;
        r
    }
}
/// What the reference makes of a circuit.
pub struct Meaning<F> {
    pub segs: Vec<Seg<F>>,
    pub outputs: Vec<F>,
}
impl<F: HF> Meaning<F> {
    pub fn gates(&self) -> usize {
        self.segs.iter().map(|s| s.gates).sum()
    }
    pub fn constraints(&self) -> usize {
        self.segs.iter().map(|s| s.cons.len()).sum()
    }
    /// gate values in layout order
    pub fn all_gates(&self) -> Vec<[F; 4]> {
        self.segs.iter().flat_map(|s| s.vals.iter().copied()).collect()
    }
    /// global indices of the gates whose equations matter
    pub fn proper(&self) -> Vec<usize> {
        let mut start = 0;
        let mut r = vec![];
        for s in &self.segs {
            r.extend(s.proper.iter().map(|i| start + i));
            start += s.gates;
        }
        r
    }
    /// constraint values: the coefficient of `y^j` at index j
    pub fn all_cons(&self) -> Vec<F> {
        self.segs.iter().flat_map(|s| s.cons.iter().rev().copied()).collect()
    }
}
fn drive<'dr, F: HF, M: RecMode, const OUT: usize>(mut d: Lay<F, M>, p: &'dr Prog<F, OUT>) -> Meaning<F> {
    d.gate(|| Ok((Coeff::Zero, Coeff::One, Coeff::Zero, Coeff::Zero))).unwrap();
    let out = p.witness(&mut d, Lay::<F, M>::unit()).unwrap().into_output();
    let get = |w: &LW<F>| match w {
        LW::One => d.one,
        LW::V(v) => *v,
    };
    let outputs: Vec<F> = out.iter().map(|e| get(e.wire())).collect();
    let one = d.one;
    d.segs[0].cons.extend(outputs.iter().copied());
    d.segs[0].cons.push(one);
    Meaning { segs: d.segs, outputs }
}
/// With the wires standing for given values.
pub fn formal<F: HF, const OUT: usize>(p: &Prog<F, OUT>, one: F, wire: impl Fn(usize, usize) -> F + Clone + 'static) -> Meaning<F> {
    let first = drive(Lay::<F, Empty>::new(vec![], Box::new(wire.clone()), one), p);
    let mut starts = vec![];
    let mut n = 0;
    for s in &first.segs {
        starts.push(n);
        n += s.gates;
    }
    drive(Lay::<F, Empty>::new(starts, Box::new(wire), one), p)
}
/// With the program's own values.
pub fn honest<F: HF, const OUT: usize>(p: &Prog<F, OUT>) -> Meaning<F> {
    drive(Lay::<F, Always<()>>::new(vec![], Box::new(|_, _| F::ZERO), F::ONE), p)
}
