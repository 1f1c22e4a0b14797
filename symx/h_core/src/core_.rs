use crate::util::*;
use ragu_core::convert::{CloneWires, StripWires, WireMap};
use ragu_core::drivers::emulator::{Emulator, Wired, Wireless};
use ragu_core::drivers::{DirectSum, DriverTypes};
use ragu_core::gadgets::{Bound, GadgetKind, Kind};
use ragu_core::routines::{Prediction, Routine};
use ragu_core::Error;
use std::cell::{Cell, RefCell};
use symdrv::val;

/// One of the six forms of a coefficient, over a symbolic value.
fn coeff<F: HF>(name: &str) -> Coeff<F> {
    match choose(6) {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::Two,
        3 => Coeff::NegativeOne,
        4 => Coeff::Arbitrary(F::var(name)),
        _ => Coeff::NegativeArbitrary(F::var(name)),
    }
}
/// The forms that differ most, for long programs.
fn coeff3<F: HF>(name: &str) -> Coeff<F> {
    if choose_bool() { Coeff::NegativeArbitrary(F::var(name)) } else { Coeff::Two }
}
fn err(k: usize) -> Error {
    Error::CircuitBoundExceeded { limit: k }
}
fn is_err(e: &Error, k: usize) -> bool {
    matches!(e, Error::CircuitBoundExceeded { limit } if *limit == k)
}

// ---------------------------------------------------------------- C03

#[derive(Clone)]
enum LOp<F: HF> {
    Term(F, Coeff<F>),
    Gain(Coeff<F>),
    Extend(Vec<(F, Coeff<F>)>),
    Add(F),
    Sub(F),
}
fn lop<F: HF>(i: usize, c: impl Fn(&str) -> Coeff<F>) -> LOp<F> {
    let w = F::var(&format!("w{i}"));
    let n = format!("c{i}");
    match choose(5) {
        0 => LOp::Term(w, c(&n)),
        1 => LOp::Gain(c(&n)),
        2 => LOp::Extend((0..choose(3)).map(|j| (F::var(&format!("w{i}{j}")), if j == 0 { c(&n) } else { Coeff::Arbitrary(F::var(&format!("x{i}"))) })).collect()),
        3 => LOp::Add(w),
        _ => LOp::Sub(w),
    }
}
fn run<F: HF, L: LinearExpression<F, F>>(mut l: L, ops: &[LOp<F>]) -> L {
    for o in ops {
        l = match o.clone() {
            LOp::Term(w, c) => l.add_term(&w, c),
            LOp::Gain(c) => l.gain(c),
            LOp::Extend(v) => l.extend(v),
            LOp::Add(w) => l.add(&w),
            LOp::Sub(w) => l.sub(&w),
        };
    }
    l
}
fn meaning<F: HF>(ops: &[LOp<F>]) -> F {
    let (mut sum, mut gain) = (F::ZERO, F::ONE);
    for o in ops {
        match o {
            LOp::Term(w, c) => sum += gain * val(*c) * *w,
            LOp::Gain(c) => gain *= val(*c),
            LOp::Extend(v) => v.iter().for_each(|(w, c)| sum += gain * val(*c) * *w),
            LOp::Add(w) => sum += gain * *w,
            LOp::Sub(w) => sum -= gain * *w,
        }
    }
    sum
}
/// Only what a user must write.
pub struct Minimal<F>(F, F);
impl<F: HF> LinearExpression<F, F> for Minimal<F> {
    fn add_term(self, w: &F, c: Coeff<F>) -> Self {
        Minimal(self.0 + self.1 * val(c) * *w, self.1)
    }
    fn gain(self, c: Coeff<F>) -> Self {
        Minimal(self.0, self.1 * val(c))
    }
}
fn linear<F: HF>(n: usize, c: impl Fn(&str) -> Coeff<F>) {
    let ops: Vec<_> = (0..n).map(|i| lop(i, &c)).collect();
    prove_eq("direct sum", run(DirectSum::default(), &ops).value(), meaning(&ops));
    prove_eq("provided methods", run(Minimal(F::ZERO, F::ONE), &ops).0, meaning(&ops));
    run::<F, ()>((), &ops);
}
pub fn linear2<F: HF>() {
    linear::<F>(2, coeff)
}
pub fn linear3<F: HF>() {
    linear::<F>(3, coeff3)
}
pub fn linear4<F: HF>() {
    linear::<F>(4, coeff3)
}

// ---------------------------------------------------------------- C07: what drivers get for free

/// A driver that implements only what it must.
pub struct Min<F: HF, M> {
    gates: Vec<Option<[F; 4]>>,
    wires: Vec<[F; 4]>,
    cons: Vec<F>,
    called: Cell<usize>,
    m: PhantomData<M>,
}
fn min<F: HF, M: RecMode>() -> Min<F, M> {
    Min { gates: vec![], wires: vec![], cons: vec![], called: Cell::new(0), m: PhantomData }
}
impl<F: HF, M: RecMode> DriverTypes for Min<F, M> {
    type ImplField = F;
    type ImplWire = F;
    type MaybeKind = M;
    type LCadd = Minimal<F>;
    type LCenforce = Minimal<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(F, F, F, F)> {
        let mut got = None;
        M::maybe_try_just(|| {
            got = Some(values()?);
            self.called.set(self.called.get() + 1);
            Result::Ok(())
        })?;
        let g = got.map(|(a, b, c, d)| [val(a), val(b), val(c), val(d)]);
        let k = self.gates.len();
        self.gates.push(g);
        let w = g.unwrap_or_else(|| ["a", "b", "c", "d"].map(|n| F::var(&format!("gate{k}{n}"))));
        self.wires.push(w);
        Ok((w[0], w[1], w[2], w[3]))
    }
}
impl<'dr, F: HF, M: RecMode> Driver<'dr> for Min<F, M> {
    type F = F;
    type Wire = F;
    const ONE: F = F::ONE;
    fn add(&mut self, lc: impl Fn(Minimal<F>) -> Minimal<F>) -> F {
        lc(Minimal(F::ZERO, F::ONE)).0
    }
    fn enforce_zero(&mut self, lc: impl Fn(Minimal<F>) -> Minimal<F>) -> Result<()> {
        self.cons.push(lc(Minimal(F::ZERO, F::ONE)).0);
        Ok(())
    }
}
fn provided<F: HF, M: RecMode>() {
    let mut d = min::<F, M>();
    // alloc: the second wire of a gate (0, v, 0, 0)
    let v = coeff::<F>("v");
    let w = d.alloc(|| Ok(v)).unwrap();
    check("alloc is one gate", d.gates.len() == 1 && d.cons.is_empty());
    if let Some(g) = d.gates[0] {
        prove_eqs("alloc's gate", &g, &[F::ZERO, val(v), F::ZERO, F::ZERO]);
        prove_eq("alloc's wire", w, val(v));
    } else {
        prove_eq("alloc's wire", w, d.wires[0][1]);
    }
    // mul: the first three wires of a gate (a, b, c, 0)
    let (a, b, c) = (F::var("ma"), F::var("mb"), F::var("mc"));
    let r = d.mul(|| Ok((Coeff::Arbitrary(a), Coeff::NegativeArbitrary(b), Coeff::Arbitrary(c)))).unwrap();
    check("mul is one gate", d.gates.len() == 2 && d.cons.is_empty());
    if let Some(g) = d.gates[1] {
        prove_eqs("mul's gate", &g, &[a, -b, c, F::ZERO]);
        prove_eqs("mul's wires", &[r.0, r.1, r.2], &[a, -b, c]);
    } else {
        prove_eqs("mul's wires", &[r.0, r.1, r.2], &d.wires[1][..3]);
    }
    // constants and equality
    let k = coeff::<F>("k");
    prove_eq("constant", d.constant(k), val(k));
    check("a constant constrains nothing", d.gates.len() == 2 && d.cons.is_empty());
    d.enforce_equal(&w, &r.0).unwrap();
    check("equality is one constraint", d.gates.len() == 2 && d.cons.len() == 1);
    let e = w - r.0;
    prove_eq("equality", d.cons[0] * d.cons[0], e * e);
    // failures of the witness
    let n = d.called.get();
    let e = d.alloc(|| Err(err(3)));
    let f = d.mul(|| Err(err(4)));
    if M::WITNESS {
        check("alloc returns the witness's error", e.is_err_and(|e| is_err(&e, 3)));
        check("mul returns the witness's error", f.is_err_and(|e| is_err(&e, 4)));
        check("and makes no gate", d.gates.len() == 2);
        let j = Min::<F, M>::try_just(|| Err::<u8, _>(err(5)));
        check("try_just returns the error", j.is_err_and(|e| is_err(&e, 5)));
    } else {
        check("no witness, no failure", e.is_ok() && f.is_ok() && d.gates.len() == 4 && d.called.get() == n);
        check("try_just does not run", Min::<F, M>::try_just(|| Err::<u8, _>(err(5))).is_ok());
    }
    let mut ran = 0;
    let j = Min::<F, M>::just(|| {
        ran += 1;
        v
    });
    let _ = Min::<F, M>::unit();
    check("just runs exactly with a witness", ran == M::WITNESS as usize);
    let _ = Min::<F, M>::just(|| prove_eq("just", val(j.take()), val(v)));
}
both!(provided, provided_honest, provided_free);

/// The phantom driver runs nothing and refuses nothing.
pub fn phantom<F: HF>() {
    let mut d = PhantomData::<F>;
    let n = Cell::new(0);
    let hit = || n.set(n.get() + 1);
    let r = match choose(7) {
        0 => d.alloc(|| {
            hit();
            Err(err(1))
        }).is_ok(),
        1 => d.mul(|| {
            hit();
            Err(err(1))
        }).is_ok(),
        2 => DriverTypes::gate(&mut d, || {
            hit();
            Err(err(1))
        }).is_ok(),
        3 => {
            d.constant(Coeff::Two);
            true
        }
        4 => {
            d.add(|l| LinearExpression::<_, F>::add(l, &()));
            true
        }
        5 => d.enforce_zero(|l| LinearExpression::<_, F>::sub(l, &())).is_ok() && d.enforce_equal(&(), &()).is_ok(),
        _ => {
            let _ = <PhantomData<F> as Driver>::just(hit);
            let _ = <PhantomData<F> as Driver>::unit();
            <PhantomData<F> as Driver>::try_just(|| {
                hit();
                Err::<(), _>(err(1))
            }).is_ok()
        }
    };
    check("accepted", r);
    check("no witness code ran", n.get() == 0);
}

// ---------------------------------------------------------------- routines

thread_local!(static LOG: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) });
fn log(s: &'static str) {
    LOG.with(|l| l.borrow_mut().push(s))
}
fn taken() -> Vec<&'static str> {
    LOG.with(|l| l.take())
}
/// Inputs (x, y); auxiliary x*y + k; output (aux + x on a fresh wire, y).
#[derive(Clone)]
struct Ro<F> {
    k: F,
    known: bool,
    fail_predict: bool,
    fail_execute: bool,
}
type Pair<F> = (PhantomData<Kind![F; Element<'_, _>]>, PhantomData<Kind![F; Element<'_, _>]>);
impl<F: HF> Routine<F> for Ro<F> {
    type Input = Pair<F>;
    type Output = Pair<F>;
    type Aux<'dr> = F;
    fn execute<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: Bound<'dr, D, Self::Input>, aux: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
        log("execute");
        let x = input.0.value();
        let v = D::just(|| aux.take() + *x.take());
        let out = Element::alloc(dr, v)?;
        if self.fail_execute {
            return Err(err(2));
        }
        Ok((out, input.1))
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(&self, dr: &mut D, input: &Bound<'dr, D, Self::Input>) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, F>>> {
        log("predict");
        if self.fail_predict {
            return Err(err(1));
        }
        let (x, y) = (input.0.value(), input.1.value());
        let aux = D::just(|| **x.as_ref().take() * *y.take() + self.k);
        Ok(if self.known {
            let v = D::just(|| *aux.as_ref().take() + *x.take());
            let out = Element::alloc(dr, v)?;
            Prediction::Known((out, input.1.clone()), aux)
        } else {
            Prediction::Unknown(aux)
        })
    }
}

/// `short`: the driver may use the prediction instead of running the routine.
fn routine_on<F: HF, D: Driver<'static, F = F>>(dr: &mut D, w: (D::Wire, D::Wire), xyk: [F; 3], short: bool) -> Option<(E2<D>, E2<D>)> {
    let [x, y, k] = xyk;
    let (known, fail_predict, fail_execute) = (choose_bool(), choose_bool(), choose_bool());
    let ro = Ro { k, known, fail_predict, fail_execute };
    let input = (Element::promote(w.0, D::just(|| x)), Element::promote(w.1, D::just(|| y)));
    taken();
    let r = dr.routine(ro, input);
    let log = taken();
    let skips = short && known;
    if fail_predict {
        check("the prediction's failure is the routine's", r.is_err_and(|e| is_err(&e, 1)) && log == ["predict"]);
        return None;
    }
    if skips {
        check("a known output is used as it is", log == ["predict"]);
    } else {
        check("predicted once, then executed once", log == ["predict", "execute"]);
        if fail_execute {
            check("the execution's failure is the routine's", r.is_err_and(|e| is_err(&e, 2)));
            return None;
        }
    }
    check("accepted", r.is_ok());
    let out = r.ok()?;
    let (a, b) = (out.0.value(), out.1.value());
    let _ = D::just(|| prove_eq("output value", *a.take(), x * y + k + x));
    let _ = D::just(|| prove_eq("untouched value", *b.take(), y));
    Some(out)
}
type E2<D> = Element<'static, D>;
fn xyk<F: HF>() -> [F; 3] {
    [F::var("x"), F::var("y"), F::var("k")]
}
fn routine_min<F: HF, M: RecMode>() {
    let v = xyk();
    let mut d = min::<F, M>();
    let (x, y) = (F::var("wx"), F::var("wy"));
    if let Some(out) = routine_on::<F, _>(&mut d, (x, y), v, false) {
        check("one gate", d.gates.len() == 1);
        prove_eq("passed through", *out.1.wire(), y);
        let want = if M::WITNESS { v[0] * v[1] + v[2] + v[0] } else { d.wires[0][1] };
        prove_eq("output wire", *out.0.wire(), want);
    }
}
both!(routine_min, routine_honest, routine_free);
pub fn routine_wired<F: HF>() {
    let mut d = Emulator::<Wired<F>>::extractor();
    let (x, y, v) = (F::var("wx"), F::var("wy"), xyk::<F>());
    if let Some(out) = routine_on::<F, _>(&mut d, (x, y), v, false) {
        prove_eq("passed through", *out.1.wire(), y);
        prove_eq("output wire", *out.0.wire(), v[0] * v[1] + v[2] + v[0]);
    }
}
pub fn routine_wireless<F: HF>() {
    match choose(3) {
        0 => drop(routine_on::<F, _>(&mut Emulator::<Wireless<Always<()>, F>>::wireless(), ((), ()), xyk(), true)),
        1 => drop(routine_on::<F, _>(&mut Emulator::<Wireless<Empty, F>>::counter(), ((), ()), xyk(), true)),
        _ => drop(routine_on::<F, _>(&mut PhantomData::<F>, ((), ()), xyk(), false)),
    }
}
/// `Emulator::predict`: the routine sees the values of the input, whatever the wires.
fn predict<F: HF, M: RecMode>() {
    let (x, y, k) = (F::var("x"), F::var("y"), F::var("k"));
    let known = choose_bool();
    let ro = Ro { k, known, fail_predict: false, fail_execute: true };
    let mut d = Rec::<F, M>::new();
    let (wx, wy) = (d.free("wx"), d.free("wy"));
    let input = (Element::<Rec<F, M>>::promote(wx, Rec::<F, M>::just(|| x)), Element::<Rec<F, M>>::promote(wy, Rec::<F, M>::just(|| y)));
    taken();
    let p = Emulator::<Wireless<M, F>>::predict::<Rec<F, M>, _>(&ro, &input).unwrap();
    check("only the prediction ran", taken() == ["predict"]);
    check("known as the routine says", matches!(p, Prediction::Known(..)) == known);
    if let Prediction::Known(o, _) = &p {
        let e: &Element<'_, Emulator<Wireless<M, F>>> = &o.0;
        let v = e.value();
        let _ = Rec::<F, M>::just(|| prove_eq("predicted output", *v.take(), x * y + k + x));
    }
    let aux = p.into_aux();
    let _ = Rec::<F, M>::just(|| prove_eq("auxiliary data", aux.take(), x * y + k));
}
both!(predict, predict_honest, predict_free);

// ---------------------------------------------------------------- C04: emulators

#[derive(Clone)]
enum DOp<F: HF> {
    Alloc(Coeff<F>),
    Const(Coeff<F>),
    Gate([Coeff<F>; 4]),
    Mul([Coeff<F>; 3]),
    Add(usize, usize, Coeff<F>),
    Zero(usize),
    Equal(usize, usize),
}
pub fn wired<F: HF>() {
    let mut d = Emulator::<Wired<F>>::extractor();
    prove_eq("one", <Emulator<Wired<F>> as Driver>::ONE, F::ONE);
    let (mut ws, mut want) = (vec![F::var("i0")], vec![]);
    want.extend(ws.iter().copied());
    let arb = |n: String| Coeff::Arbitrary(F::var(&n));
    for i in 0..3 {
        let n = ws.len();
        let coeff = |s: &str| if i == 0 { coeff(s) } else { coeff3(s) };
        let op = match choose(7) {
            0 => DOp::Alloc(coeff(&format!("a{i}"))),
            1 => DOp::Const(coeff(&format!("k{i}"))),
            2 => DOp::Gate([coeff(&format!("g{i}")), arb(format!("h{i}")), arb(format!("p{i}")), Coeff::NegativeOne]),
            3 => DOp::Mul([arb(format!("g{i}")), Coeff::NegativeArbitrary(F::var(&format!("h{i}"))), arb(format!("p{i}"))]),
            4 => DOp::Add(0, n - 1, coeff(&format!("c{i}"))),
            5 => DOp::Zero(n - 1),
            _ => DOp::Equal(0, n - 1),
        };
        match op {
            DOp::Alloc(c) => {
                ws.push(d.alloc(|| Ok(c)).unwrap());
                want.push(val(c));
            }
            DOp::Const(c) => {
                ws.push(d.constant(c));
                want.push(val(c));
            }
            DOp::Gate(g) => {
                let r = d.gate(|| Ok((g[0], g[1], g[2], g[3]))).unwrap();
                ws.extend([r.0, r.1, r.2, r.3]);
                want.extend(g.map(val));
            }
            DOp::Mul(g) => {
                let r = d.mul(|| Ok((g[0], g[1], g[2]))).unwrap();
                ws.extend([r.0, r.1, r.2]);
                want.extend(g.map(val));
            }
            DOp::Add(i, j, c) => {
                let (a, b) = (ws[i], ws[j]);
                ws.push(d.add(|l| l.add(&a).gain(Coeff::Two).add_term(&b, c).sub(&a)));
                want.push(want[i] + (val(c) * want[j] - want[i]).double());
            }
            DOp::Zero(i) => check("assertions are not evaluated", d.enforce_zero(|l| l.add(&ws[i])).is_ok()),
            DOp::Equal(i, j) => check("equalities are not evaluated", d.enforce_equal(&ws[i], &ws[j]).is_ok()),
        }
    }
    prove_eqs("every wire carries what it was given", &ws, &want);
    // extraction, in order
    let g: Vec<Element<'static, Emulator<Wired<F>>>> = ws.iter().map(|w| Element::promote(*w, Emulator::<Wired<F>>::just(|| *w))).collect();
    let n = g.len();
    let got = if n >= 3 {
        let mut it = g.into_iter();
        let a = [it.next().unwrap(), it.next().unwrap()];
        let b = (it.next().unwrap(), Box::new(()));
        let r = d.wires(&(Box::new(a), b)).unwrap();
        want.truncate(3);
        r
    } else {
        want.truncate(1);
        d.wires(&g[0]).unwrap()
    };
    check("as many wires", got.len() == want.len());
    prove_eqs("extracted in order", &got, &want);
    let e = d.alloc(|| Err(err(3)));
    check("the witness's error", e.is_err_and(|e| is_err(&e, 3)));
    let e = d.gate(|| Err(err(4)));
    check("the witness's error from a gate", e.is_err_and(|e| is_err(&e, 4)));
}
fn wireless_case<F: HF, M: RecMode>() {
    let mut d = Emulator::<Wireless<M, F>>::wireless();
    let n = Cell::new(0);
    let hit = || n.set(n.get() + 1);
    let r = match choose(6) {
        0 => d.alloc(|| {
            hit();
            Err(err(1))
        }).is_ok(),
        1 => d.mul(|| {
            hit();
            Err(err(1))
        }).is_ok(),
        2 => d.gate(|| {
            hit();
            Err(err(1))
        }).is_ok(),
        3 => {
            d.constant(Coeff::Two);
            d.add(|l| LinearExpression::<_, F>::add(l, &()));
            true
        }
        4 => d.enforce_zero(|l| LinearExpression::<_, F>::sub(l, &())).is_ok() && d.enforce_equal(&(), &()).is_ok(),
        _ => {
            let x = F::var("x");
            let mut ran = false;
            let v = Emulator::<Wireless<M, F>>::just(|| {
                ran = true;
                x
            });
            check("values exist exactly with a witness", ran == M::WITNESS);
            let e: Element<'static, Emulator<Wireless<M, F>>> = Element::alloc(&mut d, v).unwrap();
            let v = e.value();
            let _ = Emulator::<Wireless<M, F>>::just(|| prove_eq("the value stays", *v.take(), x));
            true
        }
    };
    check("nothing is refused", r);
    check("assignments are not computed", n.get() == 0);
}
both!(wireless_case, wireless_honest, wireless_free);
pub fn emulate<F: HF>() {
    let (x, y) = (F::var("x"), F::var("y"));
    let fail = choose_bool();
    let body = |v: F| if fail { Err(err(9)) } else { Ok(v * y) };
    let r = if choose_bool() {
        Emulator::<Wired<F>>::emulate_wired(x, |d, w| {
            let w = w.take();
            let k = d.constant(Coeff::Arbitrary(w));
            body(k)
        })
    } else {
        Emulator::emulate_wireless(x, |d: &mut Emulator<Wireless<Always<()>, F>>, w| {
            d.constant(Coeff::Two);
            body(w.take())
        })
    };
    match r {
        Ok(v) => {
            check("accepted", !fail);
            prove_eq("the witness reaches the code, its result comes back", v, x * y)
        }
        Err(e) => check("the error comes back", fail && is_err(&e, 9)),
    }
}

// ---------------------------------------------------------------- C05: gadgets of containers, wire conversion

/// Nested containers around three elements, the wires in declaration order.
struct Fail<F: HF, M> {
    at: Option<usize>,
    seen: Vec<W<F>>,
    given: Vec<W<F>>,
    dr: Rec<F, M>,
}
impl<F: HF, M: RecMode> WireMap<F> for Fail<F, M> {
    type Src = Rec<F, M>;
    type Dst = Rec<F, M>;
    fn convert_wire(&mut self, w: &W<F>) -> Result<W<F>> {
        self.seen.push(*w);
        if self.at == Some(self.seen.len() - 1) {
            return Err(err(self.seen.len()));
        }
        let n = self.dr.free("m");
        self.given.push(n);
        Ok(n)
    }
}
fn ids<F: HF>(a: &[W<F>]) -> Vec<u32> {
    a.iter().map(|w| w.id).collect()
}
fn container<F: HF, M: RecMode, G: Gadget<'static, Rec<F, M>>>(mk: impl Fn(&mut Rec<F, M>) -> G, leaves: impl Fn(&G) -> Vec<E<F, M>>) {
    let mut dr = Rec::<F, M>::new();
    let (a, b) = (mk(&mut dr), mk(&mut dr));
    let ws = |g: &G| leaves(g).iter().map(|e| *e.wire()).collect::<Vec<_>>();
    let (wa, wb) = (ws(&a), ws(&b));
    check("number of wires", a.num_wires().is_ok_and(|n| n == wa.len()));
    // conversion
    let at = match choose(wa.len() + 1) {
        0 => None,
        k => Some(k - 1),
    };
    let mut m = Fail { at, seen: vec![], given: vec![], dr: Rec::new() };
    let r = a.map(&mut m);
    match (at, r) {
        (None, Ok(c)) => {
            check("every wire once, in order", ids(&m.seen) == ids(&wa));
            check("the converted wires in their places", ids(&ws(&c)) == ids(&m.given));
            for (x, y) in leaves(&a).iter().zip(leaves(&c)) {
                let (x, y) = (x.value(), y.value());
                let _ = Rec::<F, M>::just(|| prove_eq("values carried over", *x.take(), *y.take()));
            }
        }
        (Some(k), Err(e)) => check("a failing conversion stops there", is_err(&e, k + 1) && ids(&m.seen) == ids(&wa[..k + 1])),
        _ => check("conversion fails exactly when a wire's does", false),
    }
    // equality, asked of another driver with the same wires
    let mut other = Rec::<F, Always<()>>::new();
    let n = (dr.cons.len(), dr.events.len());
    let foreign = choose_bool();
    let cons = if foreign {
        a.enforce_equal(&mut other, &b).unwrap();
        check("the gadgets' own driver is not used", dr.events.len() == n.1);
        check("one constraint per wire", other.zeros == wa.len() && other.gates + other.allocs == 0);
        other.cons.clone()
    } else {
        a.enforce_equal(&mut dr, &b).unwrap();
        check("one constraint per wire", dr.zeros == wa.len());
        dr.cons[n.0..].to_vec()
    };
    prove("equal exactly when all wires are", Fml::all(cons).iff(Fml::all(wa.iter().zip(&wb).map(|(x, y)| x.val.eqf(y.val)))));
}
fn containers<F: HF, M: RecMode>() {
    fn e<F: HF, M: RecMode>(d: &mut Rec<F, M>) -> E<F, M> {
        let w = d.free("e");
        let v = F::var("ev");
        Element::promote(w, Rec::<F, M>::just(|| v))
    }
    match choose(9) {
        0 => container::<F, M, ()>(|_| (), |_| vec![]),
        1 => container::<F, M, _>(e, |g| vec![g.clone()]),
        2 => container::<F, M, (E<F, M>, E<F, M>)>(|d| (e(d), e(d)), |g| vec![g.0.clone(), g.1.clone()]),
        3 => container::<F, M, Box<E<F, M>>>(|d| Box::new(e(d)), |g| vec![(**g).clone()]),
        4 => container::<F, M, [E<F, M>; 0]>(|_| [], |_| vec![]),
        5 => container::<F, M, [E<F, M>; 3]>(|d| [e(d), e(d), e(d)], |g| g.to_vec()),
        6 => container::<F, M, [(E<F, M>, Box<E<F, M>>); 2]>(|d| [(e(d), Box::new(e(d))), (e(d), Box::new(e(d)))], |g| vec![g[0].0.clone(), (*g[0].1).clone(), g[1].0.clone(), (*g[1].1).clone()]),
        7 => container::<F, M, (Box<[E<F, M>; 2]>, ((), E<F, M>))>(|d| (Box::new([e(d), e(d)]), ((), e(d))), |g| vec![g.0[0].clone(), g.0[1].clone(), g.1.1.clone()]),
        _ => container::<F, M, [E<F, M>; 9]>(|d| core::array::from_fn(|_| e(d)), |g| g.to_vec()),
    }
}
both!(containers, containers_honest, containers_free);
fn conversions<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let v = vars::<F>("v", 2);
    let g = [0, 1].map(|i| {
        let w = d.free("w");
        E::<F, M>::promote(w, Rec::<F, M>::just(|| v[i]))
    });
    // the same wires under another driver
    let c = CloneWires::<Rec<F, M>, Rec<F, M>>::remap(&g).unwrap();
    check("cloned wires are the wires", (0..2).all(|i| c[i].wire().id == g[i].wire().id));
    let e = CloneWires::<Rec<F, M>, Rec<F, Empty>>::remap(&g).unwrap();
    check("also without the witness", (0..2).all(|i| e[i].wire().id == g[i].wire().id));
    let s = StripWires::<Rec<F, M>>::remap(&g).unwrap();
    for i in 0..2 {
        let (a, b) = (c[i].value(), s[i].value());
        let _ = Rec::<F, M>::just(|| prove_eq("cloned wires keep values", *a.take(), v[i]));
        let _ = Rec::<F, M>::just(|| prove_eq("stripped wires keep values", *b.take(), v[i]));
    }
}
both!(conversions, conversions_honest, conversions_free);

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    use symx::{T13, T7};
    h!(hs, "C03", linear2, Fp, "DirectSum and the provided methods of LinearExpression: every pair of operations with every coefficient form");
    h!(hs, "C03", linear2, T7, "the same over F_7");
    h!(hs, "C03", linear3, Fp, "every sequence of three operations");
    h!(hs, "C03", linear4, Fp, "every sequence of four operations", 20000, 1);
    h!(hs, "C04", wired, Fp, "Emulator<Wired>: every sequence of three operations, and extraction");
    h!(hs, "C04", wireless_honest, Fp, "Emulator<Wireless> with a witness");
    h!(hs, "C04", wireless_free, Fp, "Emulator<Wireless> without");
    h!(hs, "C04", emulate, Fp, "emulate_wired, emulate_wireless");
    h!(hs, "C07", provided_honest, Fp, "what Driver provides over a minimal implementation, with a witness");
    h!(hs, "C07", provided_honest, T13, "the same over F_13");
    h!(hs, "C07", provided_free, Fp, "without a witness");
    h!(hs, "C07", phantom, T13, "the phantom driver");
    h!(hs, "C08", routine_honest, Fp, "Driver::routine, with a witness");
    h!(hs, "C08", routine_free, Fp, "Driver::routine, without");
    h!(hs, "C08", routine_wired, Fp, "routines on the wired emulator");
    h!(hs, "C08", routine_wireless, Fp, "routines on the wireless emulators and the phantom driver");
    h!(hs, "C08", predict_honest, Fp, "Emulator::predict");
    h!(hs, "C08", predict_free, Fp, "Emulator::predict without a witness");
    h!(hs, "C05", containers_honest, T13, "unit, pairs, arrays, boxes and their nesting as gadgets: map, equality, number of wires, failing conversion");
    h!(hs, "C05", containers_free, T13, "the same without a witness");
    h!(hs, "C05", conversions_honest, Fp, "CloneWires and StripWires");
    h!(hs, "C05", conversions_free, Fp, "the same without a witness");
}
