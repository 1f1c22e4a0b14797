//! A recording driver: runs circuit code over a harness field and keeps every constraint as a formula.
//!
//! * `Rec<F, Always<()>>`: the witness closures are run; every gate equation and linear constraint becomes an
//!   obligation (completeness: the honest witness satisfies the circuit).
//! * `Rec<F, Empty>`: no witness; wires are fresh symbolic variables constrained only by the circuit
//!   (soundness: whatever satisfies the constraints satisfies the specification).
use core::marker::PhantomData;
use ragu_core::convert::WireMap;
use ragu_arithmetic::Coeff;
use ragu_core::drivers::{Driver, DriverTypes, LinearExpression};
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::{Always, Empty, MaybeKind};
use ragu_core::Result;
use symx::{assume, prove, prove_under, Fml, PBase, HF};

pub trait RecMode: MaybeKind {
    const WITNESS: bool;
}
impl RecMode for Always<()> {
    const WITNESS: bool = true;
}
impl RecMode for Empty {
    const WITNESS: bool = false;
}

#[derive(Clone, Copy, Debug)]
pub struct W<F> {
    pub id: u32,
    pub val: F,
}
#[derive(Clone, Debug)]
pub enum Ev<F> {
    Alloc,
    Gate,
    Add(Vec<(u32, F)>),
    Zero(Vec<(u32, F)>),
}
pub struct Rec<F: HF, M> {
    pub cons: Vec<Fml>,
    /// `c * d = 0` for every gate whose d wire was asked for
    pub dcons: Vec<Fml>,
    pub events: Vec<Ev<F>>,
    next: u32,
    pub gates: usize,
    pub allocs: usize,
    pub zeros: usize,
    /// values of the next wires to be allocated, whatever the code says they are (wires filled in by stages)
    pub preset: std::collections::VecDeque<F>,
    pub alloc_log: Vec<W<F>>,
    /// chosen values for some allocations, by number, when there is no witness
    pub fixed: std::collections::HashMap<usize, F>,
    /// the same for the first two wires of gates
    pub fixed_gates: std::collections::HashMap<usize, (F, F)>,
    /// gates whose first two wires are the constants 0 and 1 in some order, or equal constants of the two
    pub bit_gates: std::collections::HashMap<usize, (F, F)>,
    _m: PhantomData<M>,
}
impl<F: HF, M: RecMode> Default for Rec<F, M> {
    fn default() -> Self {
        Self::new()
    }
}
impl<F: HF, M: RecMode> Rec<F, M> {
    pub fn new() -> Self {
        Rec { cons: vec![], dcons: vec![], events: vec![], next: 1, gates: 0, allocs: 0, zeros: 0, preset: Default::default(), alloc_log: vec![], fixed: Default::default(), fixed_gates: Default::default(), bit_gates: Default::default(), _m: PhantomData }
    }
    fn wire(&mut self, val: F) -> W<F> {
        let id = self.next;
        self.next += 1;
        W { id, val }
    }
    /// A wire with an arbitrary value, not constrained by anything.
    pub fn free(&mut self, name: &str) -> W<F> {
        let v = F::var(name);
        self.wire(v)
    }
    /// A wire carrying a given value (an input computed outside).
    pub fn input(&mut self, v: F) -> W<F> {
        self.wire(v)
    }
    /// Obligation: every constraint recorded so far holds (for `Always`).
    pub fn prove_satisfied(&self, label: &str) {
        prove(label, Fml::all(self.cons.iter().cloned()));
    }
    pub fn prove_satisfied_under(&self, label: &str, hyps: Vec<Fml>) {
        prove_under(label, hyps, Fml::all(self.cons.iter().cloned()));
    }
    /// Obligation: the constraints imply `goal` (for `Empty`).
    pub fn implies(&self, label: &str, hyps: Vec<Fml>, goal: Fml) {
        let mut h = self.cons.clone();
        h.extend(hyps);
        prove_under(label, h, goal);
    }
    fn constrain(&mut self, f: Fml) {
        if !M::WITNESS && <F::P as PBase>::TOY.is_none() {
            assume(f);
        } else {
            self.cons.push(f);
        }
    }
}
pub struct Lc<F> {
    pub terms: Vec<(u32, F)>,
    pub val: F,
    gain: F,
}
impl<F: HF> LinearExpression<W<F>, F> for Lc<F> {
    fn add_term(mut self, wire: &W<F>, coeff: Coeff<F>) -> Self {
        let c = val(coeff) * self.gain;
        self.terms.push((wire.id, c));
        self.val += wire.val * c;
        self
    }
    fn gain(mut self, coeff: Coeff<F>) -> Self {
        self.gain *= val(coeff);
        self
    }
}
/// Independent reading of `Coeff`.
pub fn val<F: HF>(c: Coeff<F>) -> F {
    match c {
        Coeff::Zero => F::ZERO,
        Coeff::One => F::ONE,
        Coeff::Two => F::ONE + F::ONE,
        Coeff::NegativeOne => -F::ONE,
        Coeff::Arbitrary(v) => v,
        Coeff::NegativeArbitrary(v) => -v,
    }
}
fn lc0<F: HF>() -> Lc<F> {
    Lc { terms: vec![], val: F::ZERO, gain: F::ONE }
}
impl<F: HF, M: RecMode> DriverTypes for Rec<F, M> {
    type ImplField = F;
    type ImplWire = W<F>;
    type MaybeKind = M;
    type LCadd = Lc<F>;
    type LCenforce = Lc<F>;
    fn gate(
        &mut self,
        values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>,
    ) -> Result<(W<F>, W<F>, W<F>, W<F>)> {
        self.gates += 1;
        self.events.push(Ev::Gate);
        let mut got = None;
        // only instantiated when the witness exists
        M::maybe_try_just(|| {
            got = Some(values()?);
            Result::Ok(())
        })?;
        let (a, b, c, d) = if let Some((a, b, c, d)) = got {
            let (a, b, c, d) = (val(a), val(b), val(c), val(d));
            self.cons.push((a * b).eqf(c));
            self.cons.push((c * d).eqf(F::ZERO));
            let bit = |x: F| matches!((x.eqf(F::ZERO), x.eqf(F::ONE)), (Fml::B(true), _) | (_, Fml::B(true)));
            if bit(a) && bit(b) {
                self.bit_gates.insert(self.gates, (a, b));
            }
            (a, b, c, d)
        } else {
            let k = self.gates;
            let (a, b) = match self.fixed_gates.get(&k) {
                Some(v) => *v,
                None => (F::var(&format!("ga{k}")), F::var(&format!("gb{k}"))),
            };
            let d = F::var(&format!("gd{k}"));
            let c = a * b;
            self.dcons.push((c * d).eqf(F::ZERO));
            (a, b, c, d)
        };
        Ok((self.wire(a), self.wire(b), self.wire(c), self.wire(d)))
    }
}
impl<'dr, F: HF, M: RecMode> Driver<'dr> for Rec<F, M> {
    type F = F;
    type Wire = W<F>;
    const ONE: W<F> = W { id: 0, val: F::ONE };
    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<F>>) -> Result<W<F>> {
        self.allocs += 1;
        self.events.push(Ev::Alloc);
        let mut got = None;
        M::maybe_try_just(|| {
            got = Some(value()?);
            Result::Ok(())
        })?;
        let v = match got {
            Some(c) => self.preset.pop_front().unwrap_or(val(c)),
            None => match self.fixed.get(&(self.allocs - 1)) {
                Some(v) => *v,
                None => F::var(&format!("w{}", self.allocs)),
            },
        };
        let w = self.wire(v);
        self.alloc_log.push(w);
        Ok(w)
    }
    fn add(&mut self, lc: impl Fn(Lc<F>) -> Lc<F>) -> W<F> {
        let r = lc(lc0());
        self.events.push(Ev::Add(r.terms));
        self.wire(r.val)
    }
    fn enforce_zero(&mut self, lc: impl Fn(Lc<F>) -> Lc<F>) -> Result<()> {
        self.zeros += 1;
        let r = lc(lc0());
        self.events.push(Ev::Zero(r.terms));
        self.constrain(r.val.eqf(F::ZERO));
        Ok(())
    }
}
/// Obligation: two recordings have the same structure.
pub fn prove_same_structure<F: HF>(label: &str, a: &[Ev<F>], b: &[Ev<F>]) {
    let shape = a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Ev::Alloc, Ev::Alloc) | (Ev::Gate, Ev::Gate) => true,
            (Ev::Add(s), Ev::Add(t)) | (Ev::Zero(s), Ev::Zero(t)) => {
                s.len() == t.len() && s.iter().zip(t).all(|(m, n)| m.0 == n.0)
            }
            _ => false,
        });
    prove(&format!("{label}: shape"), Fml::B(shape));
    if shape {
        let mut v = vec![];
        for (x, y) in a.iter().zip(b) {
            if let (Ev::Add(s), Ev::Add(t)) | (Ev::Zero(s), Ev::Zero(t)) = (x, y) {
                for (m, n) in s.iter().zip(t) {
                    v.push(m.1.eqf(n.1));
                }
            }
        }
        prove(&format!("{label}: coefficients"), Fml::all(v));
    }
}

/// Collects the wires of a gadget, in the order in which the gadget maps them.
pub struct Collect<F: HF, M>(pub Vec<W<F>>, PhantomData<M>);
impl<F: HF, M: RecMode> WireMap<F> for Collect<F, M> {
    type Src = Rec<F, M>;
    type Dst = PhantomData<F>;
    fn convert_wire(&mut self, w: &W<F>) -> Result<()> {
        self.0.push(*w);
        Ok(())
    }
}
pub fn wires<'dr, F: HF, M: RecMode, G: Gadget<'dr, Rec<F, M>>>(g: &G) -> Vec<W<F>> {
    let mut c = Collect(vec![], PhantomData);
    let _ = g.map(&mut c);
    c.0
}
pub fn wire_vals<'dr, F: HF, M: RecMode, G: Gadget<'dr, Rec<F, M>>>(g: &G) -> Vec<F> {
    wires(g).iter().map(|w| w.val).collect()
}
