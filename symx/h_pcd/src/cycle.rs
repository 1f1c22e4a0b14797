//! A cycle of curves over harness fields, with a small permutation, and reference models.
use crate::hx_util::*;
use pasta_curves::curve::{Aff, CurveParams};
use ragu_arithmetic::{Cycle, FixedGenerators, PoseidonPermutation};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cv<F>(PhantomData<F>);
pub fn curve_b<F: HF>() -> u64 {
    match <F::P as PBase>::TOY {
        Some(7) => 3,
        Some(13) => 2,
        Some(19) => 2,
        Some(37) => 5,
        Some(97) => 10,
        Some(p) => panic!("no curve over F_{p}"),
        None => 5,
    }
}
impl<F: HF> CurveParams for Cv<F> {
    type Base = F;
    type Scalar = F;
    const ID: &'static str = "cv";
    fn b() -> F {
        F::from(curve_b::<F>())
    }
    fn r#gen() -> (F, F) {
        match <F::P as PBase>::TOY {
            Some(7) => (F::ONE, F::from(2)),
            Some(13) => (F::ONE, F::from(4)),
            Some(19) => (F::from(4), F::from(3)),
            Some(37) => (F::from(6), F::from(6)),
            Some(97) => (F::ONE, F::from(37)),
            _ => (-F::ONE, F::from(2)),
        }
    }
}
pub type A<F> = Aff<Cv<F>, F>;
pub struct Gens<F: HF>(pub Vec<A<F>>, pub A<F>);
impl<F: HF> FixedGenerators<A<F>> for Gens<F> {
    fn g(&self) -> &[A<F>] {
        &self.0
    }
    fn h(&self) -> &A<F> {
        &self.1
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cy<F>(PhantomData<F>);
pub struct Params<F: HF> {
    pub gens: Gens<F>,
    pub pos: Pos<F>,
}
pub type Pos<F> = PP<F, 3, 2, 2, 0>;
impl<F: HF> Cycle for Cy<F> {
    type CircuitField = F;
    type ScalarField = F;
    type NestedCurve = A<F>;
    type HostCurve = A<F>;
    type NestedGenerators = Gens<F>;
    type HostGenerators = Gens<F>;
    type CircuitPoseidon = Pos<F>;
    type ScalarPoseidon = Pos<F>;
    type Params = Params<F>;
    fn nested_generators(p: &Self::Params) -> &Gens<F> {
        &p.gens
    }
    fn host_generators(p: &Self::Params) -> &Gens<F> {
        &p.gens
    }
    fn circuit_poseidon(p: &Self::Params) -> &Pos<F> {
        &p.pos
    }
    fn scalar_poseidon(p: &Self::Params) -> &Pos<F> {
        &p.pos
    }
    fn generate() -> Params<F> {
        use ff::PrimeField;
        use group::prime::PrimeCurveAffine;
        let g = A::<F>::generator();
        // different generators: 1, 2, 3, … times one
        use group::Group;
        let mut p = g.to_curve();
        let mut v = vec![];
        for _ in 0..8192 {
            v.push(A::<F>::from(p));
            p += g;
        }
        Params { gens: Gens(v, g), pos: fixed() }
    }
}
pub fn params<F: HF>() -> &'static Params<F> {
    Box::leak(Box::new(Cy::<F>::generate()))
}
/// Parameters of any size; the constants are supplied by the harness.
pub struct PP<F, const T: usize, const R: usize, const RF: usize, const RP: usize> {
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
impl<F: HF, const T: usize, const R: usize, const RF: usize, const RP: usize> PoseidonPermutation<F>
    for PP<F, T, R, RF, RP>
{
    const T: usize = T;
    const RATE: usize = R;
    const FULL_ROUNDS: usize = RF;
    const PARTIAL_ROUNDS: usize = RP;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> {
        self.rc.iter().map(|x| &x[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> {
        self.mds.iter().map(|x| &x[..])
    }
}
/// Fixed, pairwise distinct constants.
pub fn fixed<F: HF, const T: usize, const R: usize, const RF: usize, const RP: usize>() -> PP<F, T, R, RF, RP> {
    let mut k = 0u64;
    let mut next = || {
        k += 1;
        F::from(k * k + 3 * k + 7)
    };
    PP {
        rc: (0..RF + RP).map(|_| (0..T).map(|_| next()).collect()).collect(),
        mds: (0..T).map(|_| (0..T).map(|_| next()).collect()).collect(),
    }
}
/// The permutation as published: half the full rounds, the partial rounds (S-box on the first element), the rest.
pub fn perm_spec<F: HF, P: PoseidonPermutation<F>>(p: &P, s: &mut Vec<F>) {
    let mds: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
    let rc: Vec<Vec<F>> = p.round_constants().map(|r| r.to_vec()).collect();
    let total = P::FULL_ROUNDS + P::PARTIAL_ROUNDS;
    assert_eq!(rc.len(), total);
    for r in 0..total {
        for i in 0..P::T {
            s[i] += rc[r][i];
        }
        let full = r < P::FULL_ROUNDS / 2 || r >= P::FULL_ROUNDS / 2 + P::PARTIAL_ROUNDS;
        for i in 0..(if full { P::T } else { 1 }) {
            let x2 = s[i] * s[i];
            let x4 = x2 * x2;
            s[i] = x4 * s[i];
        }
        let old = s.clone();
        for i in 0..P::T {
            s[i] = F::ZERO;
            for j in 0..P::T {
                s[i] += old[j] * mds[i][j];
            }
        }
    }
}
/// The duplex sponge: a reference model written from its description.
pub struct Spec<'a, F, P> {
    p: &'a P,
    state: Vec<F>,
    /// absorbed, not yet permuted in
    pending: Vec<F>,
    /// number of rate elements already handed out, or None while absorbing
    out: Option<usize>,
}
impl<'a, F: HF, P: PoseidonPermutation<F>> Spec<'a, F, P> {
    pub fn new(p: &'a P) -> Self {
        Spec { p, state: vec![F::ZERO; P::T], pending: vec![], out: None }
    }
    pub fn dup(&self) -> Self {
        Spec { p: self.p, state: self.state.clone(), pending: self.pending.clone(), out: self.out }
    }
    /// A sponge that has permuted everything in and handed out nothing yet.
    pub fn resume(p: &'a P, state: Vec<F>) -> Self {
        Spec { p, state, pending: vec![], out: Some(0) }
    }
    /// The state once everything absorbed is permuted in.
    pub fn saved(mut self) -> Vec<F> {
        assert!(self.out.is_none());
        self.flush();
        self.state
    }
    fn flush(&mut self) {
        for (i, x) in self.pending.drain(..).enumerate() {
            self.state[i] += x;
        }
        perm_spec(self.p, &mut self.state);
    }
    pub fn absorb(&mut self, x: F) {
        self.out = None;
        if self.pending.len() == P::RATE {
            self.flush();
        }
        self.pending.push(x);
    }
    pub fn squeeze(&mut self) -> Option<F> {
        match self.out {
            None => {
                if self.pending.is_empty() {
                    return None;
                }
                self.flush();
                self.out = Some(0);
            }
            Some(k) if k == P::RATE => {
                self.flush();
                self.out = Some(0);
            }
            _ => {}
        }
        let k = self.out.unwrap();
        self.out = Some(k + 1);
        Some(self.state[k])
    }
}

