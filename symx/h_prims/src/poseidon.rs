//! The Poseidon permutation and the duplex sponge.
use crate::both;
use crate::util::*;
use ragu_arithmetic::PoseidonPermutation;
use ragu_primitives::poseidon::{SaveError, Sponge};

/// Parameters of any size; the constants are supplied by the harness.
pub struct PP<F, const T: usize, const R: usize, const RF: usize, const RP: usize> {
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
impl<F: HF, const T: usize, const R: usize, const RF: usize, const RP: usize> PoseidonPermutation<F>
    for PP<F, T, R, RF, RP>
{
    const T: usize = T;
    const RATE: usize = R;
    const FULL_ROUNDS: usize = RF;
    const PARTIAL_ROUNDS: usize = RP;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> {
        self.rc.iter().map(|x| &x[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> {
        self.mds.iter().map(|x| &x[..])
    }
}
/// Fixed, pairwise distinct constants.
fn fixed<F: HF, const T: usize, const R: usize, const RF: usize, const RP: usize>() -> PP<F, T, R, RF, RP> {
    let mut k = 0u64;
    let mut next = || {
        k += 1;
        F::from(k * k + 3 * k + 7)
    };
    PP {
        rc: (0..RF + RP).map(|_| (0..T).map(|_| next()).collect()).collect(),
        mds: (0..T).map(|_| (0..T).map(|_| next()).collect()).collect(),
    }
}
fn symbolic<F: HF, const T: usize, const R: usize, const RF: usize, const RP: usize>() -> PP<F, T, R, RF, RP> {
    PP {
        rc: (0..RF + RP).map(|i| vars(&format!("rc{i}_"), T)).collect(),
        mds: (0..T).map(|i| vars(&format!("m{i}_"), T)).collect(),
    }
}
/// The permutation as published: half the full rounds, the partial rounds (S-box on the first element), the rest.
fn perm_spec<F: HF, P: PoseidonPermutation<F>>(p: &P, s: &mut Vec<F>) {
    let mds: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
    let rc: Vec<Vec<F>> = p.round_constants().map(|r| r.to_vec()).collect();
    let total = P::FULL_ROUNDS + P::PARTIAL_ROUNDS;
    assert_eq!(rc.len(), total);
    for r in 0..total {
        for i in 0..P::T {
            s[i] += rc[r][i];
        }
        let full = r < P::FULL_ROUNDS / 2 || r >= P::FULL_ROUNDS / 2 + P::PARTIAL_ROUNDS;
        for i in 0..(if full { P::T } else { 1 }) {
            let x2 = s[i] * s[i];
            let x4 = x2 * x2;
            s[i] = x4 * s[i];
        }
        let old = s.clone();
        for i in 0..P::T {
            s[i] = F::ZERO;
            for j in 0..P::T {
                s[i] += old[j] * mds[i][j];
            }
        }
    }
}
/// The duplex sponge: a reference model written from its description.
struct Spec<'a, F, P> {
    p: &'a P,
    state: Vec<F>,
    /// absorbed, not yet permuted in
    pending: Vec<F>,
    /// number of rate elements already handed out, or None while absorbing
    out: Option<usize>,
}
impl<'a, F: HF, P: PoseidonPermutation<F>> Spec<'a, F, P> {
    fn new(p: &'a P) -> Self {
        Spec { p, state: vec![F::ZERO; P::T], pending: vec![], out: None }
    }
    fn flush(&mut self) {
        for (i, x) in self.pending.drain(..).enumerate() {
            self.state[i] += x;
        }
        perm_spec(self.p, &mut self.state);
    }
    fn absorb(&mut self, x: F) {
        self.out = None;
        if self.pending.len() == P::RATE {
            self.flush();
        }
        self.pending.push(x);
    }
    fn squeeze(&mut self) -> Option<F> {
        match self.out {
            None => {
                if self.pending.is_empty() {
                    return None;
                }
                self.flush();
                self.out = Some(0);
            }
            Some(k) if k == P::RATE => {
                self.flush();
                self.out = Some(0);
            }
            _ => {}
        }
        let k = self.out.unwrap();
        self.out = Some(k + 1);
        Some(self.state[k])
    }
}

fn permute<F: HF, M: RecMode, P: PoseidonPermutation<F>>(p: P, n: usize) {
    // absorb up to the rate, squeeze the rate: one permutation; then a second one
    let p: &'static P = Box::leak(Box::new(p));
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let mut s = Sponge::<'static, Rec<F, M>, P>::new(dr, p);
    let mut spec = Spec::<F, P>::new(p);
    for i in 0..n {
        let (x, xv) = el(dr, &format!("x{i}"));
        s.absorb(dr, &x).unwrap();
        spec.absorb(xv);
    }
    for _ in 0..P::RATE {
        let e = s.squeeze(dr).unwrap();
        value_matches("squeezed", &e);
        let want = spec.squeeze().unwrap();
        prove_eq("permutation output", v(&e), want);
    }
    if M::WITNESS {
        dr.prove_satisfied("permutation: satisfied");
    }
}
fn perm_small<F: HF, M: RecMode>() {
    match choose(4) {
        0 => permute::<F, M, _>(fixed::<F, 3, 2, 2, 0>(), 2),
        1 => permute::<F, M, _>(fixed::<F, 2, 1, 2, 1>(), 1),
        2 => permute::<F, M, _>(fixed::<F, 4, 3, 2, 0>(), 2),
        _ => permute::<F, M, _>(symbolic::<F, 2, 1, 0, 1>(), 1),
    }
}
both!(perm_small, perm_small_complete, perm_small_sound);
/// The parameters of the deployed permutation, symbolic inputs, all 64 rounds.
pub fn perm_real<F: HF>() {
    permute::<F, Always<()>, _>(fixed::<F, 5, 4, 8, 56>(), 1 + choose(4));
}

const RATE: usize = 2;
type Small<F> = PP<F, 3, RATE, 2, 1>;
/// Every interleaving of absorptions and squeezes.
pub fn duplex<F: HF>() {
    type M = Always<()>;
    let p: &'static Small<F> = Box::leak(Box::new(fixed::<F, 3, RATE, 2, 1>()));
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let mut s = Sponge::<'static, Rec<F, M>, Small<F>>::new(dr, p);
    let mut spec = Spec::<F, Small<F>>::new(p);
    for i in 0..8 {
        if choose_bool() {
            let (x, xv) = el(dr, &format!("x{i}"));
            s.absorb(dr, &x).unwrap();
            spec.absorb(xv);
        } else {
            match (s.squeeze(dr), spec.squeeze()) {
                (Ok(e), Some(w)) => {
                    value_matches("squeezed", &e);
                    prove_eq("squeezed", v(&e), w);
                }
                (Err(_), None) => check("empty sponge refuses to squeeze", true),
                _ => check("squeeze is refused exactly when nothing was absorbed", false),
            }
        }
    }
}
/// Saving and resuming equals squeezing directly; saving is refused outside absorb mode.
pub fn save_resume<F: HF>() {
    type M = Always<()>;
    let p: &'static Small<F> = Box::leak(Box::new(fixed::<F, 3, RATE, 2, 1>()));
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let mut s = Sponge::<'static, Rec<F, M>, Small<F>>::new(dr, p);
    let mut spec = Spec::<F, Small<F>>::new(p);
    let n = choose(4);
    let mut absorbed = 0;
    let mut squeezing = false;
    for i in 0..n {
        if choose_bool() {
            let (x, xv) = el(dr, &format!("x{i}"));
            s.absorb(dr, &x).unwrap();
            spec.absorb(xv);
            absorbed += 1;
            squeezing = false;
        } else if s.squeeze(dr).is_ok() {
            let _ = spec.squeeze();
            squeezing = true;
        }
    }
    let direct = s.clone();
    match s.save_state(dr) {
        Err(SaveError::AlreadyInSqueezeMode) => check("refused: squeezing", squeezing),
        Err(SaveError::NothingAbsorbed) => check("refused: empty", absorbed == 0 && !squeezing),
        Err(_) => check("no other refusal", false),
        Ok(state) => {
            check("saved only while absorbing", absorbed > 0 && !squeezing);
            // the state travels as elements
            let els = state.into_elements();
            check("state length", els.len() == 3);
            let state = ragu_primitives::poseidon::SpongeState::from_elements(els);
            let mut r = Sponge::<'static, Rec<F, M>, Small<F>>::resume(state, p);
            let mut direct = direct;
            for i in 0..5 {
                if i == 3 {
                    let (x, xv) = el(dr, "late");
                    r.absorb(dr, &x).unwrap();
                    direct.absorb(dr, &x).unwrap();
                    spec.absorb(xv);
                }
                let a = r.squeeze(dr).unwrap();
                let b = direct.squeeze(dr).unwrap();
                let w = spec.squeeze().unwrap();
                prove_eq("resumed = direct", v(&a), v(&b));
                prove_eq("resumed = model", v(&a), w);
            }
        }
    }
}
/// Round constants and matrix as the reference implementation of Poseidon generates them (prime field, x^alpha).
fn grain<F: ff::PrimeField>(t: usize, full: usize, partial: usize) -> (Vec<Vec<F>>, Vec<Vec<F>>) {
    let mut st: Vec<u8> = vec![];
    for (v, n) in [(1, 2), (0, 4), (F::NUM_BITS as usize, 12), (t, 12), (full, 10), (partial, 10)] {
        st.extend((0..n).rev().map(|i| (v >> i & 1) as u8));
    }
    st.extend([1; 30]);
    assert_eq!(st.len(), 80);
    let mut raw = move || {
        let b = st[62] ^ st[51] ^ st[38] ^ st[23] ^ st[13] ^ st[0];
        st.remove(0);
        st.push(b);
        b
    };
    for _ in 0..160 {
        raw();
    }
    // the number, most significant bit first, and its little-endian bytes
    let mut word = move || {
        let mut v = F::ZERO;
        let mut le = F::Repr::default();
        for i in (0..F::NUM_BITS as usize).rev() {
            while raw() == 0 {
                raw();
            }
            let b = raw();
            v = v.double() + F::from(b as u64);
            le.as_mut()[i / 8] |= b << (i % 8);
        }
        (v, le)
    };
    let rcs = (0..full + partial)
        .map(|_| {
            (0..t)
                .map(|_| loop {
                    if let Some(x) = Option::<F>::from(F::from_repr(word().1)) {
                        break x;
                    }
                })
                .collect()
        })
        .collect();
    let xy = loop {
        let xy: Vec<F> = (0..2 * t).map(|_| word().0).collect();
        if (0..2 * t).all(|i| (0..i).all(|j| xy[i] != xy[j])) {
            break xy;
        }
    };
    let mds = (0..t).map(|i| (0..t).map(|j| (xy[i] + xy[t + j]).invert().unwrap()).collect()).collect();
    (rcs, mds)
}
/// The deployed parameters: shapes, S-box is a permutation, the MDS matrix is invertible.
pub fn params<F: HF>() {
    use ff::{Field, PrimeField};
    fn one<F: PrimeField, H: HF<P = F>, P: PoseidonPermutation<F>>(p: &P)
    where
        F: PBase,
    {
        check("state", P::RATE < P::T && P::T == 5 && P::RATE == 4);
        check("even number of full rounds", P::FULL_ROUNDS % 2 == 0);
        check("constants", p.round_constants().count() == P::FULL_ROUNDS + P::PARTIAL_ROUNDS);
        check("constants per round", p.round_constants().all(|r| r.len() == P::T));
        check("matrix", p.mds_matrix().len() == P::T && p.mds_matrix().all(|r| r.len() == P::T));
        // the matrix is invertible: M x = 0 forces x = 0
        let x: Vec<H> = vars("x", P::T);
        for row in p.mds_matrix() {
            let mut s = H::ZERO;
            for (c, y) in row.iter().zip(&x) {
                s += H::lift(*c) * *y;
            }
            assume(s.is0());
        }
        prove("invertible", Fml::all(x.iter().map(|y| y.is0())));
        // adding the constants and multiplying by the matrix, on any state, is what the reference generation says
        let (rcs, mds) = grain::<F>(P::T, P::FULL_ROUNDS, P::PARTIAL_ROUNDS);
        let s: Vec<H> = vars("s", P::T);
        let by = |rows: Vec<Vec<F>>| -> Vec<H> {
            rows.iter().map(|r| r.iter().zip(&s).fold(H::ZERO, |a, (c, y)| a + H::lift(*c) * *y)).collect()
        };
        prove_eqs("matrix of the reference", &by(p.mds_matrix().map(|r| r.to_vec()).collect()), &by(mds));
        for (i, (r, q)) in p.round_constants().zip(&rcs).enumerate() {
            let plus = |r: &[F]| -> Vec<H> { r.iter().zip(&s).map(|(c, y)| H::lift(*c) + *y).collect() };
            prove_eqs(&format!("constants of round {i}"), &plus(r), &plus(q));
        }
    }
    let _ = <F as Field>::ONE;
    use std::any::TypeId;
    if TypeId::of::<F::P>() == TypeId::of::<pasta_curves::Fp>() {
        if F::SYMBOLIC {
            one::<pasta_curves::Fp, Sym<pasta_curves::Fp>, _>(&ragu_pasta::PoseidonFp)
        } else {
            one::<pasta_curves::Fp, pasta_curves::Fp, _>(&ragu_pasta::PoseidonFp)
        }
    } else if F::SYMBOLIC {
        one::<pasta_curves::Fq, Sym<pasta_curves::Fq>, _>(&ragu_pasta::PoseidonFq)
    } else {
        one::<pasta_curves::Fq, pasta_curves::Fq, _>(&ragu_pasta::PoseidonFq)
    }
}

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::{Fp, Fq};
    h!(hs, "P06", perm_small_complete, Fp, "permutation, small widths and round counts, symbolic state (and symbolic constants for one round): honest");
    h!(hs, "P06", perm_small_sound, Fp, "permutation, small widths: adversarial wires");
    h!(hs, "P06", perm_real, Fp, "permutation at T=5, 8+56 rounds, symbolic inputs, against the published definition");
    h!(hs, "P06", duplex, Fp, "duplex sponge: every sequence of 8 absorb/squeeze steps at rate 2, against a reference model");
    h!(hs, "P06", save_resume, Fp, "save_state/resume after every sequence of up to 3 steps; refusals");
    h!(hs, "P06", params, Fp, "deployed parameters over Fp: shapes, invertible matrix, the reference generation");
    h!(hs, "P06", params, Fq, "deployed parameters over Fq: shapes, invertible matrix, the reference generation");
}
