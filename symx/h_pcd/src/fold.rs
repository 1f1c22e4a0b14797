//! Folding of revdot claims.
use crate::hx_util::*;
use crate::internal::fold_revdot::*;
use ragu_circuits::polynomials::{TestRank as R, sparse::Polynomial};

type Po<F> = Polynomial<F, R>;
#[derive(Clone, Copy, Default)]
pub struct Par<const N: usize, const M: usize>;
impl<const N: usize, const M: usize> Parameters for Par<N, M> {
    type NumGroups = ConstLen<N>;
    type GroupSize = ConstLen<M>;
}
/// Two coefficients that meet each other in the reversed dot product.
fn poly<F: HF>(name: &str) -> (Po<F>, (F, F)) {
    let (l, h) = (F::var(&format!("{name}l")), F::var(&format!("{name}h")));
    let mut v = vec![F::ZERO; 128];
    v[2] = l;
    v[125] = h;
    (Po::from_coeffs(v), (l, h))
}
fn horner<F: HF>(v: impl IntoIterator<Item = F>, s: F) -> F {
    v.into_iter().fold(F::ZERO, |a, x| a * s + x)
}
fn con<F: HF>(dr: &mut Rec<F, Always<()>>, v: F) -> E<F, Always<()>> {
    let w = dr.input(v);
    Element::promote(w, Always::maybe_just(|| v))
}
fn fold_nm<F: HF, const N: usize, const M: usize>() {
    generic_position();
    let n = choose(N * M + 1);
    let (mut a, mut b, mut ca, mut cb) = (vec![], vec![], vec![], vec![]);
    for i in 0..n {
        let (p, c) = poly::<F>(&format!("a{i}"));
        a.push(p);
        ca.push(c);
        let (p, c) = poly::<F>(&format!("b{i}"));
        b.push(p);
        cb.push(c);
    }
    let dot = |x: (F, F), y: (F, F)| x.0 * y.1 + x.1 * y.0;
    let get = |v: &[(F, F)], i: usize| v.get(i).copied().unwrap_or((F::ZERO, F::ZERO));
    // error terms of the first layer: the off-diagonal products of each group, row by row
    let inner = inner_error_terms::<F, R, Par<N, M>>(&a, &b);
    let (mut got, mut want) = (vec![], vec![]);
    for g in 0..N {
        got.extend(inner[g].iter().copied());
        for i in 0..M {
            for j in 0..M {
                if i != j {
                    want.push(dot(get(&ca, g * M + i), get(&cb, g * M + j)));
                }
            }
        }
    }
    prove_eqs("error terms of the groups", &got, &want);
    let (mu, nu, mu2, nu2) = (F::var("mu"), F::var("nu"), F::var("mu2"), F::var("nu2"));
    let nz = |x: F| {
        assume(x.is0().not());
        x.invert().unwrap()
    };
    let (mui, mu2i) = (nz(mu), nz(mu2));
    let fa = fold_inner::<Po<F>, F, Par<N, M>>(&a, mui);
    let fb = fold_inner::<Po<F>, F, Par<N, M>>(&b, mu * nu);
    let at = |p: &Po<F>| {
        let v: Vec<F> = p.iter_coeffs().collect();
        (v[2], v[125])
    };
    let (mut got, mut want) = (vec![], vec![]);
    for g in 0..N {
        for (f, c, s) in [(&fa, &ca, mui), (&fb, &cb, mu * nu)] {
            let (l, h) = at(&f[g]);
            got.extend([l, h]);
            want.push(horner((0..M).map(|i| get(c, g * M + i).0), s));
            want.push(horner((0..M).map(|i| get(c, g * M + i).1), s));
        }
    }
    prove_eqs("folded groups", &got, &want);
    // the claims about the folded polynomials follow from those about the parts
    let mut d = Rec::<F, Always<()>>::new();
    let dr = &mut d;
    let (emu, enu, emu2, enu2) = (con(dr, mu), con(dr, nu), con(dr, mu2), con(dr, nu2));
    let folder = ClaimFolder::new(dr, &emu, &enu).unwrap();
    let mut collapsed = vec![];
    for g in 0..N {
        let errs = FixedVec::from_fn(|k| con(dr, inner[g][k]));
        let ky = FixedVec::from_fn(|i| {
            let i = g * M + i;
            con(dr, dot(get(&ca, i), get(&cb, i)))
        });
        let e = folder.fold_inner::<Par<N, M>>(dr, &errs, &ky).unwrap();
        prove_eq("claim about a folded group", *e.value().take(), fa[g].revdot(&fb[g]));
        collapsed.push(e);
    }
    let outer = outer_error_terms::<F, R, Par<N, M>>(&fa[..], &fb[..]);
    let mut k = 0;
    for i in 0..N {
        for j in 0..N {
            if i != j {
                prove_eq("error terms of the layers", outer[k], dot(at(&fa[i]), at(&fb[j])));
                k += 1;
            }
        }
    }
    check("as many error terms as pairs", k == outer.len());
    let folder = ClaimFolder::new(dr, &emu2, &enu2).unwrap();
    let errs = FixedVec::from_fn(|k| con(dr, outer[k]));
    let c = folder.fold_outer::<Par<N, M>>(dr, &errs, &FixedVec::new(collapsed).unwrap()).unwrap();
    let ga = fold_outer::<Po<F>, F, Par<N, M>>(fa, mu2i);
    let gb = fold_outer::<Po<F>, F, Par<N, M>>(fb, mu2 * nu2);
    prove_eq("claim about the folded polynomials", *c.value().take(), ga.revdot(&gb));
    // folding the evaluations is evaluating the folded polynomials
    let x = F::var("x");
    let (xl, xh) = (x * x, x.pow_vartime([125]));
    for (c, g, s, s2) in [(&ca, &ga, mui, mu2i), (&cb, &gb, mu * nu, mu2 * nu2)] {
        let evs: Vec<_> = c.iter().map(|c| con(dr, c.0 * xl + c.1 * xh)).collect();
        let (es, es2) = (con(dr, s), con(dr, s2));
        let e = fold_two_layer::<_, Par<N, M>>(dr, &evs, &es, &es2).unwrap();
        let (l, h) = at(g);
        prove_eq("folded evaluations", *e.value().take(), l * xl + h * xh);
    }
    d.prove_satisfied("constraints");
}
pub fn fold_claims<F: HF>() {
    match choose(5) {
        0 => fold_nm::<F, 1, 1>(),
        1 => fold_nm::<F, 1, 2>(),
        2 => fold_nm::<F, 2, 1>(),
        3 => fold_nm::<F, 2, 2>(),
        _ => fold_nm::<F, 2, 3>(),
    }
}
pub fn fold_claims_more<F: HF>() {
    match choose(3) {
        0 => fold_nm::<F, 3, 2>(),
        1 => fold_nm::<F, 3, 3>(),
        _ => fold_nm::<F, 2, 4>(),
    }
}
/// The claim-folding circuit computes sum_ij mu^-(n-1-i) (mu nu)^(n-1-j) e_ij, whatever the prover does.
fn folder<F: HF, M: RecMode, const N: usize>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (emu, mu) = el::<F, M>(dr, "mu");
    let (enu, nu) = el::<F, M>(dr, "nu");
    assume(mu.is0().not());
    let f = ClaimFolder::new(dr, &emu, &enu).unwrap();
    let mut errs = vec![];
    let mut ve = vec![];
    for i in 0..NumErrorTerms::<ConstLen<N>>::len() {
        let (e, v) = el::<F, M>(dr, &format!("e{i}"));
        errs.push(e);
        ve.push(v);
    }
    let mut ky = vec![];
    let mut vk = vec![];
    for i in 0..N {
        let (e, v) = el::<F, M>(dr, &format!("k{i}"));
        ky.push(e);
        vk.push(v);
    }
    let (errs, ky) = (FixedVec::new(errs).unwrap(), FixedVec::new(ky).unwrap());
    let inner = choose_bool();
    let out = if inner {
        f.fold_inner::<Par<1, N>>(dr, &errs, &ky).unwrap()
    } else {
        f.fold_outer::<Par<N, 1>>(dr, &errs, &ky).unwrap()
    };
    let mui = mu.invert().unwrap();
    let (mut want, mut k) = (F::ZERO, 0);
    for i in 0..N {
        for j in 0..N {
            let t = if i == j {
                vk[i]
            } else {
                k += 1;
                ve[k - 1]
            };
            want += t * mui.pow_vartime([(N - 1 - i) as u64]) * (mu * nu).pow_vartime([(N - 1 - j) as u64]);
        }
    }
    let got = out.wire().val;
    if M::WITNESS {
        d.prove_satisfied("constraints");
        prove_eq("value", got, want);
    } else {
        d.implies("the claim", vec![], got.eqf(want));
    }
}
fn folder_n<F: HF, M: RecMode>() {
    match choose(4) {
        0 => folder::<F, M, 1>(),
        1 => folder::<F, M, 2>(),
        2 => folder::<F, M, 3>(),
        _ => folder::<F, M, 4>(),
    }
}
both!(folder_n, folder_honest, folder_sound);
/// A zero challenge has no inverse: nothing satisfies the constraints.
pub fn folder_zero<F: HF>() {
    let mut d = Rec::<F, Empty>::new();
    let dr = &mut d;
    let (emu, mu) = el::<F, Empty>(dr, "mu");
    let (enu, _) = el::<F, Empty>(dr, "nu");
    let _ = ClaimFolder::new(dr, &emu, &enu).unwrap();
    d.implies("the challenge is not zero", vec![], mu.is0().not());
}
/// Folding in a circuit: every layer, with and without a witness.
fn two_layer<F: HF, M: RecMode, const N: usize, const G: usize>() {
    let n = choose(N * G + 1);
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (mut es, mut vs) = (vec![], vec![]);
    for i in 0..n {
        let (e, v) = el::<F, M>(dr, &format!("s{i}"));
        es.push(e);
        vs.push(v);
    }
    let (e1, s1) = el::<F, M>(dr, "l1");
    let (e2, s2) = el::<F, M>(dr, "l2");
    let out = fold_two_layer::<_, Par<N, G>>(dr, &es, &e1, &e2).unwrap();
    let at = |i: usize| vs.get(i).copied().unwrap_or(F::ZERO);
    let want = horner((0..N).map(|g| horner((0..G).map(|i| at(g * G + i)), s1)), s2);
    d.implies("folded", vec![], out.wire().val.eqf(want));
}
fn two_layer_n<F: HF, M: RecMode>() {
    match choose(4) {
        0 => two_layer::<F, M, 1, 3>(),
        1 => two_layer::<F, M, 3, 1>(),
        2 => two_layer::<F, M, 3, 2>(),
        _ => two_layer::<F, M, 2, 3>(),
    }
}
fn two_layer_f<F: HF>() {
    two_layer_n::<F, Empty>()
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q01", fold_claims, Fp, "folded polynomials satisfy the folded claims");
    h!(hs, "Q01", fold_claims_more, Fp, "folded polynomials satisfy the folded claims (larger)", 20000, 1);
    h!(hs, "Q01", folder_honest, Fp, "claim folding with a witness");
    h!(hs, "Q01", folder_sound, Fp, "claim folding without");
    h!(hs, "Q01", folder_zero, Fp, "claim folding at zero");
    h!(hs, "Q01", two_layer_f, Fp, "two-layer folding in a circuit");
}
