//! Headers, their encodings, and the circuits around application steps.
use crate::header::*;
use crate::hx_cycle::*;
use crate::hx_util::*;
use crate::step::internal::{adapter::*, padded, rerandomize::Rerandomize, trivial::Trivial};
use crate::step::*;
use ragu_circuits::{Circuit, polynomials::TestRank as Rk};
use ragu_core::gadgets::{Bound, Kind};

pub struct H1;
pub struct H2;
pub struct H3;
impl<F: HF> Header<F> for H1 {
    const SUFFIX: Suffix = Suffix::new(7);
    type Data = F;
    type Output = Kind![F; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, F>) -> RResult<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
impl<F: HF> Header<F> for H2 {
    const SUFFIX: Suffix = Suffix::new(3);
    type Data = (F, bool);
    type Output = Kind![F; (Element<'_, _>, Boolean<'_, _>)];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, (F, bool)>) -> RResult<Bound<'dr, D, Self::Output>> {
        let (a, b) = w.cast();
        let e = Element::alloc(dr, a)?;
        let e2 = e.square(dr)?;
        Ok((e2, Boolean::alloc(dr, b)?))
    }
}
impl<F: HF> Header<F> for H3 {
    const SUFFIX: Suffix = Suffix::new(0);
    type Data = Vec<F>;
    type Output = Kind![F; FixedVec<Element<'_, _>, ConstLen<4>>];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, Vec<F>>) -> RResult<Bound<'dr, D, Self::Output>> {
        FixedVec::try_from_fn(|i| Element::alloc(dr, w.as_ref().map(|v| v[i])))
    }
}
trait Samp<F: HF>: Header<F> {
    /// some data, and the encoding of it
    fn data(name: &str) -> (Self::Data, Vec<F>);
    fn suffix() -> u64;
}
impl<F: HF> Samp<F> for () {
    fn data(_: &str) -> ((), Vec<F>) {
        ((), vec![])
    }
    fn suffix() -> u64 {
        1
    }
}
impl<F: HF> Samp<F> for H1 {
    fn data(n: &str) -> (F, Vec<F>) {
        let x = F::var(n);
        (x, vec![x])
    }
    fn suffix() -> u64 {
        9
    }
}
impl<F: HF> Samp<F> for H2 {
    fn data(n: &str) -> ((F, bool), Vec<F>) {
        let (x, b) = (F::var(n), choose_bool());
        ((x, b), vec![x * x, bit(b)])
    }
    fn suffix() -> u64 {
        5
    }
}
impl<F: HF> Samp<F> for H3 {
    fn data(n: &str) -> (Vec<F>, Vec<F>) {
        let x: Vec<F> = vars(n, 4);
        (x.clone(), x)
    }
    fn suffix() -> u64 {
        2
    }
}
fn vals<F: HF, M: RecMode>(e: &[E<F, M>]) -> Vec<F> {
    e.iter().map(|e| e.wire().val).collect()
}
fn padded_form<F: HF>(mut c: Vec<F>, suffix: u64, hs: usize) -> Option<Vec<F>> {
    if c.len() + 1 > hs {
        return None;
    }
    c.resize(hs - 1, F::ZERO);
    c.push(F::from(suffix));
    Some(c)
}
fn encoded<F: HF, H: Samp<F>, const HS: usize>() {
    let (data, content) = H::data("x");
    let want = padded_form(content, H::suffix(), HS);
    let mut d = Rec::<F, Always<()>>::new();
    let dr = &mut d;
    let uniform = choose_bool();
    let just = || Always::maybe_just(|| data.clone());
    let e = if uniform {
        Encoded::<'static, _, H, HS>::new_uniform(dr, just())
    } else {
        Encoded::<'static, _, H, HS>::new(dr, just())
    };
    let mut out: Vec<E<F, Always<()>>> = vec![];
    let r = e.and_then(|e| {
        let c = e.clone();
        e.write(dr, &mut out)?;
        let mut again = vec![];
        c.write(dr, &mut again)?;
        prove_eqs("a copy encodes alike", &vals(&again), &vals(&out));
        Ok(())
    });
    match (r, want) {
        (Ok(()), Some(w)) => {
            check("length", out.len() == HS);
            prove_eqs("encoding", &vals(&out), &w);
            let values: Vec<F> = out.iter().map(|e| *e.value().take()).collect();
            prove_eqs("assignment", &values, &w);
            d.prove_satisfied("constraints");
        }
        (Err(ragu_core::Error::MalformedEncoding(_)), None) => check("too long: refused", true),
        (r, w) => check(&format!("accepted {} fits {}", r.is_ok(), w.is_some()), false),
    }
}
fn enc_hs<F: HF, const HS: usize>() {
    match choose(4) {
        0 => encoded::<F, (), HS>(),
        1 => encoded::<F, H1, HS>(),
        2 => encoded::<F, H2, HS>(),
        _ => encoded::<F, H3, HS>(),
    }
}
pub fn encodings<F: HF>() {
    match choose(6) {
        0 => enc_hs::<F, 1>(),
        1 => enc_hs::<F, 2>(),
        2 => enc_hs::<F, 3>(),
        3 => enc_hs::<F, 4>(),
        4 => enc_hs::<F, 5>(),
        _ => enc_hs::<F, 8>(),
    }
}
/// Without a witness: the content is the gadget's, the rest is forced.
fn encoded_sound<F: HF, H: Samp<F>, const HS: usize>() {
    let mut d = Rec::<F, Empty>::new();
    let dr = &mut d;
    let e = Encoded::<'static, _, H, HS>::new(dr, Empty).unwrap();
    let mut content = vec![];
    use ragu_primitives::io::Write;
    H::Output::write_gadget(e.as_gadget(), dr, &mut content).unwrap();
    let content = vals(&content);
    let mut out: Vec<E<F, Empty>> = vec![];
    e.write(dr, &mut out).unwrap();
    let want = padded_form(content, H::suffix(), HS).unwrap();
    check("length", out.len() == HS);
    d.implies("encoding", vec![], Fml::all(vals(&out).iter().zip(&want).map(|(a, b)| a.eqf(*b))));
}
pub fn encodings_sound<F: HF>() {
    match choose(5) {
        0 => encoded_sound::<F, (), 1>(),
        1 => encoded_sound::<F, (), 4>(),
        2 => encoded_sound::<F, H1, 4>(),
        3 => encoded_sound::<F, H2, 5>(),
        _ => encoded_sound::<F, H3, 5>(),
    }
}
/// The uniform encoding lays down the same circuit whatever the header.
fn shape<F: HF, H: Samp<F>>(dr: &mut Rec<F, Empty>) -> usize {
    let e = Encoded::<'static, _, H, 6>::new_uniform(dr, Empty).unwrap();
    let mut out: Vec<E<F, Empty>> = vec![];
    e.write(dr, &mut out).unwrap();
    out.len()
}
fn same<F: HF>(f: impl Fn(usize, &mut Rec<F, Empty>)) {
    let mut a = Rec::new();
    f(0, &mut a);
    let mut b = Rec::new();
    f(1 + choose(3), &mut b);
    prove_same_structure("same circuit", &a.events, &b.events);
}
pub fn uniform<F: HF>() {
    if choose_bool() {
        same::<F>(|i, dr| {
            match i {
                0 => shape::<F, ()>(dr),
                1 => shape::<F, H1>(dr),
                2 => shape::<F, H2>(dr),
                _ => shape::<F, H3>(dr),
            };
        });
    } else {
        fn rr<F: HF, H: Header<F>>(dr: &mut Rec<F, Empty>) {
            let a = Adapter::<Cy<F>, Rerandomize<H>, Rk, 6>::new(Rerandomize::new());
            a.witness(dr, Empty).map(|_| ()).unwrap()
        }
        same::<F>(|i, dr| match i {
            0 => rr::<F, ()>(dr),
            1 => rr::<F, H1>(dr),
            2 => rr::<F, H2>(dr),
            _ => rr::<F, H3>(dr),
        });
    }
}
/// A step that combines its inputs.
struct Combine;
impl<F: HF> Step<Cy<F>> for Combine {
    const INDEX: Index = Index::new(0);
    type Witness<'s> = F;
    type Aux<'s> = (F, u8);
    type Left = H1;
    type Right = H2;
    type Output = H3;
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>, const HS: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, F>,
        left: DriverValue<D, F>,
        right: DriverValue<D, (F, bool)>,
    ) -> RResult<(
        (Encoded<'dr, D, H1, HS>, Encoded<'dr, D, H2, HS>, Encoded<'dr, D, H3, HS>),
        DriverValue<D, Vec<F>>,
        DriverValue<D, (F, u8)>,
    )> {
        let l: Encoded<'dr, D, H1, HS> = Encoded::new(dr, left)?;
        let r: Encoded<'dr, D, H2, HS> = Encoded::new(dr, right)?;
        let w = Element::alloc(dr, w)?;
        let m = l.as_gadget().mul(dr, &w)?;
        let s = m.add(dr, &r.as_gadget().0);
        let es = vec![m, s, w.clone(), l.as_gadget().clone()];
        let data = D::just(|| es.iter().map(|e| *e.value().take()).collect());
        let out = Encoded::from_gadget(FixedVec::new(es)?);
        let aux = w.value().map(|w| (*w, 9u8));
        Ok(((l, r, out), data, aux))
    }
}
pub fn adapter_combine<F: HF>() {
    const HS: usize = 6;
    let (x, y, w, b) = (F::var("x"), F::var("y"), F::var("w"), choose_bool());
    let mut d = Rec::<F, Always<()>>::new();
    let a = Adapter::<Cy<F>, Combine, Rk, HS>::new(Combine);
    let out = a.witness(&mut d, Always::maybe_just(|| (x, (y, b), w))).unwrap();
    let (out, aux) = out.into_parts();
    let l = padded_form(vec![x], 9, HS).unwrap();
    let r = padded_form(vec![y * y, bit(b)], 5, HS).unwrap();
    let o = vec![x * w, x * w + y * y, w, x];
    let p = padded_form(o.clone(), 2, HS).unwrap();
    let want: Vec<F> = l.iter().chain(&r).chain(&p).copied().collect();
    let got: Vec<F> = out.iter().map(|e| e.wire().val).collect();
    prove_eqs("left, right, output", &got, &want);
    let got: Vec<F> = out.iter().map(|e| *e.value().take()).collect();
    prove_eqs("assignment", &got, &want);
    let ((al, ar), data, (aw, tag)) = aux.take();
    prove_eqs("left header", &al[..], &l);
    prove_eqs("right header", &ar[..], &r);
    prove_eqs("output data", &data, &o);
    prove_eq("auxiliary data", aw, w);
    check("auxiliary tag", tag == 9);
    d.prove_satisfied("constraints");
}
pub fn adapter_short<F: HF>() {
    let (x, y, w) = (F::var("x"), F::var("y"), F::var("w"));
    let mut d = Rec::<F, Always<()>>::new();
    let a = Adapter::<Cy<F>, Combine, Rk, 4>::new(Combine);
    let r = a.witness(&mut d, Always::maybe_just(|| (x, (y, true), w)));
    check("an output that does not fit is refused", matches!(r, Err(ragu_core::Error::MalformedEncoding(_))));
}
fn internal_steps<F: HF, H: Samp<F>>() {
    const HS: usize = 6;
    let (data, content) = H::data("x");
    let mut d = Rec::<F, Always<()>>::new();
    let enc = padded_form(content.clone(), H::suffix(), HS).unwrap();
    let none = padded_form(vec![], 1, HS).unwrap();
    let a = Adapter::<Cy<F>, Rerandomize<H>, Rk, HS>::new(Rerandomize::new());
    let (out, aux) = a.witness(&mut d, Always::maybe_just(|| (data, (), ()))).unwrap().into_parts();
    let got: Vec<F> = out.iter().map(|e| e.wire().val).collect();
    let want: Vec<F> = enc.iter().chain(&none).chain(&enc).copied().collect();
    prove_eqs("rerandomization keeps the header", &got, &want);
    d.prove_satisfied("constraints");
    let ((al, ar), data, ()) = aux.take();
    prove_eqs("left header", &al[..], &enc);
    prove_eqs("right header", &ar[..], &none);
    let mut e = Rec::<F, Always<()>>::new();
    let g = Encoded::<'static, _, H, HS>::new(&mut e, Always::maybe_just(|| data)).unwrap();
    let mut o = vec![];
    g.write(&mut e, &mut o).unwrap();
    prove_eqs("data is preserved", &vals(&o), &enc);
}
pub fn rerandomize<F: HF>() {
    match choose(4) {
        0 => internal_steps::<F, ()>(),
        1 => internal_steps::<F, H1>(),
        2 => internal_steps::<F, H2>(),
        _ => internal_steps::<F, H3>(),
    }
}
/// No witness can make a rerandomization change the header, or a trivial step claim anything but trivial headers.
pub fn internal_sound<F: HF>() {
    const HS: usize = 6;
    let mut d = Rec::<F, Empty>::new();
    let none = padded_form(vec![], 1, HS).unwrap();
    if choose_bool() {
        let a = Adapter::<Cy<F>, Rerandomize<H2>, Rk, HS>::new(Rerandomize::new());
        let out = a.witness(&mut d, Empty).unwrap().into_output();
        let got: Vec<F> = out.iter().map(|e| e.wire().val).collect();
        d.implies("output = left", vec![], Fml::all((0..HS).map(|i| got[i].eqf(got[2 * HS + i]))));
        d.implies("right is trivial", vec![], Fml::all((0..HS).map(|i| got[HS + i].eqf(none[i]))));
    } else {
        let a = Adapter::<Cy<F>, Trivial, Rk, HS>::new(Trivial::new());
        let out = a.witness(&mut d, Empty).unwrap().into_output();
        let got: Vec<F> = out.iter().map(|e| e.wire().val).collect();
        check("length", got.len() == 3 * HS);
        d.implies("all trivial", vec![], Fml::all((0..3 * HS).map(|i| got[i].eqf(none[i % HS]))));
    }
}
pub fn trivial_step<F: HF>() {
    const HS: usize = 3;
    let mut d = Rec::<F, Always<()>>::new();
    let a = Adapter::<Cy<F>, Trivial, Rk, HS>::new(Trivial::new());
    let out = a.witness(&mut d, Always::maybe_just(|| ((), (), ()))).unwrap().into_output();
    let got: Vec<F> = out.iter().map(|e| e.wire().val).collect();
    let none = padded_form::<F>(vec![], 1, HS).unwrap();
    prove_eqs("trivial headers", &got, &none.iter().cycle().take(9).copied().collect::<Vec<_>>());
    d.prove_satisfied("constraints");
}
/// At the very top of the range a suffix is refused, or still apart from every other (arithmetic wraps here, as in a
/// release build).
pub fn suffix_top<F: HF>() {
    let k = choose(4);
    let got = std::panic::catch_unwind(|| Suffix::new(usize::MAX - k).get());
    match got {
        Err(_) => check("refused", true),
        Ok(v) => {
            check("not an internal suffix", v != Suffix::internal(0).get() && v != Suffix::internal(1).get());
            check("not a small one", v > 4);
        }
    }
}
/// Circuits are looked up at the position they are registered at.
pub fn positions<F: HF>() {
    use crate::internal::{native, nested};
    if choose_bool() {
        let k = choose(native::NUM_INTERNAL_CIRCUITS);
        check("native", usize::from(native::InternalCircuitIndex::ALL[k].circuit_index()) == k);
    } else {
        let k = choose(nested::NUM_INTERNAL_CIRCUITS);
        check("nested", usize::from(nested::InternalCircuitIndex::ALL[k].circuit_index()) == k);
    }
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q03", encodings, Fp, "encoding of headers of several shapes at several sizes");
    h!(hs, "Q03", encodings_sound, Fp, "padding and suffix are forced");
    h!(hs, "Q03", uniform, Fp, "uniform encodings and rerandomization do not depend on the header type");
    h!(hs, "Q03", suffix_top, Fp, "suffix numbers at the top of the range");
    h!(hs, "Q04", positions, Fp, "internal circuits are found where they are registered");
    h!(hs, "Q04", adapter_combine, Fp, "step circuit: outputs and auxiliary data");
    h!(hs, "Q04", adapter_short, Fp, "step circuit: header too small");
    h!(hs, "Q04", rerandomize, Fp, "rerandomization preserves data");
    h!(hs, "Q04", internal_sound, Fp, "internal steps, adversarial");
    h!(hs, "Q04", trivial_step, Fp, "trivial step");
}
