//! `Boolean` and `multipack`.
use crate::both;
use crate::util::*;
use ragu_primitives::multipack;

fn alloc<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let b = choose_bool();
    let x: B<F, M> = Boolean::alloc(&mut d, <Rec<F, M> as Driver>::just(|| b)).unwrap();
    bvalue_matches("alloc", &x);
    let w = x.wire().val;
    let _ = <Rec<F, M> as Driver>::just(|| check("alloc value", x.value().take() == b));
    conclude(&d, "alloc", w.is0().or(w.eqf(F::ONE)));
    prove_eq("element", x.element().wire().val, w);
    value_matches("element", &x.element());
}
both!(alloc, bool_alloc_complete, bool_alloc_sound);

fn logic<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (a, av) = bo(dr);
    let (b, bv) = bo(dr);
    let (label, out, spec) = match choose(4) {
        0 => ("not", a.not(dr), F::ONE - av),
        1 => ("and", a.and(dr, &b).unwrap(), av * bv),
        2 => {
            // not(and(not a, not b)): or, from composed gadgets
            let na = a.not(dr);
            let nb = b.not(dr);
            let x = na.and(dr, &nb).unwrap();
            ("or", x.not(dr), av + bv - av * bv)
        }
        _ => {
            let x = a.and(dr, &a).unwrap();
            ("and self", x, av)
        }
    };
    bvalue_matches(label, &out);
    let w = out.wire().val;
    conclude(dr, label, w.eqf(spec).and(w.is0().or(w.eqf(F::ONE))));
}
both!(logic, bool_logic_complete, bool_logic_sound);

fn select<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (c, cv) = bo(dr);
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    let out = c.conditional_select(dr, &a, &b).unwrap();
    value_matches("select", &out);
    let w = v(&out);
    let spec = cv.is0().implies(w.eqf(av)).and(cv.eqf(F::ONE).implies(w.eqf(bv)));
    conclude(dr, "select", spec);
}
both!(select, bool_select_complete, bool_select_sound);

fn cond_eq<F: HF, M: RecMode>() {
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let (c, cv) = bo(dr);
    let (a, av) = el(dr, "a");
    let (b, bv) = el(dr, "b");
    c.conditional_enforce_equal(dr, &a, &b).unwrap();
    let spec = cv.is0().or(av.eqf(bv));
    if M::WITNESS {
        prove("conditional_enforce_equal accepts exactly", Fml::all(dr.cons.iter().cloned()).iff(spec));
    } else {
        dr.implies("conditional_enforce_equal", vec![], spec);
    }
}
both!(cond_eq, bool_cond_eq_complete, bool_cond_eq_sound);

/// A boolean whose wire is an arbitrary field element: packing is linear, so booleanity is not needed.
fn loose<F: HF, M: RecMode>(dr: &mut Rec<F, M>, i: usize, val: Option<bool>) -> (B<F, M>, F) {
    let b = val.unwrap_or(false);
    if M::WITNESS {
        let w = dr.input(bit(b));
        // a promoted boolean on that wire
        let src: B<F, M> = Boolean::alloc(&mut Rec::<F, M>::new(), <Rec<F, M> as Driver>::just(|| b)).unwrap();
        let _ = &src;
        let x = rewire(&src, w);
        let wv = w.val;
        return (x, wv);
    }
    let w = dr.free(&format!("b{i}"));
    let src: B<F, M> = Boolean::alloc(&mut Rec::<F, M>::new(), <Rec<F, M> as Driver>::just(|| b)).unwrap();
    (rewire(&src, w), w.val)
}
struct To<F: HF, M>(W<F>, PhantomData<M>);
impl<F: HF, M: RecMode> ragu_core::convert::WireMap<F> for To<F, M> {
    type Src = Rec<F, M>;
    type Dst = Rec<F, M>;
    fn convert_wire(&mut self, _: &W<F>) -> Result<W<F>> {
        Ok(self.0)
    }
}
fn rewire<F: HF, M: RecMode>(b: &B<F, M>, w: W<F>) -> B<F, M> {
    let d = Demoted::new(&b.map(&mut To::<F, M>(w, PhantomData)).unwrap()).unwrap();
    d.promote(b.value())
}
const LENS: [usize; 7] = [0, 1, 2, 253, 254, 255, 510];
fn packed_len<F: HF>(n: usize) -> usize {
    n.div_ceil(F::CAPACITY as usize)
}
/// With symbolic bit wires: each packed wire is the little-endian value of its chunk.
pub fn multipack_wires<F: HF>() {
    let mut dr = Rec::<F, Empty>::new();
    let cap = F::CAPACITY as usize;
    let lens: Vec<usize> = if toy::<F>() { (0..3 * cap + 2).collect() } else { LENS.to_vec() };
    let n = lens[choose(lens.len())];
    let (bits, vals): (Vec<_>, Vec<_>) = (0..n).map(|i| loose::<F, Empty>(&mut dr, i, None)).unzip();
    let out = multipack(&mut dr, &bits).unwrap();
    check("number of elements", out.len() == packed_len::<F>(n));
    for (i, o) in out.iter().enumerate() {
        let mut s = F::ZERO;
        let mut g = F::ONE;
        for x in vals[i * cap..].iter().take(cap) {
            s += *x * g;
            g = g + g;
        }
        prove_eq("packed wire", v(o), s);
    }
    check("packing adds no constraint", dr.cons.is_empty());
}
/// The witness value of every packed element is the value on its wire, for every bit string (F_97, 6 bits per element).
pub fn multipack_values<F: HF>() {
    let mut dr = Rec::<F, Always<()>>::new();
    let n = choose(8);
    let bits: Vec<_> = (0..n).map(|i| loose::<F, Always<()>>(&mut dr, i, Some(choose_bool())).0).collect();
    let out = multipack(&mut dr, &bits).unwrap();
    for o in &out {
        value_matches("multipack", o);
    }
    check("reached", true);
}
/// Distinct bit strings of up to the capacity pack to distinct elements.
pub fn multipack_injective<F: HF>() {
    let mut dr = Rec::<F, Empty>::new();
    let n = F::CAPACITY as usize;
    let (a, av): (Vec<_>, Vec<_>) = (0..n).map(|i| loose::<F, Empty>(&mut dr, i, None)).unzip();
    let (b, bv): (Vec<_>, Vec<_>) = (0..n).map(|i| loose::<F, Empty>(&mut dr, 100 + i, None)).unzip();
    let pa = multipack(&mut dr, &a).unwrap();
    let pb = multipack(&mut dr, &b).unwrap();
    check("one element", pa.len() == 1 && pb.len() == 1);
    let mut hyps = vec![v(&pa[0]).eqf(v(&pb[0]))];
    for x in av.iter().chain(&bv) {
        hyps.push(x.is0().or(x.eqf(F::ONE)));
    }
    prove_under("injective", hyps, Fml::all(av.iter().zip(&bv).map(|(x, y)| x.eqf(*y))));
}

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::{Fp, Fq};
    use symx::{T13, T7, T97};
    h!(hs, "P01", bool_alloc_complete, Fp, "Boolean::alloc, honest");
    h!(hs, "P01", bool_alloc_sound, T13, "Boolean::alloc: adversarial wires are 0 or 1 (F_13)");
    h!(hs, "P01", bool_alloc_sound, T97, "Boolean::alloc: adversarial wires are 0 or 1 (F_97)");
    h!(hs, "P01", bool_logic_complete, Fp, "not, and, and their composition: honest");
    h!(hs, "P01", bool_logic_sound, T13, "not, and, and their composition: adversarial wires (F_13)");
    h!(hs, "P01", bool_select_complete, Fp, "conditional_select: honest");
    h!(hs, "P01", bool_select_sound, T7, "conditional_select: adversarial wires (F_7)");
    h!(hs, "P01", bool_cond_eq_complete, T13, "conditional_enforce_equal: satisfied exactly when the condition is off or the elements agree");
    h!(hs, "P01", bool_cond_eq_sound, T7, "conditional_enforce_equal: adversarial wires (F_7)");
    h!(hs, "P02", multipack_wires, Fp, "multipack: symbolic bit wires, lengths around the 254-bit capacity");
    h!(hs, "P02", multipack_wires, Fq, "multipack over the other field");
    h!(hs, "P02", multipack_wires, T97, "multipack with 6-bit capacity, every length up to 19");
    h!(hs, "P02", multipack_values, T97, "multipack: carried value = wire value, every bit string of up to 7 bits");
    h!(hs, "P02", multipack_injective, T97, "multipack: distinct bit strings of the capacity pack to distinct elements");
}
