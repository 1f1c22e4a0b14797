//! Structs deriving `Gadget`, `Write` and `Consistent`, in many shapes, run over symbolic wires and values.
use crate::util::*;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::io::{Buffer, Write};
use ragu_core::gadgets::{Bound, GadgetKind, Kind};
use ragu_core::convert::WireMap;
use ff::Field;

// ---- shapes

/// Every annotation, in mixed order.
#[derive(Gadget, Consistent)]
pub struct Mixed<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub w0: D::Wire,
    #[ragu(value)]
    pub v0: DriverValue<D, D::F>,
    #[ragu(gadget)]
    pub b0: Boolean<'dr, D>,
    #[ragu(phantom)]
    pub p: PhantomData<D::F>,
    pub b1: Boolean<'dr, D>,
    #[ragu(value)]
    pub v1: DriverValue<D, Vec<D::F>>,
    #[ragu(wire)]
    pub w1: D::Wire,
    pub e: Element<'dr, D>,
}
/// A driver that is not called `D`, with a lifetime that is not called `'dr`.
#[derive(Gadget, Write, Consistent)]
pub struct Custom<'my, #[ragu(driver)] MyD: Driver<'my>> {
    pub z: Element<'my, MyD>,
    #[ragu(gadget)]
    pub a: Boolean<'my, MyD>,
    #[ragu(phantom)]
    pub p: PhantomData<(&'my (), MyD)>,
    pub m: [Boolean<'my, MyD>; 2],
}
/// The driver is not the first type parameter; a constant, a field bound and a lifetime follow.
#[derive(Gadget, Write, Consistent)]
pub struct Late<'dr, T: Tag<D::F>, #[ragu(driver)] D: Driver<'dr>, const N: usize> {
    pub items: FixedVec<Boolean<'dr, D>, ConstLen<N>>,
    #[ragu(phantom)]
    #[ragu(skip)]
    pub tag: PhantomData<T>,
    #[ragu(gadget)]
    #[ragu(skip)]
    pub hidden: Boolean<'dr, D>,
    pub last: Element<'dr, D>,
}
/// A parameter named `F` that is not the driver's field, and a bound with the field in an associated type.
#[derive(Gadget, Write, Consistent)]
pub struct Named<'dr, D: Driver<'dr>, F: Hold<Item = D::F>, E: Tag<(D::F, u8)>> {
    pub x: Element<'dr, D>,
    #[ragu(phantom)]
    pub f: PhantomData<(F, E)>,
    pub y: Boolean<'dr, D>,
}
/// A gadget inside a gadget inside a gadget.
#[derive(Gadget, Write, Consistent)]
pub struct Outer<'dr, D: Driver<'dr>> {
    pub c: Custom<'dr, D>,
    pub pair: (Boolean<'dr, D>, Element<'dr, D>),
    #[ragu(gadget)]
    pub l: Late<'dr, Mark, D, 2>,
    #[ragu(gadget, skip)]
    pub c2: Custom<'dr, D>,
}
/// A gadget generic over the kind of another.
#[derive(Gadget, Write)]
pub struct Over<'dr, D: Driver<'dr>, G: GadgetKind<D::F> + Write<D::F>> {
    pub first: Element<'dr, D>,
    pub inner: Bound<'dr, D, G>,
    pub after: Element<'dr, D>,
}
/// A gadget over a curve whose base field is the driver's.
#[derive(Gadget, Write, Consistent)]
pub struct Curvy<'dr, D: Driver<'dr>, C: CurveAffine<Base = D::F>> {
    pub p: Point<'dr, D, C>,
    #[ragu(gadget)]
    pub b: Boolean<'dr, D>,
    pub q: Point<'dr, D, C>,
}
/// Only a wire; only a value; nothing.
#[derive(Gadget, Consistent)]
pub struct OneWire<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub only: D::Wire,
}
#[derive(Gadget, Consistent)]
pub struct OneValue<'dr, D: Driver<'dr>> {
    #[ragu(value)]
    pub only: DriverValue<D, D::F>,
}
#[derive(Gadget, Write, Consistent)]
pub struct Nothing<'dr, D: Driver<'dr>> {
    #[ragu(phantom)]
    pub p: PhantomData<(&'dr (), D)>,
}
/// Longer lists of equal types: a permutation of fields still compiles.
#[derive(Gadget, Write, Consistent)]
pub struct Five<'a, #[ragu(driver)] Drv: ragu_core::drivers::Driver<'a>> {
    pub e: Element<'a, Drv>,
    pub d: Element<'a, Drv>,
    #[ragu(skip)]
    pub c: Element<'a, Drv>,
    pub b: Element<'a, Drv>,
    #[ragu(skip)]
    pub s: Boolean<'a, Drv>,
    pub a: Element<'a, Drv>,
}
pub trait Tag<F>: Send + Sync + 'static {}
pub struct Mark;
impl<F> Tag<F> for Mark {}
pub trait Hold: Send + Sync + 'static {
    type Item;
}
pub struct Held<F>(PhantomData<F>);
impl<F: Send + Sync + 'static> Hold for Held<F> {
    type Item = F;
}

// ---- building

pub type R<F, M> = Rec<F, M>;
/// Gives every wire a fresh name: what `map` gave back must consist of these, in this order.
pub struct Remap<F: HF, M> {
    pub seen: Vec<W<F>>,
    pub given: Vec<W<F>>,
    dr: Rec<F, M>,
}
impl<F: HF, M: RecMode> WireMap<F> for Remap<F, M> {
    type Src = Rec<F, M>;
    type Dst = Rec<F, M>;
    fn convert_wire(&mut self, w: &W<F>) -> Result<W<F>> {
        self.seen.push(*w);
        let n = self.dr.free("m");
        self.given.push(n);
        Ok(n)
    }
}
fn boolean<F: HF, M: RecMode>(dr: &mut R<F, M>) -> B<F, M> {
    let w = dr.free("bw");
    let b = choose_bool();
    raw_bool(w, b)
}
fn element<F: HF, M: RecMode>(dr: &mut R<F, M>) -> E<F, M> {
    el(dr, "ew").0
}
/// What a harness needs to know of a shape: the wires of its fields in declaration order (read off field by field, not
/// through the derived code), the values it carries, which booleans and points `Consistent` must reach, what `Write` emits.
pub struct View<F> {
    pub wires: Vec<W<F>>,
    pub values: Vec<F>,
    pub consistent: Vec<W<F>>,
    pub written: Vec<W<F>>,
}
pub trait Shape<F: HF, M: RecMode>: Gadget<'static, R<F, M>> {
    fn build(dr: &mut R<F, M>) -> Self;
    fn view(&self) -> View<F>;
}
fn val<F: HF, M: RecMode>(v: &DriverValue<R<F, M>, F>) -> Vec<F> {
    let mut out = vec![];
    let _ = <R<F, M> as Driver>::just(|| out.push(*v.as_ref().take()));
    out
}
fn bv<F: HF, M: RecMode>(b: &B<F, M>) -> Vec<F> {
    let mut out = vec![];
    let _ = <R<F, M> as Driver>::just(|| out.push(bit(b.value().take())));
    out
}
fn ev<F: HF, M: RecMode>(b: &E<F, M>) -> Vec<F> {
    let mut out = vec![];
    let _ = <R<F, M> as Driver>::just(|| out.push(*b.value().take()));
    out
}
macro_rules! cat {
    ($($e:expr),* $(,)?) => {{ let mut v = vec![]; $( v.extend($e); )* v }};
}
fn bw<F: HF, M: RecMode>(b: &B<F, M>) -> [W<F>; 1] {
    [*b.wire()]
}
fn ew<F: HF, M: RecMode>(b: &E<F, M>) -> [W<F>; 1] {
    [*b.wire()]
}

impl<F: HF, M: RecMode> Shape<F, M> for Mixed<'static, R<F, M>> {
    fn build(dr: &mut R<F, M>) -> Self {
        let (x, y, z) = (F::var("v0"), F::var("v10"), F::var("v11"));
        Mixed {
            w0: dr.free("w0"),
            v0: <R<F, M> as Driver>::just(|| x),
            b0: boolean(dr),
            p: PhantomData,
            b1: boolean(dr),
            v1: <R<F, M> as Driver>::just(|| vec![y, z]),
            w1: dr.free("w1"),
            e: element(dr),
        }
    }
    fn view(&self) -> View<F> {
        let mut vs = val::<F, M>(&self.v0);
        vs.extend(cat![bv(&self.b0), bv(&self.b1)]);
        let _ = <R<F, M> as Driver>::just(|| vs.extend(self.v1.as_ref().take().iter().copied()));
        vs.extend(ev(&self.e));
        View {
            wires: cat![[self.w0], bw(&self.b0), bw(&self.b1), [self.w1], ew(&self.e)],
            values: vs,
            consistent: cat![bw(&self.b0), bw(&self.b1)],
            written: vec![],
        }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for Custom<'static, R<F, M>> {
    fn build(dr: &mut R<F, M>) -> Self {
        Custom { z: element(dr), a: boolean(dr), p: PhantomData, m: [boolean(dr), boolean(dr)] }
    }
    fn view(&self) -> View<F> {
        View {
            wires: cat![ew(&self.z), bw(&self.a), bw(&self.m[0]), bw(&self.m[1])],
            values: cat![ev(&self.z), bv(&self.a), bv(&self.m[0]), bv(&self.m[1])],
            consistent: cat![bw(&self.a), bw(&self.m[0]), bw(&self.m[1])],
            written: cat![ew(&self.z), bw(&self.a), bw(&self.m[0]), bw(&self.m[1])],
        }
    }
}
impl<F: HF, M: RecMode, const N: usize> Shape<F, M> for Late<'static, Mark, R<F, M>, N> {
    fn build(dr: &mut R<F, M>) -> Self {
        let v: Vec<_> = (0..N).map(|_| boolean(dr)).collect();
        Late { items: FixedVec::new(v).unwrap(), tag: PhantomData, hidden: boolean(dr), last: element(dr) }
    }
    fn view(&self) -> View<F> {
        let items: Vec<_> = self.items.iter().flat_map(bw).collect();
        View {
            wires: cat![items.clone(), bw(&self.hidden), ew(&self.last)],
            values: cat![self.items.iter().flat_map(bv), bv(&self.hidden), ev(&self.last)],
            consistent: cat![items.clone(), bw(&self.hidden)],
            written: cat![items, ew(&self.last)],
        }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for Named<'static, R<F, M>, Held<F>, Mark> {
    fn build(dr: &mut R<F, M>) -> Self {
        Named { x: element(dr), f: PhantomData, y: boolean(dr) }
    }
    fn view(&self) -> View<F> {
        View {
            wires: cat![ew(&self.x), bw(&self.y)],
            values: cat![ev(&self.x), bv(&self.y)],
            consistent: cat![bw(&self.y)],
            written: cat![ew(&self.x), bw(&self.y)],
        }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for Outer<'static, R<F, M>> {
    fn build(dr: &mut R<F, M>) -> Self {
        Outer { c: Custom::build(dr), pair: (boolean(dr), element(dr)), l: Late::build(dr), c2: Custom::build(dr) }
    }
    fn view(&self) -> View<F> {
        let (c, l, c2) = (self.c.view(), self.l.view(), self.c2.view());
        let (p, q) = (&self.pair.0, &self.pair.1);
        View {
            wires: cat![c.wires, bw(p), ew(q), l.wires, c2.wires],
            values: cat![c.values, bv(p), ev(q), l.values, c2.values],
            consistent: cat![c.consistent, bw(p), l.consistent, c2.consistent],
            written: cat![c.written, bw(p), ew(q), l.written],
        }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for Over<'static, R<F, M>, Kind![F; Custom<'_, _>]> {
    fn build(dr: &mut R<F, M>) -> Self {
        Over { first: element(dr), inner: Custom::build(dr), after: element(dr) }
    }
    fn view(&self) -> View<F> {
        let c = self.inner.view();
        View {
            wires: cat![ew(&self.first), c.wires, ew(&self.after)],
            values: cat![ev(&self.first), c.values, ev(&self.after)],
            consistent: vec![],
            written: cat![ew(&self.first), c.written, ew(&self.after)],
        }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for OneWire<'static, R<F, M>> {
    fn build(dr: &mut R<F, M>) -> Self {
        OneWire { only: dr.free("o") }
    }
    fn view(&self) -> View<F> {
        View { wires: vec![self.only], values: vec![], consistent: vec![], written: vec![] }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for OneValue<'static, R<F, M>> {
    fn build(_: &mut R<F, M>) -> Self {
        let x = F::var("o");
        OneValue { only: <R<F, M> as Driver>::just(|| x) }
    }
    fn view(&self) -> View<F> {
        View { wires: vec![], values: val::<F, M>(&self.only), consistent: vec![], written: vec![] }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for Nothing<'static, R<F, M>> {
    fn build(_: &mut R<F, M>) -> Self {
        Nothing { p: PhantomData }
    }
    fn view(&self) -> View<F> {
        View { wires: vec![], values: vec![], consistent: vec![], written: vec![] }
    }
}
impl<F: HF, M: RecMode> Shape<F, M> for Five<'static, R<F, M>> {
    fn build(dr: &mut R<F, M>) -> Self {
        Five { e: element(dr), d: element(dr), c: element(dr), b: element(dr), s: boolean(dr), a: element(dr) }
    }
    fn view(&self) -> View<F> {
        View {
            wires: cat![ew(&self.e), ew(&self.d), ew(&self.c), ew(&self.b), bw(&self.s), ew(&self.a)],
            values: cat![ev(&self.e), ev(&self.d), ev(&self.c), ev(&self.b), bv(&self.s), ev(&self.a)],
            consistent: cat![bw(&self.s)],
            written: cat![ew(&self.e), ew(&self.d), ew(&self.b), ew(&self.a)],
        }
    }
}

// ---- what is proved of each

fn same<F: HF>(label: &str, a: &[W<F>], b: &[W<F>]) {
    check(&format!("{label}: which wires"), a.iter().map(|w| w.id).eq(b.iter().map(|w| w.id)));
    if a.len() == b.len() {
        prove(label, Fml::all(a.iter().zip(b).map(|(x, y)| x.val.eqf(y.val))));
    }
}
fn mapped<F: HF, M: RecMode, S: Shape<F, M>>() {
    let mut dr = R::<F, M>::new();
    let s = S::build(&mut dr);
    let v = s.view();
    let mut m = Remap { seen: vec![], given: vec![], dr };
    let t = s.map(&mut m).expect("map");
    let tv = t.view();
    same("every wire once, in field order", &m.seen, &v.wires);
    same("the mapped wires take their places", &tv.wires, &m.given);
    check("as many values", tv.values.len() == v.values.len());
    prove_eqs("values carried over", &tv.values, &v.values);
    check("number of wires", s.num_wires().is_ok_and(|n| n == v.wires.len()));
    let c = s.clone().view();
    same("a clone has the same wires", &c.wires, &v.wires);
    check("a clone has as many values", c.values.len() == v.values.len());
    prove_eqs("a clone has the same values", &c.values, &v.values);
}
fn equality<F: HF, M: RecMode, S: Shape<F, M>>() {
    let mut dr = R::<F, M>::new();
    let (a, b) = (S::build(&mut dr), S::build(&mut dr));
    let (va, vb) = (a.view(), b.view());
    let n = (dr.cons.len(), dr.zeros);
    a.enforce_equal(&mut dr, &b).expect("enforce_equal");
    let spec = Fml::all(va.wires.iter().zip(&vb.wires).map(|(x, y)| x.val.eqf(y.val)));
    prove("equal exactly when all wires are", Fml::all(dr.cons[n.0..].iter().cloned()).iff(spec));
    check("one constraint per wire", dr.zeros - n.1 == va.wires.len());
    // wire by wire, in field order, against the same wire of the other gadget
    let z: Vec<_> = dr.events.iter().filter_map(|e| if let Ev::Zero(t) = e { Some(t.clone()) } else { None }).collect();
    for (i, t) in z.iter().enumerate().take(va.wires.len()) {
        let ids: Vec<u32> = t.iter().map(|x| x.0).collect();
        check(&format!("constraint {i} compares the two wires"), ids == [va.wires[i].id, vb.wires[i].id] || ids == [vb.wires[i].id, va.wires[i].id]);
    }
}
fn consistency<F: HF, M: RecMode, S: Shape<F, M> + Consistent<'static, R<F, M>>>() {
    let mut dr = R::<F, M>::new();
    let s = S::build(&mut dr);
    let v = s.view();
    let n = dr.cons.len();
    s.enforce_consistent(&mut dr).expect("enforce_consistent");
    let bool_spec = Fml::all(v.consistent.iter().map(|w| w.val.eqf(F::ZERO).or(w.val.eqf(F::ONE))));
    if M::WITNESS {
        // honest: satisfied when the wires carry the values
        let honest = Fml::all(v.wires.iter().filter(|w| v.consistent.iter().any(|c| c.id == w.id)).zip(bools(&s)).map(|(w, b)| w.val.eqf(b)));
        prove("satisfied exactly by consistent wires", Fml::all(dr.cons[n..].iter().cloned()).iff(honest));
    } else {
        prove_under("forces every gadget field", dr.cons[n..].to_vec(), bool_spec);
    }
}
/// The carried boolean values, in field order.
fn bools<F: HF, M: RecMode, S: Shape<F, M>>(s: &S) -> Vec<F> {
    let v = s.view();
    // values and wires of gadgets without `value` fields run in parallel
    v.wires.iter().zip(&v.values).filter(|(w, _)| v.consistent.iter().any(|c| c.id == w.id)).map(|(_, x)| *x).collect()
}
fn writing<F: HF, M: RecMode, S: Shape<F, M>>()
where
    <S as Gadget<'static, R<F, M>>>::Kind: Write<F>,
{
    let mut dr = R::<F, M>::new();
    let s = S::build(&mut dr);
    let v = s.view();
    let ev0 = dr.events.len();
    let mut out: Vec<E<F, M>> = vec![];
    s.write(&mut dr, &mut out).expect("write");
    let ws: Vec<W<F>> = out.iter().map(|e| *e.wire()).collect();
    same("written in field order, skipped fields left out", &ws, &v.written);
    check("writing constrains nothing", dr.events.len() == ev0);
}
macro_rules! shapes {
    ($($f:ident)*; $($which:ident($n:expr): $($i:literal $t:ty),*;)*) => { $(
        fn $which<F: HF, M: RecMode>(k: usize, job: &str) {
            let _ = job;
            match k { $( $i => job!($which, F, M, $t), )* _ => prune() }
        } )* };
}
macro_rules! job {
    (do_map, $F:ty, $M:ty, $t:ty) => { mapped::<$F, $M, $t>() };
    (do_eq, $F:ty, $M:ty, $t:ty) => { equality::<$F, $M, $t>() };
    (do_write, $F:ty, $M:ty, $t:ty) => { writing::<$F, $M, $t>() };
    (do_consistent, $F:ty, $M:ty, $t:ty) => { consistency::<$F, $M, $t>() };
}
shapes! {;
    do_map(11): 0 Mixed<'static, R<F, M>>, 1 Custom<'static, R<F, M>>, 2 Late<'static, Mark, R<F, M>, 0>, 3 Late<'static, Mark, R<F, M>, 3>,
        4 Named<'static, R<F, M>, Held<F>, Mark>, 5 Over<'static, R<F, M>, Kind![F; Custom<'_, _>]>, 6 OneWire<'static, R<F, M>>,
        7 OneValue<'static, R<F, M>>, 8 Nothing<'static, R<F, M>>, 9 Five<'static, R<F, M>>, 10 Outer<'static, R<F, M>>;
    do_eq(11): 0 Mixed<'static, R<F, M>>, 1 Custom<'static, R<F, M>>, 2 Late<'static, Mark, R<F, M>, 0>, 3 Late<'static, Mark, R<F, M>, 3>,
        4 Named<'static, R<F, M>, Held<F>, Mark>, 5 Over<'static, R<F, M>, Kind![F; Custom<'_, _>]>, 6 OneWire<'static, R<F, M>>,
        7 OneValue<'static, R<F, M>>, 8 Nothing<'static, R<F, M>>, 9 Five<'static, R<F, M>>;
    do_write(7): 0 Custom<'static, R<F, M>>, 1 Late<'static, Mark, R<F, M>, 0>, 2 Late<'static, Mark, R<F, M>, 3>,
        3 Named<'static, R<F, M>, Held<F>, Mark>, 4 Over<'static, R<F, M>, Kind![F; Custom<'_, _>]>, 5 Nothing<'static, R<F, M>>,
        6 Five<'static, R<F, M>>, 7 Outer<'static, R<F, M>>;
    do_consistent(8): 0 Mixed<'static, R<F, M>>, 1 Custom<'static, R<F, M>>, 2 Late<'static, Mark, R<F, M>, 0>, 3 Late<'static, Mark, R<F, M>, 3>,
        4 Named<'static, R<F, M>, Held<F>, Mark>, 5 OneWire<'static, R<F, M>>, 6 OneValue<'static, R<F, M>>, 7 Nothing<'static, R<F, M>>,
        8 Five<'static, R<F, M>>;
}
fn map<F: HF, M: RecMode>() {
    do_map::<F, M>(choose(11), "")
}
fn eq<F: HF, M: RecMode>() {
    do_eq::<F, M>(choose(10), "")
}
fn write<F: HF, M: RecMode>() {
    do_write::<F, M>(choose(8), "")
}
fn consistent<F: HF, M: RecMode>() {
    do_consistent::<F, M>(choose(9), "")
}
both!(map, map_honest, map_free);
both!(eq, eq_honest, eq_free);
both!(write, write_honest, write_free);
both!(consistent, consistent_honest, consistent_sound);

pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    use symx::T13;
    h!(hs, "M02", map_honest, Fp, "derive(Gadget): map, clone and num_wires over 11 shapes, symbolic wires and values");
    h!(hs, "M02", map_free, Fp, "the same without a witness");
    h!(hs, "M02", eq_honest, T13, "derive(Gadget): enforce_equal holds exactly when all wires agree");
    h!(hs, "M02", eq_free, T13, "the same without a witness");
    h!(hs, "M03", write_honest, Fp, "derive(Write): fields in order, skipped ones left out");
    h!(hs, "M03", write_free, Fp, "the same without a witness");
    h!(hs, "M03", consistent_honest, T13, "derive(Consistent): satisfied exactly by wires that carry the values");
    h!(hs, "M03", consistent_sound, T13, "derive(Consistent): every gadget field is forced, wires and values are not touched");
}
