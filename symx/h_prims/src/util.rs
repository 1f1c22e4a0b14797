#![allow(unused_imports, dead_code)]
pub use core::marker::PhantomData;
pub use ragu_arithmetic::{Coeff, CurveAffine};
pub use ragu_core::drivers::{Driver, DriverValue, LinearExpression};
pub use ragu_core::gadgets::Gadget;
pub use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
pub use ragu_core::Result;
pub use ragu_primitives::promotion::{Demoted, Promotion};
pub use ragu_primitives::{Boolean, Element, GadgetExt, Point};
pub use symdrv::*;
pub use symx::*;

pub type E<F, M> = Element<'static, Rec<F, M>>;
pub type B<F, M> = Boolean<'static, Rec<F, M>>;
/// An element on an arbitrary wire.
pub fn el<F: HF, M: RecMode>(dr: &mut Rec<F, M>, name: &str) -> (E<F, M>, F) {
    let w = dr.free(name);
    (Element::promote(w, <Rec<F, M> as Driver>::just(|| w.val)), w.val)
}
pub fn els<F: HF, M: RecMode>(dr: &mut Rec<F, M>, name: &str, n: usize) -> (Vec<E<F, M>>, Vec<F>) {
    (0..n).map(|i| el(dr, &format!("{name}{i}"))).unzip()
}
/// An element with a given wire value.
pub fn elv<F: HF, M: RecMode>(dr: &mut Rec<F, M>, v: F) -> E<F, M> {
    let w = dr.input(v);
    Element::promote(w, <Rec<F, M> as Driver>::just(|| w.val))
}
/// A boolean: an arbitrary value of the boolean domain as far as the mode lets one say so.
pub fn bo<F: HF, M: RecMode>(dr: &mut Rec<F, M>) -> (B<F, M>, F) {
    let b = choose_bool();
    let out = Boolean::alloc(dr, <Rec<F, M> as Driver>::just(|| b)).expect("boolean allocation");
    let v = out.wire().val;
    (out, v)
}
pub fn v<F: HF, M: RecMode>(e: &E<F, M>) -> F {
    e.wire().val
}
/// The witness value carried by a gadget is the value on its wire.
pub fn value_matches<F: HF, M: RecMode>(label: &str, e: &E<F, M>) {
    let _ = <Rec<F, M> as Driver>::just(|| prove_eq(&format!("{label}: value"), *e.value().take(), e.wire().val));
}
pub fn bvalue_matches<F: HF, M: RecMode>(label: &str, b: &B<F, M>) {
    let _ = <Rec<F, M> as Driver>::just(|| prove_eq(&format!("{label}: value"), bit(b.value().take()), b.wire().val));
}
pub fn bit<F: HF>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
/// Completeness (witness mode): the constraints hold and `spec` does. Soundness: the constraints imply `spec`.
pub fn conclude<F: HF, M: RecMode>(dr: &Rec<F, M>, label: &str, spec: Fml) {
    if M::WITNESS {
        dr.prove_satisfied(&format!("{label}: satisfied"));
        prove(label, spec);
    } else {
        dr.implies(label, vec![], spec);
    }
}
pub fn toy<F: HF>() -> bool {
    <F::P as PBase>::TOY.is_some()
}
#[macro_export]
macro_rules! both {
    ($f:ident, $c:ident, $s:ident) => {
        pub fn $c<F: HF>() {
            $f::<F, Always<()>>()
        }
        pub fn $s<F: HF>() {
            $f::<F, Empty>()
        }
    };
}
