#![allow(unused_imports, dead_code)]
pub use core::marker::PhantomData;
pub use ragu_arithmetic::{Coeff, CurveAffine};
pub use ragu_core::drivers::{Driver, DriverValue, LinearExpression};
pub use ragu_core::gadgets::Gadget;
pub use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
pub use ragu_core::Result;
pub use ragu_primitives::promotion::{Demoted, Promotion};
pub use ragu_primitives::vec::{ConstLen, FixedVec, Len};
pub use ragu_primitives::{Boolean, Element, GadgetExt, Point};
pub use symdrv::*;
pub use symx::*;

pub type E<F, M> = Element<'static, Rec<F, M>>;
pub type B<F, M> = Boolean<'static, Rec<F, M>>;
pub fn el<F: HF, M: RecMode>(dr: &mut Rec<F, M>, name: &str) -> (E<F, M>, F) {
    let w = dr.free(name);
    (Element::promote(w, <Rec<F, M> as Driver>::just(|| w.val)), w.val)
}
pub fn bit<F: HF>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
/// The same gadget on other wires.
pub struct Put<F: HF, M>(pub Vec<W<F>>, pub PhantomData<M>);
impl<F: HF, M: RecMode> ragu_core::convert::WireMap<F> for Put<F, M> {
    type Src = Rec<F, M>;
    type Dst = Rec<F, M>;
    fn convert_wire(&mut self, _: &W<F>) -> Result<W<F>> {
        Ok(self.0.remove(0))
    }
}
pub fn raw_bool<F: HF, M: RecMode>(w: W<F>, b: bool) -> B<F, M> {
    let mut scratch = Rec::<F, M>::new();
    let g: B<F, M> = Boolean::alloc(&mut scratch, <Rec<F, M> as Driver>::just(|| b)).unwrap();
    g.map(&mut Put::<F, M>(vec![w], PhantomData)).unwrap()
}
#[macro_export]
macro_rules! both {
    ($f:ident, $c:ident, $s:ident) => {
        pub fn $c<F: HF>() {
            $f::<F, Always<()>>()
        }
        pub fn $s<F: HF>() {
            $f::<F, Empty>()
        }
    };
}
