//! Stand-in for `pasta_curves` 0.5.1: the two Pasta fields and curves, written from their public parameters.
//! `hash_to_curve` is not the real one (try-and-increment over a toy mixing function).
#![no_std]
extern crate alloc;
pub use ff;
pub use group;

pub mod arithmetic;
pub mod curve;
#[macro_use]
mod field;

pub use field::{Fp, Fq};

use curve::{Aff, CurveParams, Proj};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct PallasParams;
impl CurveParams for PallasParams {
    type Base = Fp;
    type Scalar = Fq;
    const ID: &'static str = "pallas";
    fn b() -> Fp {
        Fp::from(5)
    }
    fn gen() -> (Fp, Fp) {
        (-Fp::from(1), Fp::from(2))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct VestaParams;
impl CurveParams for VestaParams {
    type Base = Fq;
    type Scalar = Fp;
    const ID: &'static str = "vesta";
    fn b() -> Fq {
        Fq::from(5)
    }
    fn gen() -> (Fq, Fq) {
        (-Fq::from(1), Fq::from(2))
    }
}
pub type Ep = Proj<PallasParams, Fq>;
pub type EpAffine = Aff<PallasParams, Fq>;
pub type Eq = Proj<VestaParams, Fp>;
pub type EqAffine = Aff<VestaParams, Fp>;
pub mod pallas {
    pub type Base = crate::Fp;
    pub type Scalar = crate::Fq;
    pub type Point = crate::Ep;
    pub type Affine = crate::EpAffine;
}
pub mod vesta {
    pub type Base = crate::Fq;
    pub type Scalar = crate::Fp;
    pub type Point = crate::Eq;
    pub type Affine = crate::EqAffine;
}
