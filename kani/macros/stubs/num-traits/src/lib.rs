//! The traits that the conversion uses.
pub mod identities {
    pub use crate::{One, Zero};
}
pub mod cast {
    pub use crate::ToPrimitive;
}
pub trait Zero: Sized {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}
pub trait One: Sized {
    fn one() -> Self;
}
pub trait ToPrimitive {
    fn to_u64(&self) -> Option<u64>;
    fn to_u128(&self) -> Option<u128>;
    fn to_usize(&self) -> Option<usize> {
        self.to_u64().map(|x| x as usize)
    }
    fn to_u32(&self) -> Option<u32> {
        self.to_u64().and_then(|x| x.try_into().ok())
    }
}
