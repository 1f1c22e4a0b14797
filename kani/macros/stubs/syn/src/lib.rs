//! An integer literal that is its value, and an error that is nothing but an error.
use num_bigint::BigUint;
use proc_macro2::Span;
#[derive(Clone, Debug)]
pub struct LitInt([u64; 5]);
#[derive(Clone, Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    pub fn new<M: core::fmt::Display>(_: Span, _: M) -> Self {
        Error
    }
    pub fn new_spanned<T, M: core::fmt::Display>(_: T, _: M) -> Self {
        Error
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("error")
    }
}
pub trait FromLit: Sized {
    fn from_lit(l: &[u64; 5]) -> Result<Self>;
}
impl FromLit for BigUint {
    fn from_lit(l: &[u64; 5]) -> Result<Self> {
        Ok(BigUint(*l))
    }
}
impl FromLit for u64 {
    fn from_lit(l: &[u64; 5]) -> Result<Self> {
        if l[1..] == [0; 4] { Ok(l[0]) } else { Err(Error) }
    }
}
impl FromLit for u128 {
    fn from_lit(l: &[u64; 5]) -> Result<Self> {
        if l[2..] == [0; 3] { Ok(l[0] as u128 | (l[1] as u128) << 64) } else { Err(Error) }
    }
}
impl LitInt {
    pub fn of(l: &[u64; 5]) -> Self {
        LitInt(*l)
    }
    pub fn base10_parse<N: FromLit>(&self) -> Result<N> {
        N::from_lit(&self.0)
    }
    pub fn span(&self) -> Span {
        Span
    }
    pub fn suffix(&self) -> &str {
        ""
    }
}
