//! `Sym<P>`: a field element that is either a constant of `P` or an expression of the engine's arena.
use crate::engine::{Ctx, Eng, Fml, CTX, L};
use crate::{field_info, prune, PBase, HF};
use core::fmt;
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::Rng;
use std::any::TypeId;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy)]
pub enum Sym<P: PBase> {
    C(P),
    N(u32),
}
use Sym::{C, N};

pub(crate) fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    CTX.with(|c| match &mut *c.borrow_mut() {
        Ctx::Sym(e) => f(e),
        _ => panic!("symbolic value outside the engine"),
    })
}
fn fid<P: PBase>(e: &mut Eng) -> u8 {
    e.field_id(TypeId::of::<P>(), field_info::<P>)
}
impl<P: PBase> Sym<P> {
    fn node(self, e: &mut Eng) -> u32 {
        match self {
            C(p) => {
                let f = fid::<P>(e);
                e.cst(f, p.inner())
            }
            N(n) => n,
        }
    }
    fn of(e: &Eng, n: u32) -> Self {
        match e.as_cst(n) {
            Some(v) => C(P::from_inner(v)),
            None => N(n),
        }
    }
    fn bin(a: Self, b: Self, f: fn(&mut Eng, u32, u32) -> u32) -> Self {
        with(|e| {
            let (x, y) = (a.node(e), b.node(e));
            let r = f(e, x, y);
            Self::of(e, r)
        })
    }
    fn sadd(a: Self, b: Self) -> Self {
        match (a, b) {
            (C(x), C(y)) => C(x + y),
            _ => Self::bin(a, b, Eng::add),
        }
    }
    fn ssub(a: Self, b: Self) -> Self {
        match (a, b) {
            (C(x), C(y)) => C(x - y),
            _ => Self::bin(a, b, |e, x, y| {
                let n = e.neg(y);
                e.add(x, n)
            }),
        }
    }
    fn smul(a: Self, b: Self) -> Self {
        match (a, b) {
            (C(x), C(y)) => C(x * y),
            _ => Self::bin(a, b, Eng::mul),
        }
    }
    fn sneg(a: Self) -> Self {
        match a {
            C(x) => C(-x),
            N(n) => with(|e| {
                let r = e.neg(n);
                Self::of(e, r)
            }),
        }
    }
    fn seq(a: Self, b: Self) -> bool {
        match (a, b) {
            (C(x), C(y)) => x == y,
            _ => {
                let r = with(|e| {
                    let (x, y) = (a.node(e), b.node(e));
                    e.decide_eq(x, y)
                });
                match r {
                    Ok(v) => v,
                    Err(_) => prune(),
                }
            }
        }
    }
    /// The value, by forking over all of them in a small field.
    fn concretize(self) -> P {
        match self {
            C(p) => p,
            N(n) => {
                let at_point = with(|e| {
                    let vals: Vec<_> = if e.opaque && !e.toy {
                        (0..e.var_names.len() as u64).map(|i| P::from((i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (i << 17)).square().inner()).collect()
                    } else {
                        return None;
                    };
                    let mut memo = std::mem::take(&mut e.omemo);
                    let v = e.eval(n, &vals, &mut memo);
                    e.omemo = memo;
                    Some(v)
                });
                if let Some(v) = at_point {
                    return P::from_inner(v);
                }
                if let Some(v) = with(|e| e.const_value(n)) {
                    return P::from_inner(v);
                }
                let Some(p) = P::TOY else { panic!("concretization of a symbolic value in a large field") };
                for v in 0..p {
                    let c = P::of_canon([v, 0, 0, 0]);
                    if self == C(c) {
                        return c;
                    }
                }
                prune()
            }
        }
    }
}
impl<P: PBase> HF for Sym<P> {
    type P = P;
    const SYMBOLIC: bool = true;
    fn var(name: &str) -> Self {
        with(|e| {
            let f = fid::<P>(e);
            N(e.var(f, name))
        })
    }
    fn lift(p: P) -> Self {
        C(p)
    }
    fn eqf(self, o: Self) -> Fml {
        with(|e| {
            let (x, y) = (self.node(e), o.node(e));
            e.eqf(x, y)
        })
    }
    fn key(self) -> (u32, L) {
        match self {
            C(p) => (u32::MAX, p.inner()),
            N(n) => (n, [0; 4]),
        }
    }
}
impl<P: PBase> fmt::Debug for Sym<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            C(p) => write!(f, "{p:?}"),
            N(n) => write!(f, "<{n}>"),
        }
    }
}
impl<P: PBase> Default for Sym<P> {
    fn default() -> Self {
        C(P::ZERO)
    }
}
impl<P: PBase> PartialEq for Sym<P> {
    fn eq(&self, o: &Self) -> bool {
        Self::seq(*self, *o)
    }
}
impl<P: PBase> Eq for Sym<P> {}
impl<P: PBase> std::hash::Hash for Sym<P> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.concretize().hash(h)
    }
}
impl<P: PBase> PartialOrd for Sym<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: PBase> Ord for Sym<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.concretize().cmp(&o.concretize())
    }
}
impl<P: PBase> ConstantTimeEq for Sym<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from(Self::seq(*self, *o) as u8)
    }
}
impl<P: PBase> ConditionallySelectable for Sym<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) {
            *b
        } else {
            *a
        }
    }
}
impl<P: PBase> From<u64> for Sym<P> {
    fn from(v: u64) -> Self {
        C(P::from(v))
    }
}
pasta_curves::ops_impl!([P: PBase] Sym<P>,
    |a, b| Sym::<P>::sadd(*a, *b),
    |a, b| Sym::<P>::ssub(*a, *b),
    |a, b| Sym::<P>::smul(*a, *b),
    |a| Sym::<P>::sneg(*a)
);
impl<P: PBase> Field for Sym<P> {
    const ZERO: Self = C(P::ZERO);
    const ONE: Self = C(P::ONE);
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        if crate::is_given() {
            return C(P::random(rng));
        }
        Self::var("random")
    }
    fn square(&self) -> Self {
        Self::smul(*self, *self)
    }
    fn double(&self) -> Self {
        Self::sadd(*self, *self)
    }
    fn invert(&self) -> CtOption<Self> {
        match self {
            C(p) => {
                let r = p.invert();
                let ok = r.is_some();
                CtOption::new(C(r.unwrap_or(P::ZERO)), ok)
            }
            N(n) => {
                if Self::seq(*self, Self::ZERO) {
                    CtOption::new(Self::ZERO, Choice::from(0))
                } else {
                    let r = with(|e| {
                        let r = e.inv(*n);
                        Self::of(e, r)
                    });
                    CtOption::new(r, Choice::from(1))
                }
            }
        }
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        if let (C(a), C(b)) = (num, div) {
            let (c, r) = P::sqrt_ratio(a, b);
            return (c, C(r));
        }
        let a = num.concretize();
        let b = div.concretize();
        let (c, r) = P::sqrt_ratio(&a, &b);
        (c, C(r))
    }
}
impl<P: PBase> PrimeField for Sym<P> {
    type Repr = P::Repr;
    fn from_repr(r: P::Repr) -> CtOption<Self> {
        let x = P::from_repr(r);
        let ok = x.is_some();
        CtOption::new(C(x.unwrap_or(P::ZERO)), ok)
    }
    fn to_repr(&self) -> P::Repr {
        self.concretize().to_repr()
    }
    fn from_u128(v: u128) -> Self {
        C(P::from_u128(v))
    }
    fn is_odd(&self) -> Choice {
        self.concretize().is_odd()
    }
    const MODULUS: &'static str = P::MODULUS;
    const NUM_BITS: u32 = P::NUM_BITS;
    const CAPACITY: u32 = P::CAPACITY;
    const TWO_INV: Self = C(P::TWO_INV);
    const MULTIPLICATIVE_GENERATOR: Self = C(P::MULTIPLICATIVE_GENERATOR);
    const S: u32 = P::S;
    const ROOT_OF_UNITY: Self = C(P::ROOT_OF_UNITY);
    const ROOT_OF_UNITY_INV: Self = C(P::ROOT_OF_UNITY_INV);
    const DELTA: Self = C(P::DELTA);
}
impl<P: PBase> WithSmallOrderMulGroup<3> for Sym<P> {
    const ZETA: Self = C(P::ZETA);
}
impl<P: PBase> FromUniformBytes<64> for Sym<P> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        C(P::from_uniform_bytes(b))
    }
}
