//! `quote!` that records the interpolated integers in the order in which they appear.
pub use proc_macro2;
use proc_macro2::{Literal, TokenStream};
pub trait ToTokens {
    fn to_tokens(&self, t: &mut TokenStream);
    fn to_token_stream(&self) -> TokenStream {
        let mut t = TokenStream::new();
        self.to_tokens(&mut t);
        t
    }
}
impl ToTokens for u64 {
    fn to_tokens(&self, t: &mut TokenStream) {
        t.push(*self)
    }
}
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        t.push(self.0)
    }
}
impl ToTokens for TokenStream {
    fn to_tokens(&self, t: &mut TokenStream) {
        for x in self.limbs() {
            t.push(*x)
        }
    }
}
impl<T: ToTokens + ?Sized> ToTokens for &T {
    fn to_tokens(&self, t: &mut TokenStream) {
        (**self).to_tokens(t)
    }
}
impl<T: ToTokens> ToTokens for [T] {
    fn to_tokens(&self, t: &mut TokenStream) {
        for x in self {
            x.to_tokens(t)
        }
    }
}
impl<T: ToTokens, const N: usize> ToTokens for [T; N] {
    fn to_tokens(&self, t: &mut TokenStream) {
        self[..].to_tokens(t)
    }
}
impl<T: ToTokens> ToTokens for Vec<T> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self[..].to_tokens(t)
    }
}
#[macro_export]
macro_rules! quote {
    ($($t:tt)*) => {{
        #[allow(unused_mut)]
        let mut s = $crate::proc_macro2::TokenStream::new();
        $crate::each!(s $($t)*);
        s
    }};
}
#[macro_export]
macro_rules! each {
    ($s:ident) => {};
    ($s:ident # ( $($i:tt)* ) , * $($r:tt)*) => { $crate::each!($s $($i)*); $crate::each!($s $($r)*); };
    ($s:ident # ( $($i:tt)* ) * $($r:tt)*) => { $crate::each!($s $($i)*); $crate::each!($s $($r)*); };
    ($s:ident # $v:ident $($r:tt)*) => { $crate::ToTokens::to_tokens(&$v, &mut $s); $crate::each!($s $($r)*); };
    ($s:ident [ $($i:tt)* ] $($r:tt)*) => { $crate::each!($s $($i)*); $crate::each!($s $($r)*); };
    ($s:ident ( $($i:tt)* ) $($r:tt)*) => { $crate::each!($s $($i)*); $crate::each!($s $($r)*); };
    ($s:ident { $($i:tt)* } $($r:tt)*) => { $crate::each!($s $($i)*); $crate::each!($s $($r)*); };
    ($s:ident 0u64 $($r:tt)*) => { $s.push(0); $crate::each!($s $($r)*); };
    ($s:ident 0 $($r:tt)*) => { $s.push(0); $crate::each!($s $($r)*); };
    ($s:ident $t:tt $($r:tt)*) => { $crate::each!($s $($r)*); };
}
