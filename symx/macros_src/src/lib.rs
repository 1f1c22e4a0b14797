#![allow(warnings)]
#[macro_export]
macro_rules! parse_or_return {
    ($e:ident as $t:ty) => {
        match ::syn::parse2::<$t>($e) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error(),
        }
    };
}
include!(concat!(env!("OUT_DIR"), "/m/lib.rs"));
