use crate::src;
use syn::LitInt;
crate::harnesses! {
    repr_fits(50) {
        // every value below 2^256
        let l = [src::u64(), src::u64(), src::u64(), src::u64()];
        let out = crate::repr::evaluate(LitInt::of(&[l[0], l[1], l[2], l[3], 0]));
        match out {
            Ok(t) => assert!(t.limbs() == l, "the limbs of the literal, least significant first"),
            Err(_) => panic!("a literal below 2^256 was refused"),
        }
    }
    repr_too_big(50) {
        // every value from 2^256 to below 2^320
        let l = [src::u64(), src::u64(), src::u64(), src::u64(), src::u64()];
        src::assume(l[4] != 0);
        assert!(crate::repr::evaluate(LitInt::of(&l)).is_err(), "a literal of more than 256 bits was accepted");
    }
}
