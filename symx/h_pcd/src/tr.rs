//! The Fiat-Shamir transcript.
use crate::hx_cycle::*;
use crate::hx_util::*;
use crate::internal::transcript::*;
use ragu_primitives::io::Buffer;
use ragu_primitives::poseidon::SaveError;

/// The reference: a sponge that has absorbed the length of the tag and its 16-byte little-endian chunks.
pub fn spec_new<'a, F: HF>(p: &'a Pos<F>, tag: &[u8]) -> Spec<'a, F, Pos<F>> {
    let mut s = Spec::new(p);
    s.absorb(F::from(tag.len() as u64));
    for c in tag.chunks(16) {
        let mut x = F::ZERO;
        for b in c.iter().rev() {
            x = x * F::from(256) + F::from(*b as u64);
        }
        s.absorb(x);
    }
    s
}
fn tag() -> Vec<u8> {
    let n = [0, 1, 5, 15, 16, 17, 31, 32, 33][choose(9)];
    match choose(3) {
        0 => (0..n).map(|i| i as u8 + 1).collect(),
        1 => vec![0xff; n],
        _ => vec![0; n],
    }
}
fn steps<F: HF, M: RecMode>() {
    opaque_products();
    let p = params::<F>();
    let (tag, len) = match choose(2) {
        0 => (tag(), 2),
        _ => (b"FIXME".to_vec(), 6),
    };
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let mut t = Transcript::<'static, Rec<F, M>, Pos<F>>::new(dr, &p.pos, &tag).unwrap();
    let mut s = spec_new(&p.pos, &tag);
    for i in 0..len {
        if choose_bool() {
            let (x, xv) = el(dr, &format!("x{i}"));
            x.write(dr, &mut t).unwrap();
            s.absorb(xv);
        } else {
            let c = t.challenge(dr).unwrap();
            prove_eq("challenge", c.wire().val, s.squeeze().unwrap());
        }
    }
    let mut u = t.clone();
    for t in [&mut t, &mut u] {
        let mut s = s.dup();
        let (x, xv) = el(dr, "last");
        x.write(dr, t).unwrap();
        s.absorb(xv);
        for _ in 0..3 {
            prove_eq("challenge after a copy", t.challenge(dr).unwrap().wire().val, s.squeeze().unwrap());
        }
    }
    if M::WITNESS {
        d.prove_satisfied("constraints");
    }
}
both!(steps, steps_honest, steps_sound);
/// Saving and resuming in another circuit continues the same stream of challenges.
fn resume<F: HF, M: RecMode>() {
    opaque_products();
    let p = params::<F>();
    let mut d = Rec::<F, M>::new();
    let dr = &mut d;
    let mut t = Transcript::<'static, Rec<F, M>, Pos<F>>::new(dr, &p.pos, b"FIXME").unwrap();
    let mut s = spec_new(&p.pos, b"FIXME");
    let mut squeezing = false;
    for i in 0..choose(4) {
        if choose_bool() {
            let (x, xv) = el(dr, &format!("x{i}"));
            x.write(dr, &mut t).unwrap();
            s.absorb(xv);
            squeezing = false;
        } else {
            t.challenge(dr).unwrap();
            s.squeeze().unwrap();
            squeezing = true;
        }
    }
    let state = match t.save_state(dr) {
        Err(_) => {
            check("saving is refused only between squeezes", squeezing);
            return;
        }
        Ok(s) => s,
    };
    check("nothing is lost by saving", !squeezing);
    // the state travels as elements; the other circuit sees wires of its own, with those values
    let els: Vec<F> = state.into_elements().iter().map(|e| e.wire().val).collect();
    let mut d2 = Rec::<F, M>::new();
    let dr2 = &mut d2;
    let els: Vec<E<F, M>> = els
        .into_iter()
        .map(|v| {
            let w = dr2.input(v);
            Element::promote(w, <Rec<F, M> as Driver>::just(|| v))
        })
        .collect();
    let state = TranscriptState::from_elements(FixedVec::new(els).unwrap());
    let mut r = Transcript::<'static, Rec<F, M>, Pos<F>>::resume_from_state(state, &p.pos);
    let k = 1 + choose(3);
    for _ in 0..k {
        prove_eq("resumed challenge", r.challenge(dr2).unwrap().wire().val, s.squeeze().unwrap());
    }
    let mut t = r.into_transcript();
    let (x, xv) = el(dr2, "later");
    x.write(dr2, &mut t).unwrap();
    s.absorb(xv);
    prove_eq("challenge after resuming", t.challenge(dr2).unwrap().wire().val, s.squeeze().unwrap());
    if M::WITNESS {
        d.prove_satisfied("constraints");
        d2.prove_satisfied("constraints of the second circuit");
    }
}
both!(resume, resume_honest, resume_sound);
/// Absorbing straight after resuming would lose challenges: refused.
pub fn must_squeeze<F: HF>() {
    opaque_products();
    let p = params::<F>();
    let mut d = Rec::<F, Empty>::new();
    let dr = &mut d;
    let t = Transcript::<'static, Rec<F, Empty>, Pos<F>>::new(dr, &p.pos, b"FIXME").unwrap();
    let state = t.save_state(dr).ok().unwrap();
    let mut r = Transcript::<'static, Rec<F, Empty>, Pos<F>>::resume_from_state(state, &p.pos);
    let q = choose_bool();
    if q {
        r.challenge(dr).unwrap();
    }
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = r.into_transcript();
    }));
    check("refused without a squeeze", e.is_ok() == q);
}
/// The tag in use is bound by the first challenge, whatever is absorbed.
pub fn tags_differ<F: HF>() {
    opaque_products();
    let p = params::<F>();
    let mut d = Rec::<F, Always<()>>::new();
    let dr = &mut d;
    let t = Transcript::<'static, Rec<F, Always<()>>, Pos<F>>::new(dr, &p.pos, crate::RAGU_TAG).unwrap();
    let a: Vec<F> = t.save_state(dr).ok().unwrap().into_elements().iter().map(|e| e.wire().val).collect();
    let t = Transcript::<'static, Rec<F, Always<()>>, Pos<F>>::new(dr, &p.pos, &tag()).unwrap();
    let b: Vec<F> = t.save_state(dr).ok().unwrap().into_elements().iter().map(|e| e.wire().val).collect();
    prove("states differ", Fml::any(a.iter().zip(&b).map(|(a, b)| a.eqf(*b).not())));
}
pub fn all(hs: &mut Vec<Harness>) {
    use pasta_curves::Fp;
    h!(hs, "Q02", steps_honest, Fp, "tags, absorbing and squeezing, with a witness");
    h!(hs, "Q02", steps_sound, Fp, "tags, absorbing and squeezing, adversarial");
    h!(hs, "Q02", resume_honest, Fp, "resuming a saved transcript, with a witness");
    h!(hs, "Q02", resume_sound, Fp, "resuming a saved transcript, adversarial");
    h!(hs, "Q02", must_squeeze, Fp, "refused transitions");
    h!(hs, "Q02", tags_differ, Fp, "tags are told apart");
}
