//! The error type: its text and its source, for every bound it may carry.
use crate::harnesses;
use crate::src::*;
use crate::Error;
use alloc::boxed::Box;
use core::error::Error as _;
use core::fmt;

#[derive(Debug)]
struct Inner(u64);
impl fmt::Display for Inner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("inner")
    }
}
impl core::error::Error for Inner {}

fn inner_of(e: &Error) -> Option<u64> {
    e.source().and_then(|s| s.downcast_ref::<Inner>()).map(|i| i.0)
}

struct Buf {
    b: [u8; 96],
    n: usize,
}
impl fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let c = s.as_bytes();
        self.b[self.n..self.n + c.len()].copy_from_slice(c);
        self.n += c.len();
        Ok(())
    }
}
fn number(out: &mut Buf, x: usize) {
    if x >= 100 {
        out.b[out.n] = b'0' + (x / 100) as u8;
        out.n += 1;
    }
    if x >= 10 {
        out.b[out.n] = b'0' + (x / 10 % 10) as u8;
        out.n += 1;
    }
    out.b[out.n] = b'0' + (x % 10) as u8;
    out.n += 1;
}
fn text(out: &mut Buf, s: &str) {
    let _ = fmt::Write::write_str(out, s);
}
fn shows(e: Error, parts: &[(&str, Option<usize>)]) {
    let mut got = Buf { b: [0; 96], n: 0 };
    let _ = fmt::write(&mut got, format_args!("{e}"));
    let mut want = Buf { b: [0; 96], n: 0 };
    for (s, x) in parts {
        text(&mut want, s);
        if let Some(x) = x {
            number(&mut want, *x);
        }
    }
    assert!(got.n == want.n, "the text has the right length");
    assert!(got.b == want.b, "the text names the limit");
}

harnesses! {
    err_source(4) {
        let (k, x) = (u8(), u64());
        let b = Box::new(Inner(x));
        let (e, wraps) = match k {
            0 => (Error::InvalidWitness(b), true),
            1 => (Error::MalformedEncoding(b), true),
            2 => (Error::Initialization(b), true),
            3 => (Error::GateBoundExceeded { limit: x as usize }, false),
            4 => (Error::ConstraintBoundExceeded { limit: x as usize }, false),
            5 => (Error::CircuitBoundExceeded { limit: x as usize }, false),
            6 => (Error::DegreeBoundExceeded { limit: x as usize }, false),
            _ => (Error::VectorLengthMismatch { expected: x as usize, actual: k as usize }, false),
        };
        assert!(e.source().is_some() == wraps, "has a source exactly when it wraps an error");
        assert!(inner_of(&e) == if wraps { Some(x) } else { None }, "the source is the wrapped error");
    }
    err_text_gates(100) {
        let x = (u8() % 200) as usize;
        shows(Error::GateBoundExceeded { limit: x }, &[("exceeded the maximum number of gates (", Some(x)), (")", None)]);
    }
    err_text_constraints(100) {
        let x = (u8() % 200) as usize;
        shows(Error::ConstraintBoundExceeded { limit: x }, &[("exceeded the maximum number of constraints (", Some(x)), (")", None)]);
    }
    err_text_circuits(100) {
        let x = (u8() % 200) as usize;
        shows(Error::CircuitBoundExceeded { limit: x }, &[("exceeded the maximum number of circuits (", Some(x)), (")", None)]);
    }
    err_text_degree(100) {
        let x = (u8() % 200) as usize;
        shows(Error::DegreeBoundExceeded { limit: x }, &[("exceeded the maximum degree of a polynomial (", Some(x)), (")", None)]);
    }
    err_text_length(100) {
        let (e, a) = ((u8() % 12) as usize, (u8() % 12) as usize);
        shows(
            Error::VectorLengthMismatch { expected: e, actual: a },
            &[("vector does not have the expected length: (expected ", Some(e)), (", actual ", Some(a)), (")", None)],
        );
    }
    err_text_wrapping(100) {
        let (k, x) = (u8() % 3, u64());
        let b = Box::new(Inner(x));
        let (e, t) = match k {
            0 => (Error::InvalidWitness(b), "invalid witness: inner"),
            1 => (Error::MalformedEncoding(b), "malformed encoding: inner"),
            _ => (Error::Initialization(b), "initialization failed: inner"),
        };
        shows(e, &[(t, None)]);
    }
}
