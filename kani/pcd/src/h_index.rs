//! Numbers: header suffixes, step indices, internal circuit indices.
use crate::harnesses;
use crate::header::Suffix;
use crate::internal::native::{self, NUM_INTERNAL_CIRCUITS};
use crate::src::*;
use crate::step::{Index, InternalStepIndex, NUM_INTERNAL_STEPS};
use ragu_circuits::registry::CircuitIndex;
use ragu_core::Error;

harnesses! {
    suffix_apart(4) {
        let (a, b) = (usize(), usize());
        assume(a <= usize::MAX - 2 && b <= usize::MAX - 2);
        let (x, y) = (Suffix::new(a).get(), Suffix::new(b).get());
        assert!((x == y) == (a == b), "different suffixes have different values");
        assert!(x == a as u64 + 2, "application suffixes follow the internal ones");
        let i = if bool() { 0 } else { 1 };
        assert!(Suffix::internal(i).get() == i as u64, "internal suffixes come first");
        assert!((Suffix::new(a) == Suffix::new(b)) == (a == b), "equal exactly when numbered alike");
        assert!(Suffix::new(a) != Suffix::internal(i), "never equal to an internal one");
    }
    index_circuit(4) {
        let (i, n) = (usize(), usize());
        assume(n <= 1 << 30);
        match Index::new(i).circuit_index(n) {
            Ok(c) => {
                assert!(i < n, "only registered steps");
                assert!(usize::from(c) == NUM_INTERNAL_CIRCUITS + NUM_INTERNAL_STEPS + i, "application steps follow the internal circuits and steps");
            }
            Err(e) => {
                assert!(i >= n, "every registered step");
                assert!(matches!(e, Error::Initialization(_)), "refused as an initialization error");
                core::mem::forget(e);
            }
        }
    }
    index_internal(4) {
        let n = usize();
        let Ok(c) = Index::internal(InternalStepIndex::Rerandomize).circuit_index(n) else { panic!("internal steps are always there") };
        assert!(usize::from(c) == NUM_INTERNAL_CIRCUITS, "rerandomization follows the internal circuits");
        let Ok(c) = Index::internal(InternalStepIndex::Trivial).circuit_index(n) else { panic!("internal steps are always there") };
        assert!(usize::from(c) == NUM_INTERNAL_CIRCUITS + 1, "the trivial step comes next");
    }
    index_sequence(4) {
        let (i, n) = (usize(), usize());
        match Index::new(i).assert_index(n) {
            Ok(()) => assert!(i == n, "only the next step"),
            Err(e) => {
                assert!(i != n, "the next step is accepted");
                assert!(matches!(e, Error::Initialization(_)), "refused as an initialization error");
                core::mem::forget(e);
            }
        }
    }
    count_circuits(70) {
        let n = usize();
        assume(n <= 1 << 30);
        let (total, log2) = native::total_circuit_counts(n);
        assert!(total == n + NUM_INTERNAL_CIRCUITS + NUM_INTERNAL_STEPS, "internal circuits, internal steps, application steps");
        assert!(log2 < 64 && (1usize << log2) >= total, "the domain has room");
        assert!((1usize << log2) < 2 * total, "and no more than it takes");
    }
}
