"""The properties, their anchors, and what the check of each one does. `python3 run/gen.py` writes properties.jsonl and MANIFEST.json."""
A = "crates/ragu_arithmetic/src/"
C = "crates/ragu_core/src/"
P = "crates/ragu_primitives/src/"
M = "crates/ragu_macros/src/"
K = "crates/ragu_circuits/src/"
R = "crates/ragu_pcd/src/"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


SX = "symbolic execution of the compiled code over symbolic field elements; polynomial normal form + z3"
KN = "bounded model checking of the real source with Kani (CBMC, SAT)"

prop("A01", "Coefficient arithmetic is field arithmetic",
     "Every way of writing a linear-combination coefficient (zero, one, two, minus one, an arbitrary value, the negation of an arbitrary value) denotes a field element, and sums, products, negations and conversions of coefficients denote the sums, products, negations and conversions of what they denote, whatever shortcut representation is used. A coefficient reports itself as zero exactly when it denotes zero.",
     ["inputs"], "all pairs and triples of coefficient forms, all field values they carry",
     "Tests compare a few hand-picked pairs; a wrong shortcut shows only for one pair of forms or one special value.",
     [A + "coeff.rs"], [("coefficient multiplication, addition, negation", A + "coeff.rs: impl Mul/Add/Neg for Coeff, value, is_zero")],
     SX, "Identities over all of Fp by normal form (the 36 pairs and 216 triples of forms are forked); zero test over F_13.")
prop("A02", "The FFT evaluates and interpolates exactly",
     "On an evaluation domain of size 2^k the forward transform maps coefficients to evaluations at the powers of the domain's generator in order, the inverse transform undoes it, and both work the same for vectors of any module over the field. The generator has exact order 2^k.",
     ["inputs", "configurations"], "all coefficient vectors; sizes 1..=32 in full, 64..=256 on a two-parameter family",
     "Tests transform a few random vectors at one or two sizes.",
     [A + "domain.rs", A + "fft.rs"], [("transform", A + "fft.rs: fft, bitreverse, Ring"), ("domain constants", A + "domain.rs: Domain::new, fft, ifft, ring_fft, ring_ifft")],
     SX, "Linear identities in symbolic coefficients over Fp, Fq and F_97 against the definition of the DFT; larger sizes only on the stated family.")
prop("A03", "Lagrange coefficients and domain membership",
     "For every point outside the domain the Lagrange coefficients returned are those of the interpolation basis, for any requested prefix length; a point is reported as belonging to the domain exactly when it is a power of the generator, and then no coefficients are returned.",
     ["inputs"], "all points; sizes 1..=16, all prefix lengths",
     "Membership is a measure-zero event that random tests never hit; prefix lengths are sampled.",
     [A + "domain.rs"], [("Lagrange coefficients", A + "domain.rs: Domain::ell"), ("membership", A + "domain.rs: Domain::contains")],
     SX, "Symbolic point; rational identities over Fp, exhaustive-by-solver over F_97 and F_13.")
prop("A04", "Polynomial utilities compute what they name",
     "Evaluation, inner product, synthetic division by X-b, geometric sums and building a polynomial from its roots agree with their textbook definitions for every length including zero and every input including repeated roots.",
     ["inputs"], "all coefficients, points and roots; lengths up to 8 (evaluation, division), 34 and around powers of two (geometric sum), 13 roots",
     "Tests use fixed lengths and random values.",
     [A + "util.rs"], [("evaluation, inner product", A + "util.rs: eval, dot"), ("division", A + "util.rs: factor, factor_iter"), ("geometric sum", A + "util.rs: geosum"), ("roots", A + "util.rs: poly_with_roots")],
     SX, "Polynomial identities in all coefficients, per length.")
prop("A05", "The endoscalar integer behaves as a 136-bit unsigned integer",
     "The fixed-width challenge integer is an unsigned integer of its advertised width: conversion from 64- and 128-bit integers, bitwise and/or, equality, the constants zero and one, and left and right shifts by any amount (also zero, a multiple of 64, and amounts at or past the width) agree with integer arithmetic truncated to that width. No operation and no random sample ever produces or keeps a bit at or above the width.",
     ["inputs"], "all 2^136 values per operand, all shift amounts of the machine word, all outputs of the random source",
     "There are no tests of this type; shift amounts at limb boundaries and overflowing bits are rare inputs.",
     [A + "uendo.rs"], [("shifts", A + "uendo.rs: Shl, ShlAssign, Shr"), ("bitwise operations", A + "uendo.rs: BitAnd, BitOr, BitOrAssign"), ("normalisation", A + "uendo.rs: normalize, sampling")],
     KN, "Complete over the full width: all loops are unwound past their limit with unwinding assertions. The debug rendering is outside.")
prop("A06", "A multiscalar product takes each base as often as its scalar says",
     "The windowed multiscalar multiplication returns the sum of the bases, each taken as many times as its scalar says, for any scalars and any group, including no terms at all; converting a batch to affine form converts each element in place; bit reversal of width l puts bit i where bit l-1-i was and clears the rest.",
     ["inputs"], "all 9-bit scalars for 1, 2, 4 and 5 terms (window widths 1 and 3), each base's share taken apart; all words and widths up to 32 for bit reversal",
     "Tests multiply a few random scalars; a window that straddles a byte or a bucket that is hit twice are special cases.",
     [A + "util.rs", A + "fft.rs"], [("multiscalar multiplication", A + "util.rs: mul"), ("affine batches", A + "util.rs: batch_to_affine"), ("bit reversal", A + "fft.rs: bitreverse")],
     KN, "The group is the integers modulo 2^16, one base being 1 and the others 0, which gives that base's coefficient; wider windows (32 terms and more) and 255-bit scalars are outside.")
prop("C01", "Witness containers: present computes exactly, absent never runs",
     "A container known to hold a witness behaves as the value itself: building, mapping, chaining, borrowing, mutating, cloning, converting and extracting it run each closure exactly once and yield the value an ordinary program would, and errors of fallible closures are returned unchanged. A container known to be empty occupies no space and never runs any closure given to it, so witness code cannot execute, fail or be observed when no witness exists.",
     ["inputs", "programs"], "all 64-bit payloads, both outcomes of fallible closures, every method of the interface on both kinds",
     "Tests run one fixed program with constants.",
     [C + "maybe/mod.rs", C + "maybe/always.rs", C + "maybe/empty.rs"], [("present container", C + "maybe/always.rs: impl Maybe for Always"), ("empty container", C + "maybe/empty.rs: impl Maybe for Empty")],
     KN, "Complete for the instantiations named in the harnesses (u64 and a non-Copy type with counted clones and drops).")
prop("C02", "Splitting a container of a tuple or array keeps every position",
     "Casting a container of a tuple (of any supported size, 2 to 32, with equal or different element types) or of an array to a tuple or array of containers puts the i-th element in the i-th container, with a witness, and yields the same number of empty containers without one.",
     ["inputs", "programs"], "all tuple sizes 2..=32 and array lengths 0, 1, 2, 5, 33; all element values",
     "Tests cover tuples of up to 6 elements with fixed values.",
     [C + "maybe/cast.rs", M + "proc/maybe_cast.rs"], [("array cast", C + "maybe/cast.rs"), ("tuple casts", M + "proc/maybe_cast.rs: generate_impl_for_size")],
     KN, "The generated implementations are compiled and model-checked for every size.")
prop("C06", "Errors name their limit and keep their cause",
     "Every error renders a text naming its kind and the exact limit or lengths it carries; errors that wrap another error expose precisely that error as their source and include its text, and the others expose none.",
     ["inputs"], "all variants; limits below 200, lengths below 12; any wrapped error",
     "Tests render one value per variant and check only that a source exists.",
     [C + "errors.rs"], [("error texts and sources", C + "errors.rs: Error")],
     KN, "Texts are compared byte for byte for bounded numbers; sources for all values.")
prop("C03", "Linear expressions mean the sum of their scaled terms",
     "A linear expression built by any sequence of adding terms, adding or subtracting wires, extending by a list and applying gains denotes the sum of each wire times its coefficient times every gain applied before it; each of the six coefficient forms counts as its field value, and the provided methods agree with the direct sum.",
     ["inputs", "histories"], "all wire values and coefficients; all sequences of three operations (four in the thorough tier), extensions of up to two terms",
     "Tests evaluate a few expressions on fixed numbers.",
     [C + "drivers.rs", C + "drivers/linexp.rs"], [("provided methods", C + "drivers/linexp.rs: LinearExpression::{add, sub, extend}"), ("direct evaluation", C + "drivers/linexp.rs: DirectSum")],
     SX, "Values over Fp and F_7 by normal form and z3; operation sequences enumerated by forking.")
prop("C04", "Emulators compute what circuit code says and nothing else",
     "A wired emulator's wires carry exactly the values given to allocations, gates and constants and the exact linear combinations requested, in order, and extraction returns a gadget's wires in gadget order; it never evaluates assertions. Wireless emulators compute no assignment, refuse nothing and hand on witness values exactly when they have a witness; the emulate helpers return the closure's result unchanged.",
     ["inputs", "histories"], "all values; all sequences of three driver calls over seven operations",
     "Tests emulate single gadgets at fixed values.",
     [C + "drivers/emulator.rs"], [("wired emulation", C + "drivers/emulator.rs: Emulator<Wired>"), ("wireless emulation", C + "drivers/emulator.rs: Emulator<Wireless>"), ("extraction", C + "drivers/emulator.rs: wires")],
     SX, "Sequences enumerated by forking, values decided over Fp.")
prop("C05", "Gadgets keep their wires through mapping, stripping and nesting",
     "Mapping a gadget to another driver converts every wire exactly once, in a fixed order, and keeps the witness values; unit, pairs, arrays and boxes compose by their parts, a failing conversion surfaces as the mapping's error, equality is enforced wire by wire, and cloning or stripping wires preserves values and structure.",
     ["inputs"], "nestings of unit, pairs, arrays and boxes; all wire values; a conversion failing at any wire; with and without witness",
     "Tests map one gadget with a total conversion.",
     [C + "convert.rs", C + "gadgets.rs", C + "gadgets/foreign.rs"], [("container gadgets", C + "gadgets/foreign.rs: Gadget, GadgetKind for (), tuples, arrays, Box"), ("wire maps", C + "convert.rs: WireMap, CloneWires, StripWires")],
     SX, "Real gadgets of every container form over the recording driver.")
prop("C07", "Provided driver operations reduce to one gate or one assertion",
     "Over any driver that implements only what it must, allocation is one gate with the value on its second wire and zeros elsewhere, multiplication is one gate with the three given values and a zero, constants impose nothing and carry their value, and equality is one assertion that holds exactly when the wires agree. Witness closures run exactly when the driver has a witness and their errors come back unchanged; the phantom driver runs no witness code and refuses nothing.",
     ["inputs"], "all coefficient forms and values; with and without witness; failing witness closures",
     "Every test driver overrides some of these; the defaults are sampled through one simulator.",
     [C + "drivers.rs", C + "drivers/phantom.rs"], [("provided methods", C + "drivers.rs: Driver::{alloc, mul, constant, enforce_equal, just, try_just}"), ("phantom driver", C + "drivers/phantom.rs")],
     SX, "Minimal driver with symbolic wires; equality shown as the assertion equal to the difference up to sign.")
prop("C08", "Routines are predicted once, executed once and fed their own data",
     "Invoking a routine predicts it once and executes it once with exactly the auxiliary data the prediction returned, whether or not the prediction knew the output; only wireless emulators may take a known output in place of execution. Failures of either phase are the routine's failure, outputs carry the routine's values, and predicting from any driver presents the input's values with stripped wires.",
     ["inputs"], "all input values and parameters; known and unknown predictions; failures of either phase; minimal, wired, wireless and phantom drivers with and without witness",
     "Tests run two routines on one driver and never fail a phase.",
     [C + "routines.rs", C + "drivers.rs", C + "drivers/emulator.rs", C + "drivers/phantom.rs"], [("default routine protocol", C + "drivers.rs: Driver::routine"), ("prediction", C + "drivers/emulator.rs: Emulator::predict"), ("short circuit", C + "drivers/emulator.rs: routine")],
     SX, "A symbolic routine whose auxiliary data depends on its inputs, run on every kind of driver.")
prop("P01", "Boolean gadgets are sound and complete",
     "An allocated boolean wire can only carry 0 or 1, and negation, conjunction, selection, conditional equality and the zero and equality tests force exactly the output their name says: an honest prover can always satisfy the constraints and no assignment to auxiliary wires makes the output wrong. The value a boolean or element carries always equals the value of its wire.",
     ["inputs"], "all inputs and all adversarial assignments of auxiliary wires (over F_7, F_13, F_97; honest direction over Fp)",
     "Tests only run honest witnesses through a simulator; a missing constraint passes all of them.",
     [P + "boolean.rs", P + "element.rs"], [("boolean constraint", P + "boolean.rs: Boolean::alloc"), ("logic and selection", P + "boolean.rs: not, and, conditional_select, conditional_enforce_equal"), ("tests", P + "element.rs: is_zero, is_equal")],
     SX, "Soundness over small prime fields by z3 (finite field arithmetic), completeness over Fp by normal form.")
prop("P02", "Bit packing is positional and injective",
     "Packing booleans into field elements yields, chunk by chunk at the field's bit capacity, the little-endian integer of the bits, both as wires and as carried values; distinct bit strings pack differently and no chunk can exceed the capacity.",
     ["inputs"], "all bit strings of the stated lengths, symbolic bit wires",
     "Tests pack a few fixed strings.",
     [P + "boolean.rs"], [("packing", P + "boolean.rs: multipack")],
     SX, "Linear identities over Fp/Fq around the 254-bit capacity; all lengths up to 19 over F_97.")
prop("P03", "Element gadgets are sound and complete",
     "Every arithmetic gadget on field elements (allocation, constants, addition, subtraction, scaling, doubling, negation, multiplication, squaring, inversion, division, sums, folds, weighted sums, root-of-unity and equality assertions) forces exactly the specified output on its wires and carries the matching value. Assertions are satisfiable exactly when the asserted statement holds, and inversion or division refuses only a zero divisor.",
     ["inputs"], "all inputs and all adversarial auxiliary wires; up to 5 elements for the variadic ones",
     "Tests run honest random witnesses.",
     [P + "element.rs"], [("element arithmetic", P + "element.rs: Element")],
     SX, "Both directions; equalities that need inequations over F_13, the rest over Fp and Fq.")
prop("P04", "Curve point gadgets compute the group law",
     "Allocated points lie on the curve; negation, the endomorphism, their conditional forms, doubling, incomplete addition and combined double-and-add force the group-law result, an honest prover can satisfy them on all non-exceptional inputs, and exceptional inputs are refused rather than given a wrong result.",
     ["inputs"], "all pairs of points and all adversarial auxiliary wires (F_7, F_13, F_37); textbook identities over Fp and Fq",
     "Tests add a few random points; exceptional cases and adversarial slopes are never sampled.",
     [P + "point.rs"], [("allocation", P + "point.rs: Point::alloc, constant"), ("group law", P + "point.rs: double, add_incomplete, double_and_add_incomplete"), ("endomorphism", P + "point.rs: endo, conditional_endo, negate, conditional_negate")],
     SX, "Soundness over small fields; completeness over the real fields.")
prop("P05", "Endoscalars mean the same inside and outside the circuit",
     "The bits of an endoscalar gadget are 0/1 and in order; lifting it to a field element, scaling a point by it and extracting one from a field element agree with the corresponding native functions for every challenge, and the extraction is forced by the constraints.",
     ["inputs"], "symbolic bit wires for the lift; all values of bit windows over background patterns for scaling; every element of F_7/F_13 for extraction",
     "Tests use random challenges with honest witnesses.",
     [P + "endoscalar.rs"], [("lift", P + "endoscalar.rs: Endoscalar::lift, lift_endoscalar"), ("scaling", P + "endoscalar.rs: group_scale"), ("extraction", P + "endoscalar.rs: extract, extract_endoscalar")],
     SX, "Scaling is checked at a symbolic generic point for windows of bits, not for all 2^136 challenges at once.")
prop("P06", "The sponge is the Poseidon duplex construction",
     "The permutation computes the published Poseidon rounds (full and partial rounds, constants, matrix) and its constraints force that output; the sponge over it absorbs, pads and squeezes as a duplex construction with the configured rate for every interleaving of absorb and squeeze; saving the state and resuming continues exactly where it stopped and is refused in the wrong mode. The deployed constants and matrices of both fields are those the reference Poseidon generation yields for their widths and round counts.",
     ["inputs", "histories"], "all states; every sequence of 8 absorb/squeeze steps at rate 2 and of 3 steps before a save; the deployed 5-wide parameters",
     "Tests compare one or two fixed vectors.",
     [P + "poseidon.rs", "crates/ragu_pasta/src/poseidon_fp.rs", "crates/ragu_pasta/src/poseidon_fq.rs"], [("permutation", P + "poseidon.rs: permutation rounds"), ("duplex modes", P + "poseidon.rs: Sponge::absorb, squeeze, save_state, resume")],
     SX, "Real width with symbolic inputs by normal form at sampled points for the full 64 rounds; soundness at small widths.")

prop("P07", "The simulator accepts exactly the satisfied witnesses",
     "Running circuit code on the simulator succeeds exactly when every gate relation and every enforced linear combination is satisfied by the assignment, whatever mix of gates, derived wires and routines the code uses, and the numbers of gates and constraints it reports are those the code created.",
     ["inputs", "programs"], "all witness values for every program of up to four steps over gates, sums, equalities and routines",
     "Tests run a handful of satisfied circuits; acceptance of an unsatisfied one is not sampled.",
     [P + "simulator.rs"], [("gate and zero checks", P + "simulator.rs: gate, enforce_zero"), ("counters", P + "simulator.rs: num_gates, num_constraints")],
     SX, "Acceptance is compared with the conjunction of the relations as a formula over all assignments.")
prop("P08", "Serialisation and fixed-length containers keep order and length",
     "Writing a gadget to a buffer emits its elements once each, in a fixed order that does not depend on values; a fixed-length vector is only built from exactly its declared number of elements and keeps their order through mapping, zipping and collecting; a pipe forwards the same sequence to the sponge as direct writes; stripping and restoring the witness of a gadget gives back the same wires in the same positions.",
     ["inputs", "configurations"], "all element values; container lengths 0 to 6 against every declared length, all gadget families",
     "Tests use one length per container.",
     [P + "vec.rs", P + "io.rs", P + "io/pipe.rs", P + "promotion.rs"], [("fixed-length vector", P + "vec.rs"), ("writing", P + "io"), ("demotion", P + "promotion.rs")],
     SX, "Lengths are enumerated by forking, contents are symbolic.")
prop("P09", "Circuit structure never depends on the witness",
     "Synthesising any gadget operation creates the same sequence of gates, wires and constraints with the same coefficients whether the witness is present or absent and whatever values it has; a value-dependent failure is reported as an error, never as a different circuit.",
     ["inputs", "programs"], "all witness values, every gadget family (elements, booleans, points, endoscalars, sponge, containers), witness present against absent",
     "Tests synthesise with one witness; a branch on a witness value goes unnoticed.",
     [P + "element.rs", P + "boolean.rs", P + "point.rs", P + "endoscalar.rs", P + "poseidon.rs"], [("gadget operations", P + "*.rs")],
     SX, "Two recordings of the same code, one with symbolic values and one without, must coincide event by event on every path.")
prop("P10", "Re-allocation of a gadget is consistent",
     "Enforcing the internal consistency of a gadget (boolean, curve point, containers and nested gadgets of them) is satisfiable exactly for wire assignments that a valid gadget of that type can have, so replaced wires get the same guarantees as allocated ones.",
     ["inputs"], "all wire assignments and adversarial auxiliary wires over small fields",
     "Tests only call it on gadgets that are already consistent.",
     [P + "consistent.rs", P + "boolean.rs", P + "point.rs", P + "vec.rs"], [("consistency", P + "consistent.rs and the implementations of Consistent")],
     SX, "Both directions, over F_7 and F_13; containers up to length 3.")
MX = "symbolic execution of the compiled macro expansions over symbolic wires and values (z3); the macros' own code runs on inputs whose shape is a symbolic choice"
prop("M01", "256-bit literals become their little-endian limbs",
     "The literal macro turns every integer literal below 2^256, in any radix and with any separators or leading zeros, into the four 64-bit limbs of its value, least significant first, and refuses every larger literal and everything that is not an unsigned integer.",
     ["inputs"], "all values below 2^320 for the conversion; radix, padding and separators at limb-boundary values for the parsing",
     "Tests convert three constants; a wrong limb boundary or zero-padding shows only for particular values.",
     [M + "proc/repr.rs"], [("conversion", M + "proc/repr.rs: evaluate")],
     "bounded model checking of the conversion with Kani over all 320-bit values (literal and token stream modelled); plus the real parser on symbolic choices of boundary limbs",
     "The integer type under Kani is a five-limb model; the real one is exercised by the second harness.")
prop("M02", "A derived gadget treats every field as annotated",
     "Deriving Gadget for any struct shape gives code that maps every wire of every wire and gadget field exactly once, in declaration order, into the same position; carries value fields and phantom fields over unchanged; clones likewise; and whose equality constraint holds exactly when all corresponding wires are equal, with one comparison per wire.",
     ["inputs", "programs"], "11 struct shapes (all annotations, defaults, custom driver, const and type parameters, nesting, empty); all wire and witness values",
     "Tests compare the token text for three structs and do not run what is generated.",
     [M + "derive/gadget.rs", M + "derive/mod.rs", M + "substitution.rs"], [("field treatment", M + "derive/gadget.rs: derive"), ("parameters of the kind", M + "derive/mod.rs: kind_subst_arguments")],
     MX, "Which shapes are compiled is fixed; wires and values are symbolic.")
prop("M03", "Derived serialisation and consistency visit exactly the right fields",
     "Deriving Write serialises every field once in declaration order except those marked skip or phantom, also inside nested gadgets and when several annotations are combined; deriving Consistent enforces exactly the fields that are gadgets, annotated or by default, and never wires, values or phantoms.",
     ["inputs", "programs"], "8 and 9 struct shapes; all wire values, adversarial assignments for consistency (F_13)",
     "Tests compare token text for a few structs.",
     [M + "derive/gadgetwrite.rs", M + "derive/consistent.rs"], [("serialisation", M + "derive/gadgetwrite.rs: derive"), ("consistency", M + "derive/consistent.rs: derive")],
     MX, "Both directions for consistency.")
prop("M04", "Generic parameters are rewritten correctly",
     "The kind of a gadget type is the type with every inferred part filled in, at any nesting depth, and every inferred lifetime made static; derives find the driver parameter and its lifetime by attribute, or by the default names, wherever it stands in the parameter list; and in the implementations for kinds every bound that mentions the driver's field mentions the kind's own field instead, with all other types, parameters and bounds left alone.",
     ["programs"], "type expressions up to depth 2 over paths, generics, tuples, associated types, constraints and lifetimes; all parameter orders and bound forms listed in the harness",
     "Tests cover a few fixed strings.",
     [M + "substitution.rs", M + "helpers.rs", M + "proc/kind.rs", M + "derive/mod.rs"], [("holes", M + "substitution.rs: replace_inferences"), ("driver field", M + "substitution.rs: replace_driver_field_in_generic_param"), ("driver parameter", M + "helpers.rs: GenericDriver::extract")],
     MX, "Shapes are explored exhaustively by symbolic choice within the grammar; outputs are compared as parsed syntax.")
prop("M05", "Unsupported inputs of the macros are refused",
     "Every derive refuses, with a compile error, enums, unions, tuple and unit structs and where clauses; deriving Gadget refuses every field with two or more different annotations, in any position and spelling, and accepts all others; a marked driver parameter without exactly one driver lifetime is refused; and the tuple-cast generator refuses sizes below two and otherwise produces exactly one implementation for each size up to the requested one.",
     ["programs"], "all 16 annotation subsets in both spellings and three positions; all item kinds; sizes 0..39",
     "Tests cover one or two of each.",
     [M + "derive/gadget.rs", M + "derive/gadgetwrite.rs", M + "derive/consistent.rs", M + "proc/maybe_cast.rs", M + "helpers.rs"], [("refusals", M + "derive/*.rs: derive"), ("sizes", M + "proc/maybe_cast.rs: evaluate")],
     MX, "Refusal means that the macro's output is a compile error.")
prop("M06", "Macros find ragu's crates wherever they are",
     "Code generated in a crate that depends on ragu's core and primitives crates directly, under another name, or only through the umbrella crate (also renamed), or inside one of those crates themselves, refers to them by paths that resolve there; when neither is available the macro reports it.",
     ["configurations"], "all combinations of absent, named, renamed and own for the three crates",
     "Tests always run inside the workspace with default names.",
     [M + "path_resolution.rs"], [("path resolution", M + "path_resolution.rs: resolve")],
     MX, "Manifests are written to a scratch directory and read by the real resolver.")
Q = "crates/ragu_circuits/src/"
prop("R01", "The three wiring evaluations encode exactly the circuit",
     "For every circuit, including nested routines, s(x, Y), s(X, y) and s(x, y) are the same bivariate polynomial: its coefficient at y^j is the j-th constraint read with wire (kind, gate) as its monomial in x, constraints of each segment ending in the lowest power, the constant wire being the system gate's b. Gate and constraint counts are exact; circuits of exactly the rank's capacity are accepted and usable and larger ones are refused with the limit; no witness code runs.",
     ["inputs", "histories"], "all x, y (with 0) and all coefficients; all programs of up to two operations out of eleven (three in the thorough tier), nested routines; sizes around both bounds; generic position for vanishing coefficients",
     "Tests compare the evaluators at random points for a few circuits against each other, not against the meaning.",
     [Q + "s/sx.rs", Q + "s/sy.rs", Q + "s/sxy.rs", Q + "s/common.rs", Q + "metrics.rs", Q + "floor_planner.rs", Q + "raw.rs", Q + "lib.rs"],
     [("s(x, Y)", Q + "s/sx.rs"), ("s(X, y)", Q + "s/sy.rs: VirtualTable"), ("s(x, y)", Q + "s/sxy.rs"), ("counting", Q + "metrics.rs: Counter"), ("layout", Q + "floor_planner.rs")],
     SX, "Real evaluators against an independent driver assigning monomials to wires.")
prop("R02", "The revdot identity holds exactly when gates and constraints do",
     "A circuit's assembled trace holds every gate value at the position of its wire whether routines were predicted or not, the blinding value on the system gate only, and revdot(r, r(zX) + s(X, y) + t(X, z)) is the sum over gates of (ab - c) and cd times powers of z and over constraints of their values times powers of y; k(y) is the instance's polynomial with constant term one. A refused witness anywhere, also inside deferred routines, is the trace's error; auxiliary data come back.",
     ["inputs", "histories"], "all witness values (satisfying or not), coefficients, y, z, blinding; all programs of up to two operations (three in the thorough tier) with nested predicted and unpredicted routines",
     "Tests check satisfied circuits at random challenges; that nothing but the constraints is implied is not testable.",
     [Q + "trace.rs", Q + "raw.rs", Q + "ky.rs", Q + "registry.rs", Q + "polynomials/mod.rs"],
     [("trace synthesis and deferral", Q + "trace.rs: Evaluator::routine"), ("assembly", Q + "trace.rs: assemble"), ("instance polynomial", Q + "ky.rs"), ("outputs and constant", Q + "raw.rs: orchestrate")],
     SX, "Exact polynomial identity with unconstrained symbolic witness values.")
prop("R03", "Sparse polynomials behave like their dense coefficient vectors",
     "Whatever coefficients vanish, construction, iteration from either or both ends, evaluation, dilation, scaling, negation, addition, subtraction, folding and the reversed dot product equal the same operations on dense vectors, and trace and wiring views place the four wire kinds so that the reversed dot product pairs like with like.",
     ["inputs", "histories"], "eight sparsity patterns around block boundaries and both ends, every subset of them vanishing, cancellations; all coefficient values and points; rank 2^7",
     "Sparsity patterns and cancellations are sampled by property tests over random data where exact cancellation is rare.",
     [Q + "polynomials/sparse/mod.rs", Q + "polynomials/sparse/view.rs"], [("blocks", Q + "polynomials/sparse/mod.rs: extend_runs, combine_assign"), ("reversed dot product", Q + "polynomials/sparse/mod.rs: revdot"), ("views", Q + "polynomials/sparse/view.rs")],
     SX, "Vanishing of coefficients explored by forking, values decided symbolically; cancellation also over F_7.")
prop("R04", "t(X, Z), its restrictions and its gadget agree; Horner is Horner",
     "tz(z), tx(x) and txz(x, z) are the restrictions of the one polynomial that replaces gate products, zero when an argument is; the in-circuit evaluation accepts honest witnesses and forces its output to that value for non-zero arguments. The Horner buffer computes the polynomial of the written elements, highest first, and its instance form ends in the constant one.",
     ["inputs"], "all x, z (with 0) at rank 2^7; up to four written elements; honest and adversarial assignments",
     "Tests compare the evaluations at random points.",
     [Q + "polynomials/mod.rs", Q + "polynomials/txz.rs", Q + "horner.rs"], [("restrictions", Q + "polynomials/mod.rs: Rank::{tz, tx, txz}"), ("gadget", Q + "polynomials/txz.rs: Evaluate"), ("Horner", Q + "horner.rs")],
     SX, "Exact over Fp, soundness by solving the constraints of the gadget symbolically.")
prop("R05", "The registry interpolates its circuits at their points",
     "Circuits are numbered internal circuits first, then bonding circuits, internal steps and application steps, each in order of registration; at the point of index i the registry evaluates to circuit i plus the key term (the key term alone beyond the last), all its restrictions agree at every w, x, y on and off the domain, the polynomial in W has degree below the domain size, points are distinct and domain membership is exactly index below the domain size.",
     ["inputs"], "all w, x, y; one to five circuits in four registration orders",
     "Tests evaluate a few registries at random points.",
     [Q + "registry.rs"], [("order", Q + "registry.rs: RegistryBuilder::finalize"), ("interpolation", Q + "registry.rs: Registry::{at, xy, w_cached}"), ("points", Q + "registry.rs: CircuitIndex::omega_j")],
     SX, "Real registry, hash values treated as opaque.")
prop("R06", "Stages hold their own values, masks cover all the rest",
     "A stage's polynomial holds its values in order in its own gates, its blinding on the system gate and nothing else; its mask is exactly every other position outside the system gate in all three evaluations, the final mask every position before the end of the last stage; multi-stage circuits leave stage gates empty in their own trace, and trace plus stage polynomials satisfy the circuit for all stage values. Stages that do not fit are refused with the limit.",
     ["inputs"], "all values and points; a chain of three stages (odd, padded, enforced and unenforced); too many values, too many gates",
     "Tests check revdot of random witnesses against masks at random points.",
     [Q + "staging/mod.rs", Q + "staging/builder.rs", Q + "staging/mask.rs"], [("stage polynomials", Q + "staging/mod.rs: rx_configured"), ("masks", Q + "staging/mask.rs: StageMask"), ("builder", Q + "staging/builder.rs")],
     SX, "Coefficient-wise equality with the description.")
prop("R07", "Bonding circuits carry no constant and no gates",
     "A multi-stage circuit becomes a bonding object exactly when it makes no gates or constants and never references the constant wire, in routines too; its wiring then is its constraints without the constant wire's own, in all three evaluations, so it says the same of any polynomial whatever that holds at the constant wire.",
     ["inputs"], "all traces, x, y; eight ways of breaking a rule",
     "Tests cover a few rejected circuits and satisfied bondings.",
     [Q + "staging/bonding.rs"], [("validation", Q + "staging/bonding.rs: BondingValidator"), ("stripping", Q + "staging/bonding.rs: Stripped")],
     SX, "All 2^7 coefficients of the bonded polynomial are symbolic.")
prop("Q01", "Folding many claims into one preserves them",
     "For claims a_k * b_k = c_k (reversed dot products) split into groups, the folded polynomials satisfy the claim the in-circuit folding computes from the c_k and the cross terms, at both layers, with missing claims counting as zero polynomials; folding evaluations gives evaluations of the folded polynomials; the in-circuit folding forces its result for every witness and refuses a zero challenge.",
     ["inputs", "configurations"], "all coefficients, cross terms and challenges; group shapes from 1x1 to 2x3 (3x3, 2x4 thorough) with every number of claims present",
     "Tests fold random polynomials at one size.",
     [R + "internal/fold_revdot.rs"], [("cross terms", R + "internal/fold_revdot.rs: inner_error_terms, outer_error_terms"), ("polynomials", R + "internal/fold_revdot.rs: fold_inner, fold_outer, fold_two_layer"), ("claims", R + "internal/fold_revdot.rs: ClaimFolder")],
     SX, "Two symbolic coefficients per polynomial, chosen to pair with each other; generic challenges.")
prop("Q02", "The transcript is the sponge of everything said so far, in order",
     "A transcript starts from its tag (length, then 16-byte little-endian chunks); every challenge is the next output of the duplex sponge over everything absorbed before it, copies continue independently, a transcript saved and resumed in another circuit continues the same stream without losing or skipping anything, resuming without squeezing is refused, and no witness can make a circuit compute other challenges.",
     ["inputs", "histories"], "every sequence of 6 absorptions and challenges after the tag, every sequence of 3 before saving; tags of 9 lengths up to 33 bytes; all absorbed values; honest and adversarial assignments; permutation at width 3",
     "Tests sample operation sequences on one permutation and only with honest witnesses.",
     [R + "internal/transcript.rs"], [("tag", R + "internal/transcript.rs: Transcript::new"), ("challenges", R + "internal/transcript.rs: Transcript::challenge, Buffer for Transcript"), ("resuming", R + "internal/transcript.rs: save_state, resume_from_state, ResumedTranscript")],
     SX, "Products are uninterpreted commutative functions: equal streams are proved for any permutation of that shape.")
prop("Q03", "A header encodes to its content, zeros, and its own suffix",
     "Whatever its type, a header encodes to exactly HEADER_SIZE elements: its content, zeros, and its type's suffix last; content that does not fit is refused. The uniform encoding has the same values and lays down the same circuit for every header type. Padding and suffix are forced for every witness. Application suffixes map one to one to values no internal header uses.",
     ["inputs", "configurations"], "four header shapes at six sizes, all contents; all pairs of suffix numbers",
     "Tests encode one or two headers at one size.",
     [R + "header.rs", R + "step/encoder.rs", R + "step/internal/padded.rs"], [("padding", R + "step/internal/padded.rs: PaddedContent::write_gadget"), ("uniform encoding", R + "step/encoder.rs: Encoded::new_uniform"), ("suffix values", R + "header.rs: Suffix::get")],
     SX, "Encoding by symbolic execution; the suffix map with Kani over all values.")
prop("Q04", "A step's circuit exposes its left, right and output headers",
     "The circuit of a step outputs the encodings of the left, right and output headers, in that order, and hands back exactly those header values, the output data and the step's own data. Rerandomization forces the output header to equal the left one with a trivial right one and keeps the data; the trivial step admits nothing but trivial headers. Steps are numbered after the internal circuits and steps in order of registration, and nothing else is accepted.",
     ["inputs"], "all header contents and witnesses, four header types, honest and adversarial assignments; all step numbers",
     "Tests run one step with fixed values.",
     [R + "step/internal/adapter.rs", R + "step/internal/rerandomize.rs", R + "step/internal/trivial.rs", R + "step/mod.rs"], [("outputs", R + "step/internal/adapter.rs: Adapter::witness"), ("rerandomization", R + "step/internal/rerandomize.rs"), ("numbering", R + "step/mod.rs: Index::circuit_index, assert_index")],
     SX, "Symbolic execution; numbering with Kani over all values.")
prop("Q06", "The two hashing circuits derive every challenge of a step",
     "Whatever satisfies hashes_1 and hashes_2 has the challenges w, y, z, then mu, nu, mu', nu', x, alpha, u, pre_beta that one sponge yields over the bridge commitments in protocol order (the second circuit resumes the state the first one saved), the instance values k(y) of both children's application, unified and bridge instances, circuit identifiers that are roots of unity of the registry's size, and exposes both children's output headers after the unified instance. What an honest prover computes satisfies them.",
     ["inputs", "configurations"], "all witnesses and instances; registries of 2 to 32 circuits; header size 4; permutation of one full and one partial round",
     "Tests only check how many constraints the circuits have, and that one honest proof verifies.",
     [R + "internal/native/circuits/hashes_1.rs", R + "internal/native/circuits/hashes_2.rs", R + "internal/native/stages/preamble.rs", R + "internal/native/unified.rs"], [("first half", R + "internal/native/circuits/hashes_1.rs: Circuit::witness"), ("second half", R + "internal/native/circuits/hashes_2.rs: Circuit::witness"), ("children's instances", R + "internal/native/stages/preamble.rs: unified_ky, unified_ky_bridge, application_ky")],
     SX, "Products are uninterpreted commutative functions; stage wires are adversarial (or, honest, the stage's own witness).")
prop("Q07", "The collapse circuits force the folded claims",
     "Whatever satisfies inner_collapse has, in the outer error stage, the values that folding the groups' cross terms and the children's k(y) values with mu and nu yields, in the claim order of the verifier; whatever satisfies outer_collapse exposes as c the value that folding those with mu', nu' yields, unless both children are the trivial proof, when the prover chooses c. What an honest prover computes satisfies them.",
     ["inputs"], "all witnesses and instances: 19 groups of 7 claims, 7 groups in the outer layer, as in the code",
     "Tests only count constraints and verify one honest proof.",
     [R + "internal/native/circuits/inner_collapse.rs", R + "internal/native/circuits/outer_collapse.rs", R + "internal/native/claims.rs"], [("inner layer", R + "internal/native/circuits/inner_collapse.rs: Circuit::witness"), ("outer layer", R + "internal/native/circuits/outer_collapse.rs: Circuit::witness"), ("order of k(y)", R + "internal/native/claims.rs: ky_values, TwoProofKySource")],
     SX, "Non-zero challenges; stage wires are adversarial.")
prop("Q10", "The decider accepts exactly what satisfies every claim",
     "A carried proof is accepted exactly when: every native revdot claim (folded claim, application circuit, internal circuits with their instances, all stage and final-stage bondings) holds, every nested one (endoscaling steps, stages, bridges) holds, p(u) = v, the commitment to p matches, and the registry polynomial of the query stage is the registry at (w, x, y); with the output header recomputed from the data carried. Headers of the wrong length and circuits that do not exist are never accepted.",
     ["inputs"], "a proof whose polynomials are constants or lines with one or two free coefficients each, all challenges of which matter free; for each claim, all proofs where it alone fails; registry of 32 circuits, rank 7",
     "Tests verify a handful of honest proofs and none where a single claim fails.",
     [R + "verify.rs", R + "internal/native/claims.rs", R + "internal/nested/claims.rs", R + "internal/claims.rs"], [("decision", R + "verify.rs: Application::verify"), ("native claims", R + "internal/native/claims.rs: build"), ("nested claims", R + "internal/nested/claims.rs: build"), ("construction", R + "internal/claims.rs: Builder")],
     SX, "Generic position; the verifier's own randomness is fixed to one value; the registry holds small circuits in place of the real ones.")
E2E = "in the real cycle of curves (native arithmetic), production rank, all internal circuits; a small permutation in place of Poseidon; fixed randomness; commitments are those of one sample of the witness, so the challenges are constants"
prop("Q05", "Every part of a proof is what it claims to be",
     "In a proof made by seed or fuse, every commitment opens to the polynomial next to it (eleven traces, a, b, the registry polynomials, f, p, the eight bridges), the registry polynomials are the registry restricted at (w, left x), (w, right x), (w, y) and (x, y), c is the revdot product of a and b, and v is p(u).",
     ["inputs"], "all witnesses of a first proof and of a step over two first proofs, " + E2E,
     "Tests look at none of the parts.",
     [R + "fuse/mod.rs", R + "fuse/_03_s_prime.rs", R + "fuse/_06_ab.rs", R + "fuse/_10_p.rs"], [("registry polynomials", R + "fuse/_03_s_prime.rs: compute_s_prime"), ("a, b, c", R + "fuse/_06_ab.rs: compute_ab"), ("p, v", R + "fuse/_10_p.rs: compute_p"), ("claims", R + "fuse/claims.rs: FuseProofSource")],
     SX, "Generic position; registry polynomials are compared at one point outside the domain.")
prop("Q08", "compute_v and the prover open the same things",
     "Whatever satisfies compute_v exposes as v the value at u that the openings of every polynomial (at w, the children's y, y, x, xz, the children's u and circuit ids, and the domain points of the internal circuits), weighted by powers of alpha, and the polynomials themselves, weighted by powers of the lifted beta, add up to, with a(xz) and b(x) recomputed from the claims folded twice; what an honest prover computes satisfies it; the prover's quotient polynomial has the coefficients of the same sum.",
     ["inputs"], "all witnesses and claimed values; for the challenges and points, each in turn is arbitrary while the others are fixed; two free coefficients per polynomial for the quotients",
     "Tests verify one honest proof; a pair of openings missing on both sides would not show.",
     [R + "internal/native/circuits/compute_v.rs", R + "fuse/_08_f.rs"], [("the circuit", R + "internal/native/circuits/compute_v.rs: Circuit::witness"), ("list of openings", R + "internal/native/circuits/compute_v.rs: poly_queries"), ("the prover", R + "fuse/_08_f.rs: compute_native_f")],
     SX, "Generic position; the endoscalar's bits are those of the honest run (P05 decides their extraction).")
prop("Q09", "Endoscaling circuits force their end points",
     "Step k of the endoscaling circuits starts from the first point (k = 0) or the end point of step k-1, and whatever satisfies it has, as its own end point, that point scaled by the endoscalar and added to the next input, for each of the up to four inputs that are its share, in order; an honest witness satisfies every step.",
     ["inputs"], "all assignments of the wires the stages do not fix, for three endoscalars and one set of points; 2, 5 and 6 points (thorough: 10), every step",
     "Tests run one honest witness; a wire left free makes an honest run pass.",
     [R + "internal/endoscalar.rs"], [("the steps", R + "internal/endoscalar.rs: EndoscalingStep"), ("honest interstitials", R + "internal/endoscalar.rs: PointsWitness::new")],
     SX, "The points and endoscalar are constants (the wires that scale and add them are not); membership of the points and the bits' being bits are the business of other circuits.")
prop("Q11", "Honest proofs are accepted, whatever the witness",
     "A proof made by seed, fuse or rerandomize from accepted inputs is accepted, whatever the witness, and carries the data and auxiliary data the step computed: first proofs, steps over two first proofs, over inputs with headers of different types, over inputs of different depth on either side, and rerandomizations of them.",
     ["inputs", "histories"], "all witnesses of the listed proof trees (depth two; thorough: three levels, then rerandomized), " + E2E,
     "Tests make one proof from one witness.",
     [R + "lib.rs", R + "fuse/mod.rs", R + "verify.rs"], [("seed, rerandomize", R + "lib.rs: Application"), ("fuse", R + "fuse/mod.rs: Application::fuse"), ("verify", R + "verify.rs: Application::verify")],
     SX, "Generic position: acceptance is an identity in the witness, at the challenges of one sample.")
prop("Q12", "A proof cannot be altered",
     "If any one part of an accepted proof is altered - a coefficient of a native or nested trace, of a, b, the registry polynomial or p, with its commitment recomputed; a commitment; a bridge; a header; the circuit id; c; v; a challenge - verification refuses it, and a step over it, as left or right input, is refused as well. A commitment next to a native trace matters only when the proof is used, the endoscaling traces only when it is verified.",
     ["inputs", "fault_sequences"], "every part of a proof of a step over two first proofs; two to four coefficients of each polynomial; for native parts all non-zero alterations, for nested parts one; used as one input (thorough: either); " + E2E,
     "No test alters anything but a handful of fields.",
     [R + "verify.rs", R + "fuse/mod.rs", R + "internal/native/claims.rs", R + "internal/nested/claims.rs"], [("refusal", R + "verify.rs: Application::verify"), ("use as an input", R + "fuse/mod.rs: Application::fuse"), ("claims", R + "internal/native/claims.rs: build")],
     SX, "Generic position: for all alterations but finitely many.")
prop("Q13", "Nothing false is carried",
     "Data other than what was proved, data under another header type, a step whose constraints do not hold, and data attached to the trivial proof are refused, directly, as the left or right input of a further step, and after rerandomization.",
     ["inputs", "histories"], "all witnesses, all other data, for proof trees of depth one and two, " + E2E,
     "Tests try one wrong datum.",
     [R + "verify.rs", R + "fuse/mod.rs", R + "step/internal/adapter.rs", R + "header.rs"], [("headers", R + "internal/native/stages/preamble.rs: ProofInputs::alloc_for_verify"), ("step circuits", R + "step/internal/adapter.rs: Adapter"), ("refusal", R + "verify.rs: Application::verify")],
     SX, "Generic position: for all false data but a set of measure zero.")
