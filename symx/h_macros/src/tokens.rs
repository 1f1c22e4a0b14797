//! The macros' sources run as ordinary functions over inputs whose shape is chosen symbolically.
use crate::util::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::str::FromStr;
use syn::visit::Visit;

pub fn ts(s: &str) -> TokenStream {
    TokenStream::from_str(s).unwrap_or_else(|e| panic!("harness input does not lex: {s}: {e}"))
}
/// Token text with the standard paths of `PhantomData` and leading `::` of `core` and `std` unified.
pub fn norm(t: impl ToTokens) -> String {
    // spacing carries no meaning except between words
    let text = ts(&t.to_token_stream().to_string()).to_string();
    let mut s = String::new();
    for w in text.split_whitespace() {
        let word = |c: char| c.is_alphanumeric() || c == '_';
        if s.ends_with(word) && w.starts_with(word) {
            s.push(' ');
        }
        s.push_str(w);
    }
    for p in ["::core::marker::PhantomData", "::std::marker::PhantomData", "core::marker::PhantomData"] {
        s = s.replace(p, "PhantomData");
    }
    s.replace(",)", ")").replace(",>", ">")
}
pub fn is_error(t: &TokenStream) -> bool {
    t.to_string().replace(' ', "").contains("compile_error!")
}
pub fn in_harness_crate() {
    // the macros look for ragu's crates in the manifest of the crate that uses them
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| std::env::set_var("CARGO_MANIFEST_DIR", env!("CARGO_MANIFEST_DIR")));
}

// ---------------------------------------------------------------- Kind!

/// A type with holes: its text, and its text with the holes filled.
fn ty(depth: usize, f: &str) -> (String, String) {
    let leaf = |s: &str| (s.to_string(), s.to_string());
    match choose(if depth == 0 { 3 } else { 6 }) {
        0 => ("_".into(), format!("::core::marker::PhantomData<{f}>")),
        1 => leaf("C"),
        2 => leaf("m::Inner"),
        3 => {
            let (a, b) = args(depth - 1, f);
            (format!("Outer<{a}>"), format!("Outer<{b}>"))
        }
        4 => {
            let (x, y) = (ty(depth - 1, f), ty(0, f));
            (format!("({}, {},)", x.0, y.0), format!("({}, {},)", x.1, y.1))
        }
        _ => {
            let (a, b) = args(0, f);
            (format!("a::Mid<{a}>::Last<'_, _>"), format!("a::Mid<{b}>::Last<'static, ::core::marker::PhantomData<{f}>>"))
        }
    }
}
fn args(depth: usize, f: &str) -> (String, String) {
    let mut x = vec![];
    let mut y = vec![];
    match choose(3) {
        0 => {
            x.push("'_".to_string());
            y.push("'static".to_string());
        }
        1 => {
            x.push("'a".to_string());
            y.push("'a".to_string());
        }
        _ => {}
    }
    let t = ty(depth, f);
    x.push(t.0);
    y.push(t.1);
    match choose(5) {
        0 => {
            x.push("5".into());
            y.push("5".into());
        }
        1 => {
            x.push("Item = _".into());
            y.push(format!("Item = ::core::marker::PhantomData<{f}>"));
        }
        2 => {
            x.push("Item: m::Bound<'_, _> + Other<_> + 'static".into());
            y.push(format!("Item: m::Bound<'static, ::core::marker::PhantomData<{f}>> + Other<::core::marker::PhantomData<{f}>> + 'static"));
        }
        3 => {
            x.push("_".into());
            y.push(format!("::core::marker::PhantomData<{f}>"));
        }
        _ => {}
    }
    (x.join(", "), y.join(", "))
}
fn field() -> &'static str {
    ["F", "C::Base", "<C as m::Cycle>::Field", "m::Fp"][choose(4)]
}
pub fn kind<F: HF>() {
    in_harness_crate();
    let f = field();
    let (src, want) = match choose(2) {
        0 => {
            let (a, b) = args(1, f);
            (format!("My<{a}>"), format!("My<{b}>"))
        }
        _ => ty(1, f),
    };
    kind_case(f, &src, &want)
}
pub fn kind_deep<F: HF>() {
    in_harness_crate();
    let f = field();
    let (a, b) = ty(2, f);
    kind_case(f, &a, &b)
}
fn kind_case(f: &str, src: &str, want: &str) {
    let raw = macros_src::gadget_kind(ts(&format!("{f}; @{src}")));
    check(&format!("`{f}; @{src}` is the type itself, holes filled"), norm(&raw) == norm(ts(want)));
    let assoc = macros_src::gadget_kind(ts(&format!("{f}; {src}")));
    let ok = match syn::parse2::<syn::Type>(assoc.clone()) {
        Ok(syn::Type::Path(p)) => {
            let q = p.qself.as_ref();
            let segs: Vec<_> = p.path.segments.iter().collect();
            let n = segs.len();
            q.is_some_and(|q| norm(&q.ty) == norm(ts(want)) && q.position == n - 1)
                && n >= 2
                && segs[n - 1].ident == "Kind"
                && segs[n - 1].arguments.is_empty()
                && norm(segs[n - 2]) == norm(ts(&format!("Gadget<'static, ::core::marker::PhantomData<{f}>>")))
        }
        _ => false,
    };
    check(&format!("`{f}; {src}` is the kind of the gadget, holes filled: {assoc}"), ok);
}

// ---------------------------------------------------------------- generics of derived implementations

struct Impls(Vec<syn::ItemImpl>);
impl<'a> Visit<'a> for Impls {
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        self.0.push(i.clone())
    }
}
fn impls(t: &TokenStream) -> Vec<syn::ItemImpl> {
    let f = syn::parse2::<syn::File>(t.clone()).unwrap_or_else(|e| panic!("the derived code does not parse: {e}: {t}"));
    let mut v = Impls(vec![]);
    v.visit_file(&f);
    v.0
}
fn of_trait<'a>(v: &'a [syn::ItemImpl], name: &str) -> Option<&'a syn::ItemImpl> {
    v.iter().find(|i| i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == name))
}
fn trait_args(i: &syn::ItemImpl) -> Vec<String> {
    match &i.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments {
        syn::PathArguments::AngleBracketed(a) => a.args.iter().map(norm).collect(),
        _ => vec![],
    }
}
fn params(g: &syn::Generics) -> Vec<String> {
    g.params.iter().map(norm).collect()
}
fn n(s: &str) -> String {
    norm(ts(s))
}
/// Which type parameter is the driver, and by what lifetime.
pub fn driver<F: HF>() {
    in_harness_crate();
    // (attributes, bounds): does the attribute name this parameter, and what lifetime does it declare
    let lt = ["'dr", "'my"][choose(2)];
    let id = ["D", "MyD", "T"][choose(3)];
    let marked = choose_bool();
    let attr = if marked { ["#[ragu(driver)]", "#[ragu(other, driver)]", "#[doc = \"x\"] #[ragu(driver)]"][choose(3)] } else { ["", "#[ragu(not_driver)]", "#[not_ragu(driver)]", "#[ragu = \"driver\"]"][choose(4)] };
    let (bound, good) = [
        (format!("Driver<{lt}>"), true),
        (format!("ragu_core::drivers::Driver<{lt}>"), true),
        (format!("Send + Driver<{lt}>"), true),
        (format!("Driver<{lt}, F = u8>"), true),
        (format!("Driver<{lt}, T>"), true),
        (format!("NotDriver<'x> + Driver<{lt}>"), true),
        (format!("m::Driver::NotIt<'x> + 'static + Driver<{lt}>"), true),
        ("Driver".to_string(), false),
        (format!("Driver<{lt}, 'other>"), false),
        ("Driver<u8>".to_string(), false),
        ("Send + Copy".to_string(), false),
        ("'static".to_string(), false),
    ][choose(12)]
    .clone();
    let before = ["", "A: Driver<'no>,"][choose(2)];
    let what = choose(3);
    // an unmarked struct uses `D` and `'dr` whatever its bounds say
    let src = format!("struct S<'dr, 'my, {before} {attr} {id}: {bound}, const K: usize> {{ #[ragu(phantom)] p: PhantomData<{id}> }}");
    let out = match what {
        0 => macros_src::derive_gadget(ts(&src)),
        1 => macros_src::derive_write(ts(&src)),
        _ => macros_src::derive_consistent(ts(&src)),
    };
    if marked && !good {
        check(&format!("refused: {src}"), is_error(&out));
        return;
    }
    check(&format!("accepted: {src}"), !is_error(&out));
    let (wid, wlt) = if marked { (id, lt) } else { ("D", "'dr") };
    let v = impls(&out);
    match what {
        0 => {
            let g = of_trait(&v, "Gadget").expect("an implementation of Gadget");
            check(&format!("Gadget<{wlt}, {wid}>: {src}"), trait_args(g) == [n(wlt), n(wid)]);
            let names: Vec<String> = g.generics.params.iter().map(|p| match p {
                syn::GenericParam::Type(t) => t.ident.to_string(),
                syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
                syn::GenericParam::Const(c) => c.ident.to_string(),
            }).collect();
            let mut want = vec!["'dr".to_string(), "'my".to_string()];
            if !before.is_empty() {
                want.push("A".into());
            }
            want.extend([id.to_string(), "K".into()]);
            check("all parameters of the struct, in order", names == want);
            // the helper attribute is gone, others stay as they are
            if marked {
                check("no driver attribute left", g.generics.params.iter().all(|p| match p {
                    syn::GenericParam::Type(t) => !t.attrs.iter().any(|a| a.path().is_ident("ragu")),
                    _ => true,
                }));
            }
        }
        1 => {
            let g = of_trait(&v, "Write").expect("an implementation of Write");
            check_kind_impl(&src, g, wid, wlt, id, before);
        }
        _ => {
            let g = of_trait(&v, "Consistent").expect("an implementation of Consistent");
            check(&format!("Consistent<{wlt}, {wid}>: {src}"), trait_args(g) == [n(wlt), n(wid)]);
        }
    }
    if what == 0 {
        let k = of_trait(&v, "GadgetKind").expect("an implementation of GadgetKind");
        check_kind_impl(&src, k, wid, wlt, id, before);
    }
}
fn check_kind_impl(src: &str, k: &syn::ItemImpl, wid: &str, wlt: &str, id: &str, before: &str) {
    let f = trait_args(k).pop().unwrap_or_default();
    let subst = |x: &str| if x == wid { n(&format!("::core::marker::PhantomData<{f}>")) } else if x == wlt { n("'static") } else { n(x) };
    let mut want = vec![subst("'dr"), subst("'my")];
    if !before.is_empty() {
        want.push(subst("A"));
    }
    want.extend([subst(id), n("K")]);
    let got = match &*k.self_ty {
        syn::Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().map(norm).collect(),
            _ => vec![],
        },
        _ => vec![],
    };
    check(&format!("the kind is for the struct over its field: {src}"), got == want);
    let names: Vec<String> = k.generics.params.iter().map(|p| match p {
        syn::GenericParam::Type(t) => t.ident.to_string(),
        syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
        syn::GenericParam::Const(c) => c.ident.to_string(),
    }).collect();
    check("the driver and its lifetime are not parameters of the kind", !names.iter().any(|x| x == wid || x == wlt));
    for (x, is) in [("'dr", true), ("'my", true), ("A", !before.is_empty()), (id, true), ("K", true)] {
        if is && x != wid && x != wlt {
            check(&format!("parameter {x} stays"), names.iter().filter(|y| *y == x).count() == 1);
        }
    }
    check("the field is a parameter", names.contains(&f));
}
/// Bounds that mention the driver's field mention the kind's field instead, everything else stays.
pub fn field_bounds<F: HF>() {
    in_harness_crate();
    let (id, lt) = [("D", "'dr"), ("MyD", "'my")][choose(2)];
    let here = "FIELD";
    // a type, and the type with the driver's field replaced
    fn ty(depth: usize, id: &str) -> (String, String) {
        let leaf = |s: String| (s.clone(), s);
        match choose(if depth == 0 { 9 } else { 12 }) {
            0 => (format!("{id}::F"), "FIELD".to_string()),
            1 => leaf(format!("{id}::Wire")),
            2 => leaf("Other::F".into()),
            3 => leaf(format!("{id}::F::Repr")),
            4 => leaf(format!("<X as {id}>::F")),
            5 => leaf("F".into()),
            6 => leaf(format!("m::{id}::F")),
            7 => leaf("u8".into()),
            8 => leaf("F::D".into()),
            9 => {
                let a = ty(depth - 1, id);
                (format!("Vec<'x, {}, 3>", a.0), format!("Vec<'x, {}, 3>", a.1))
            }
            10 => {
                let a = ty(depth - 1, id);
                (format!("(u8, {})", a.0), format!("(u8, {})", a.1))
            }
            _ => {
                let a = ty(depth - 1, id);
                (format!("m::A<{}>::B<Item = {}>", a.0, a.0), format!("m::A<{}>::B<Item = {}>", a.1, a.1))
            }
        }
    }
    let t = ty(1, id);
    let mk = |t: &str, k: usize| match k {
        0 => format!("Bound<{t}>"),
        1 => format!("Send + m::Bound<u8, {t}>"),
        2 => format!("Bound<Item = {t}> + 'static"),
        3 => format!("Bound<Item: Next<{t}>>"),
        4 => format!("m::Q<{t}>::Bound"),
        _ => format!("Bound<{t}> + Bound<Vec<{t}>>"),
    };
    let k = choose(6);
    let (b, want) = (mk(&t.0, k), mk(&t.1, k));
    let second = ["", ", U: Bound<(D::F, MyD::F)>"][choose(2)];
    let src = format!("struct S<{lt}, #[ragu(driver)] {id}: Driver<{lt}>, T: {b} {second}> {{ #[ragu(phantom)] p: PhantomData<T> }}");
    let what = choose(2);
    let out = if what == 0 { macros_src::derive_gadget(ts(&src)) } else { macros_src::derive_write(ts(&src)) };
    check(&format!("accepted: {src}"), !is_error(&out));
    let v = impls(&out);
    let k = of_trait(&v, if what == 0 { "GadgetKind" } else { "Write" }).expect("implementation");
    let f = trait_args(k).pop().unwrap_or_default();
    let find = |name: &str| k.generics.params.iter().find_map(|p| match p {
        syn::GenericParam::Type(t) if t.ident == name => Some(norm(&t.bounds)),
        _ => None,
    });
    check(&format!("bounds of T in {src}"), find("T").is_some_and(|b| b == n(&want.replace(here, &f))));
    if !second.is_empty() {
        let w = if id == "D" { "Bound<(FIELD, MyD::F)>" } else { "Bound<(D::F, FIELD)>" };
        check(&format!("bounds of U in {src}"), find("U").is_some_and(|b| b == n(&w.replace(here, &f))));
    }
}

// ---------------------------------------------------------------- what is refused

/// Structs with every set of annotations on a field, in every position: refused exactly when they exclude one another.
pub fn annotations<F: HF>() {
    in_harness_crate();
    let names = ["value", "wire", "gadget", "phantom"];
    let on: Vec<&str> = names.iter().copied().filter(|_| choose_bool()).collect();
    let attrs = if choose_bool() {
        on.iter().map(|a| format!("#[ragu({a})]")).collect::<Vec<_>>().join(" ")
    } else if on.is_empty() {
        "#[doc = \"plain\"] #[not_ragu(wire)]".to_string()
    } else {
        format!("#[ragu({})]", on.join(", "))
    };
    let fields = match choose(3) {
        0 => format!("{attrs} x: A, y: B"),
        1 => format!("y: B, {attrs} x: A"),
        _ => format!("#[ragu(wire)] w: D::Wire, {attrs} pub x: A, #[ragu(value)] z: DriverValue<D, u8>"),
    };
    let src = format!("struct S<'dr, D: Driver<'dr>> {{ {fields} }}");
    let out = macros_src::derive_gadget(ts(&src));
    check(&format!("refused exactly with more than one annotation: {src}"), is_error(&out) == (on.len() > 1));
}
pub fn not_structs<F: HF>() {
    in_harness_crate();
    let gen = ["<'dr, D: Driver<'dr>>", "<'m, #[ragu(driver)] X: Driver<'m>>", "<'dr, D: Driver<'dr>, const N: usize>"][choose(3)];
    let (src, ok) = [
        (format!("struct S{gen} {{ a: A }}"), true),
        (format!("pub(crate) struct S{gen} {{ }}"), true),
        (format!("enum S{gen} {{ A, B(u8) }}"), false),
        (format!("enum S{gen} {{ A {{ a: A }} }}"), false),
        (format!("union S{gen} {{ a: A }}"), false),
        (format!("struct S{gen}(A, B);"), false),
        (format!("struct S{gen};"), false),
        (format!("struct S{gen} where A: Send {{ a: A }}"), false),
        (format!("struct S{gen}(A) where A: Send;"), false),
    ][choose(9)]
    .clone();
    let out = match choose(3) {
        0 => macros_src::derive_gadget(ts(&src)),
        1 => macros_src::derive_write(ts(&src)),
        _ => macros_src::derive_consistent(ts(&src)),
    };
    check(&format!("only structs with named fields and no where clause: {src}"), is_error(&out) != ok);
    if ok {
        check("the derived code parses", syn::parse2::<syn::File>(out).is_ok());
    }
}
pub fn cast_sizes<F: HF>() {
    let k = choose(40);
    let out = macros_src::impl_maybe_cast_tuple(ts(&k.to_string()));
    if k < 2 {
        check(&format!("size {k} refused"), is_error(&out));
        return;
    }
    check(&format!("size {k} accepted"), !is_error(&out));
    let v = impls(&out);
    let mut sizes: Vec<usize> = v.iter().filter(|i| i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == "MaybeCast")).map(|i| match &*i.self_ty {
        syn::Type::Tuple(t) => t.elems.len(),
        _ => 0,
    }).collect();
    sizes.sort();
    check(&format!("one implementation per size up to {k}"), sizes == (2..=k).collect::<Vec<_>>());
}

// ---------------------------------------------------------------- repr256

fn limbs(out: &TokenStream) -> Option<Vec<u64>> {
    match syn::parse2::<syn::Expr>(out.clone()).ok()? {
        syn::Expr::Array(a) => a
            .elems
            .iter()
            .map(|e| match e {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if matches!(i.suffix(), "" | "u64") => i.base10_parse().ok(),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}
fn word() -> u64 {
    [0, 0x8000_0000_0000_0001, u64::MAX, 0x0123_4567_89ab_cdef][choose(4)]
}
/// The literal in hexadecimal, octal or binary text, with separators and leading zeros; limbs chosen at the boundaries.
pub fn repr_boundaries<F: HF>() {
    let l: Vec<u64> = (0..4).map(|_| word()).collect();
    let top = [0u64, 1, 0x100][choose(3)];
    let pad = ["", "0", "0000_0000_0"][choose(3)];
    let sep = choose_bool();
    let mut hex = format!("{pad}{top:x}");
    for w in l.iter().rev() {
        if sep {
            hex.push('_');
        }
        hex.push_str(&format!("{w:016x}"));
    }
    repr_case(&format!("0x{hex}"), &l, top)
}
pub fn repr_radix<F: HF>() {
    let l: Vec<u64> = vec![word(), word(), 0, 0];
    let x = (l[1] as u128) << 64 | l[0] as u128;
    let lit = match choose(4) {
        0 => format!("{x}"),
        1 => format!("{x}_"),
        2 => format!("0b{x:b}"),
        _ => format!("0o{x:o}"),
    };
    repr_case(&lit, &l, 0)
}
fn repr_case(lit: &str, l: &[u64], top: u64) {
    let out = macros_src::repr256(ts(lit));
    if top != 0 {
        check(&format!("{lit} is refused"), is_error(&out));
    } else {
        check(&format!("{lit} in little-endian limbs: {out}"), limbs(&out).is_some_and(|v| v == l));
    }
}
pub fn repr_not_integer<F: HF>() {
    let s = ["1.5", "-1", "\"7\"", "x", "1 2", "", "'a'", "true"][choose(8)];
    check(&format!("`{s}` refused"), is_error(&macros_src::repr256(ts(s))));
}

// ---------------------------------------------------------------- where the crates are found

pub fn paths<F: HF>() {
    // how the crate using the macros knows ragu_core, ragu_primitives and ragu: not, by name, renamed, or being it
    let (core, prims, ragu) = (choose(4), choose(4), choose(4));
    if [core, prims, ragu].iter().filter(|x| **x == 3).count() > 1 {
        prune();
    }
    let dir = std::env::temp_dir().join(format!("ragu-paths-{}", std::process::id())).join(format!("{core}{prims}{ragu}"));
    std::fs::create_dir_all(&dir).unwrap();
    let name = if core == 3 { "ragu_core" } else if prims == 3 { "ragu_primitives" } else if ragu == 3 { "ragu" } else { "user" };
    let mut t = format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\n[dependencies]\n");
    for (n, k, r) in [("ragu_core", core, "cc"), ("ragu_primitives", prims, "pp"), ("ragu", ragu, "rr")] {
        match k {
            1 => t.push_str(&format!("{n} = \"1\"\n")),
            2 => t.push_str(&format!("{r} = {{ package = \"{n}\", version = \"1\" }}\n")),
            _ => {}
        }
    }
    std::fs::write(dir.join("Cargo.toml"), t).unwrap();
    let old: Vec<_> = ["CARGO", "CARGO_TARGET_TMPDIR", "CARGO_PKG_NAME"].iter().map(|k| (*k, std::env::var_os(k))).collect();
    for (k, _) in &old {
        std::env::remove_var(k);
    }
    std::env::set_var("CARGO_MANIFEST_DIR", &dir);
    let out = macros_src::derive_write(ts("struct S<'dr, D: Driver<'dr>> { x: A }"));
    let kind = macros_src::gadget_kind(ts("F; S<'_, _>"));
    std::env::set_var("CARGO_MANIFEST_DIR", env!("CARGO_MANIFEST_DIR"));
    for (k, v) in old {
        if let Some(v) = v {
            std::env::set_var(k, v)
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_dir(dir.parent().unwrap());
    let core_path = match (core, ragu) {
        (3, _) => Some("::ragu_core"),
        (_, 3) => Some("::ragu"),
        (1, _) => Some("::ragu_core"),
        (2, _) => Some("::cc"),
        (_, 1) => Some("::ragu"),
        (_, 2) => Some("::rr"),
        _ => None,
    };
    let prims_path = match (prims, ragu) {
        (3, _) => Some("::ragu_primitives".to_string()),
        (_, 3) => Some("::ragu::primitives".to_string()),
        (1, _) => Some("::ragu_primitives".to_string()),
        (2, _) => Some("::pp".to_string()),
        (_, 1) => Some("::ragu::primitives".to_string()),
        (_, 2) => Some("::rr::primitives".to_string()),
        _ => None,
    };
    let case = format!("core {core}, primitives {prims}, ragu {ragu}");
    match core_path {
        None => check(&format!("{case}: refused"), is_error(&kind) && is_error(&out)),
        Some(c) => {
            let ok = match syn::parse2::<syn::Type>(kind.clone()) {
                Ok(syn::Type::Path(p)) => {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let lead = if p.path.leading_colon.is_some() { "::" } else { "" };
                    format!("{lead}{}", s.join("::")) == format!("{c}::gadgets::Gadget::Kind")
                }
                _ => false,
            };
            check(&format!("{case}: Kind! goes through {c}: {kind}"), ok);
        }
    }
    match (core_path, prims_path) {
        (Some(_), Some(p)) => {
            let v = if is_error(&out) { vec![] } else { impls(&out) };
            let got = of_trait(&v, "Write").map(|i| {
                let t = &i.trait_.as_ref().unwrap().1;
                let s: Vec<String> = t.segments.iter().map(|s| s.ident.to_string()).collect();
                format!("{}{}", if t.leading_colon.is_some() { "::" } else { "" }, s.join("::"))
            });
            check(&format!("{case}: Write is found through {p}"), got == Some(format!("{p}::io::Write")));
        }
        _ => check(&format!("{case}: deriving Write refused"), is_error(&out)),
    }
}

pub fn all(hs: &mut Vec<Harness>) {
    use symx::T13;
    h!(hs, "M01", repr_boundaries, T13, "repr256!: hexadecimal literals with limbs at the boundaries, padding and separators, up to and past 256 bits", 8000, 0);
    h!(hs, "M01", repr_radix, T13, "repr256!: decimal, binary and octal literals");
    h!(hs, "M01", repr_not_integer, T13, "repr256!: anything but an unsigned integer literal is refused");
    h!(hs, "M04", kind, T13, "Kind!: every hole filled, types of depth 1", 8000, 0);
    h!(hs, "M04", kind_deep, T13, "Kind!: types of depth 2", 20000, 0);
    h!(hs, "M04", driver, T13, "the driver parameter and its lifetime, found or refused", 20000, 0);
    h!(hs, "M04", field_bounds, T13, "bounds that mention the driver's field", 20000, 0);
    h!(hs, "M05", annotations, T13, "contradictory annotations refused in every position");
    h!(hs, "M05", not_structs, T13, "what cannot be derived is refused");
    h!(hs, "M05", cast_sizes, T13, "impl_maybe_cast_tuple!: one implementation per size from 2 to the given one, below 2 refused");
    h!(hs, "M06", paths, T13, "the paths of ragu's crates in the user's crate, all combinations of absent, named, renamed and own");
}
