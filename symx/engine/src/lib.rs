//! symx: solver-based checking of field-generic Rust code.
//!
//! The code under test is generic over a prime field. Here it is *executed* with `Sym<P>`, a field whose
//! elements are expressions over symbolic variables; equality tests fork the execution; properties become
//! formulas over the resulting expressions, which an SMT solver decides for all values of the variables.
//! The same harness is generic over the field, so a counterexample is replayed natively with `P` itself.
pub mod engine;
pub mod smt;
pub mod sym;
pub mod toy;

pub use engine::{Fml, Model};
use engine::{dec, undec, Ctx, Eng, FieldInfo, Replay, CTX, L};
use ff::{FromUniformBytes, WithSmallOrderMulGroup};
pub use pasta_curves::{Fp, Fq};
use std::any::TypeId;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;
pub use sym::Sym;
pub use toy::Toy;

pub type T7 = Toy<7>;
pub type T13 = Toy<13>;
pub type T19 = Toy<19>;
pub type T37 = Toy<37>;
pub type T97 = Toy<97>;

/// A concrete prime field the engine can compute in.
pub trait PBase: WithSmallOrderMulGroup<3> + FromUniformBytes<64> + Ord + std::hash::Hash {
    const TOY: Option<u64>;
    const MODULUS_LIMBS: L;
    fn inner(self) -> L;
    fn from_inner(v: L) -> Self;
    fn canon(self) -> L;
    fn of_canon(v: L) -> Self;
}
macro_rules! pasta {
    ($t:ident) => {
        impl PBase for $t {
            const TOY: Option<u64> = None;
            const MODULUS_LIMBS: L = $t::MOD;
            fn inner(self) -> L {
                $t::inner(&self)
            }
            fn from_inner(v: L) -> Self {
                $t::from_inner(v)
            }
            fn canon(self) -> L {
                self.raw()
            }
            fn of_canon(v: L) -> Self {
                $t::from_raw(v)
            }
        }
    };
}
pasta!(Fp);
pasta!(Fq);
impl<const P: u64> PBase for Toy<P> {
    const TOY: Option<u64> = Some(P);
    const MODULUS_LIMBS: L = [P, 0, 0, 0];
    fn inner(self) -> L {
        [self.0, 0, 0, 0]
    }
    fn from_inner(v: L) -> Self {
        Toy(v[0])
    }
    fn canon(self) -> L {
        [self.0, 0, 0, 0]
    }
    fn of_canon(v: L) -> Self {
        Toy(v[0] % P)
    }
}
pub(crate) fn field_info<P: PBase>() -> FieldInfo {
    let m = P::MODULUS_LIMBS;
    let mut half = [0; 4];
    for i in 0..4 {
        half[i] = (m[i] >> 1) | if i < 3 { m[i + 1] << 63 } else { 0 };
    }
    FieldInfo {
        ty: TypeId::of::<P>(),
        modulus_dec: dec(&m),
        half,
        modulus: m,
        toy: P::TOY,
        zero: P::ZERO.inner(),
        one: P::ONE.inner(),
        add: |a, b| (P::from_inner(a) + P::from_inner(b)).inner(),
        mul: |a, b| (P::from_inner(a) * P::from_inner(b)).inner(),
        neg: |a| (-P::from_inner(a)).inner(),
        inv: |a| P::from_inner(a).invert().unwrap_or(P::ZERO).inner(),
        canon: |a| P::from_inner(a).canon(),
        of_canon: |a| P::of_canon(a).inner(),
    }
}

/// The field interface harnesses are written against.
pub trait HF: WithSmallOrderMulGroup<3> + FromUniformBytes<64> {
    type P: PBase;
    const SYMBOLIC: bool;
    fn var(name: &str) -> Self;
    fn lift(p: Self::P) -> Self;
    fn eqf(self, o: Self) -> Fml;
    fn is0(self) -> Fml {
        self.eqf(Self::ZERO)
    }
    /// identity of the underlying expression (for structural comparisons)
    fn key(self) -> (u32, L);
}
impl<P: PBase> HF for P {
    type P = P;
    const SYMBOLIC: bool = false;
    fn var(name: &str) -> Self {
        CTX.with(|c| match &mut *c.borrow_mut() {
            Ctx::Replay(r) => {
                let n = Eng::unique_name(&mut r.name_count, name);
                P::of_canon(r.model.vars.get(&n).copied().unwrap_or([0; 4]))
            }
            _ => panic!("native variable outside a replay"),
        })
    }
    fn lift(p: P) -> Self {
        p
    }
    fn eqf(self, o: Self) -> Fml {
        Fml::B(self == o)
    }
    fn key(self) -> (u32, L) {
        (u32::MAX, self.inner())
    }
}

pub fn vars<F: HF>(name: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| F::var(&format!("{name}{i}"))).collect()
}
/// Exit of a path that is infeasible or uninteresting; not a failure.
pub struct Prune;
pub fn prune() -> ! {
    std::panic::panic_any(Prune)
}
/// A structural choice in `0..n`; every value is explored.
pub fn choose(n: usize) -> usize {
    CTX.with(|c| match &mut *c.borrow_mut() {
        Ctx::Sym(e) => e.choose(n as u32) as usize,
        Ctx::Replay(r) => {
            if n == 1 {
                return 0;
            }
            let v = r.model.choices.get(r.next_choice).copied().unwrap_or(0);
            r.next_choice += 1;
            v as usize
        }
        Ctx::None => panic!("no context"),
    })
}
pub fn choose_bool() -> bool {
    choose(2) == 1
}
pub fn assume(f: Fml) {
    let ok = CTX.with(|c| match &mut *c.borrow_mut() {
        Ctx::Sym(e) => e.assume(f),
        Ctx::Replay(r) => {
            let ok = ground(&f);
            if !ok {
                r.assume_failed = true;
            }
            ok
        }
        Ctx::None => panic!("no context"),
    });
    if !ok {
        prune();
    }
}
fn ground(f: &Fml) -> bool {
    match f {
        Fml::B(b) => *b,
        Fml::Not(x) => !ground(x),
        Fml::And(v) => v.iter().all(ground),
        Fml::Or(v) => v.iter().any(ground),
        Fml::Eq(..) => panic!("symbolic formula in a replay"),
    }
}
/// Obligation: on every path, under the path condition, `hyps` imply `goal`.
pub fn prove_under(label: &str, hyps: Vec<Fml>, goal: Fml) {
    CTX.with(|c| match &mut *c.borrow_mut() {
        Ctx::Sym(e) => e.prove(label, hyps, goal),
        Ctx::Replay(r) => {
            r.proved += 1;
            if hyps.iter().all(ground) && !ground(&goal) {
                r.failed.push(label.to_string());
            }
        }
        Ctx::None => panic!("no context"),
    })
}
pub fn prove(label: &str, goal: Fml) {
    prove_under(label, vec![], goal)
}
pub fn prove_eq<F: HF>(label: &str, a: F, b: F) {
    prove(label, a.eqf(b))
}
pub fn prove_eqs<F: HF>(label: &str, a: &[F], b: &[F]) {
    prove(&format!("{label}: length"), Fml::B(a.len() == b.len()));
    prove(label, Fml::all(a.iter().zip(b).map(|(x, y)| x.eqf(*y))));
}
pub fn check(label: &str, b: bool) {
    prove(label, Fml::B(b))
}
/// From here to the end of the path, an undetermined comparison in a large field is taken to be an inequality:
/// the path covers generic inputs only (all but the zero set of the recorded polynomials).
pub fn generic_position() {
    CTX.with(|c| {
        if let Ctx::Sym(e) = &mut *c.borrow_mut() {
            e.generic = true;
        }
    })
}
/// From here to the end of the path, random field elements are the ones the generator passed in yields.
pub fn given_randomness() {
    CTX.with(|c| {
        if let Ctx::Sym(e) = &mut *c.borrow_mut() {
            e.given = true;
        }
    })
}
pub(crate) fn is_given() -> bool {
    CTX.with(|c| match &*c.borrow() {
        Ctx::Sym(e) => e.given,
        _ => false,
    })
}
/// From here to the end of the path, the product of two non-constant expressions is an uninterpreted commutative
/// function of them: what is proved holds a fortiori for the product. Refutations are still sought and replayed with
/// the real product. For code that hashes.
pub fn opaque_products() {
    CTX.with(|c| {
        if let Ctx::Sym(e) = &mut *c.borrow_mut() {
            e.uf = true;
        }
    })
}
/// From here to the end of the path, the bytes of a symbolic value in a large field are those of its value at a fixed
/// sample point of the variables: equal values have equal bytes, and nothing else about them is relied upon.
/// For code that only hashes values or uses them as labels.
pub fn opaque_bytes() {
    CTX.with(|c| {
        if let Ctx::Sym(e) = &mut *c.borrow_mut() {
            e.opaque = true;
        }
    })
}
pub fn is_replay() -> bool {
    CTX.with(|c| matches!(&*c.borrow(), Ctx::Replay(_)))
}

#[derive(Clone)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub about: &'static str,
    pub toy: bool,
    pub field: &'static str,
    pub sym: fn(),
    pub native: fn(),
    pub max_paths: u64,
    pub timeout_ms: u64,
    pub tier: u8,
}
/// `h!(vec, "P01", name::<Fp>, "what is encoded")`
#[macro_export]
macro_rules! h {
    ($v:expr, $prop:expr, $f:ident, $p:ty, $about:expr) => {
        $crate::h!($v, $prop, $f, $p, $about, 20000, 0)
    };
    ($v:expr, $prop:expr, $f:ident, $p:ty, $about:expr, $paths:expr, $tier:expr) => {
        $v.push($crate::Harness {
            prop: $prop,
            name: stringify!($f),
            about: $about,
            toy: <$p as $crate::PBase>::TOY.is_some(),
            field: stringify!($p),
            sym: $f::<$crate::Sym<$p>>,
            native: $f::<$p>,
            max_paths: $paths,
            timeout_ms: 60000,
            tier: $tier,
        })
    };
}

fn install_hook() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let dbg = std::env::var("SYMX_PANIC").is_ok();
        let d = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            LAST.with(|l| {
                *l.borrow_mut() = i.location().map(|x| format!("{}:{}", x.file(), x.line())).unwrap_or_default()
            });
            if dbg && i.payload().downcast_ref::<Prune>().is_none() {
                d(i)
            }
        }));
    });
}
thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    format!("{m} at {}", LAST.with(|l| l.borrow().clone()))
}

pub struct Report {
    pub h: Harness,
    pub stats: engine::Stats,
    pub violation: Option<(String, String, Model)>, // label, detail, model (replayed)
    pub errors: Vec<String>,
    pub reach: Vec<(String, u64, bool)>,
    pub wall: f64,
    pub forks: Vec<(String, u64)>,
}

pub fn replay(h: &Harness, model: &Model) -> (Vec<String>, Option<String>, bool) {
    install_hook();
    CTX.with(|c| {
        *c.borrow_mut() = Ctx::Replay(Replay {
            model: model.clone(),
            next_choice: 0,
            name_count: Default::default(),
            failed: vec![],
            proved: 0,
            assume_failed: false,
        })
    });
    let r = catch_unwind(AssertUnwindSafe(|| (h.native)()));
    let panicked = match r {
        Ok(()) => None,
        Err(e) if e.downcast_ref::<Prune>().is_some() => None,
        Err(e) => Some(panic_text(&e)),
    };
    CTX.with(|c| match std::mem::replace(&mut *c.borrow_mut(), Ctx::None) {
        Ctx::Replay(r) => (r.failed, panicked, r.assume_failed),
        _ => unreachable!(),
    })
}

pub fn run(h: &Harness, seed: u64) -> Report {
    install_hook();
    let t0 = Instant::now();
    let mut e = Eng::new(h.toy, h.timeout_ms);
    e.seed = 0x9e3779b97f4a7c15 ^ seed.wrapping_mul(0xd1342543de82ef95) | 1;
    let mut panics: Vec<(String, Model)> = vec![];
    CTX.with(|c| *c.borrow_mut() = Ctx::Sym(Box::new(e)));
    let with = |f: &mut dyn FnMut(&mut Eng) -> bool| -> bool {
        CTX.with(|c| match &mut *c.borrow_mut() {
            Ctx::Sym(e) => f(e),
            _ => unreachable!(),
        })
    };
    loop {
        with(&mut |e| {
            e.reset_path();
            true
        });
        let r = catch_unwind(AssertUnwindSafe(|| (h.sym)()));
        let go = with(&mut |e| {
            e.stats.paths += 1;
            match &r {
                Ok(()) => {}
                Err(p) if p.downcast_ref::<Prune>().is_some() => e.stats.pruned += 1,
                Err(p) => {
                    let txt = panic_text(p);
                    match e.path_model() {
                        Ok(Some(m)) => panics.push((txt, m)),
                        Ok(None) => {}
                        Err(x) => e.errors.push(format!("panic `{txt}` on an undecided path: {x}")),
                    }
                }
            }
            if !panics.is_empty() || !e.violations.is_empty() || e.errors.len() > 20 {
                return false;
            }
            if e.stats.paths >= h.max_paths {
                e.errors.push("path limit reached".into());
                return false;
            }
            e.advance()
        });
        if !go {
            break;
        }
    }
    let mut e = CTX.with(|c| match std::mem::replace(&mut *c.borrow_mut(), Ctx::None) {
        Ctx::Sym(e) => e,
        _ => unreachable!(),
    });
    e.reset_path();
    let mut rep = Report {
        h: h.clone(),
        stats: e.stats.clone(),
        violation: None,
        errors: e.errors.clone(),
        reach: e.reach.iter().map(|(k, v)| (k.clone(), v.count, v.sat)).collect(),
        wall: 0.0,
        forks: e.fork_reasons.clone().into_iter().collect(),
    };
    for v in &e.violations {
        let (failed, panicked, _) = replay(h, &v.model);
        if failed.iter().any(|l| *l == v.label) || !failed.is_empty() || panicked.is_some() {
            let what = failed.first().cloned().or(panicked).unwrap();
            rep.violation = Some((what, v.detail.clone(), v.model.clone()));
            break;
        }
        rep.errors.push(format!("counterexample to `{}` does not reproduce natively: {:?}", v.label, show(&v.model)));
    }
    for (txt, m) in &panics {
        let (failed, panicked, _) = replay(h, m);
        if let Some(p) = panicked.or(failed.first().cloned()) {
            rep.violation = Some((format!("panic: {p}"), String::new(), m.clone()));
            break;
        }
        rep.errors.push(format!("panic `{txt}` does not reproduce natively: {:?}", show(m)));
    }
    if rep.violation.is_none() && rep.errors.is_empty() {
        if rep.reach.is_empty() {
            rep.errors.push("no obligation was reached".into());
        }
        for (l, _, sat) in &rep.reach {
            if !sat {
                rep.errors.push(format!("vacuous: `{l}` is never reached with satisfiable hypotheses"));
            }
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}
pub fn show(m: &Model) -> String {
    let v: Vec<String> = m.vars.iter().map(|(k, v)| format!("{k}={}", dec(v))).collect();
    format!("{} choices={:?}", v.join(" "), m.choices)
}

fn status(r: &Report) -> &'static str {
    if r.violation.is_some() {
        "violation"
    } else if !r.errors.is_empty() {
        "error"
    } else {
        "ok"
    }
}
fn print_line(r: &Report) {
    let s = &r.stats;
    eprintln!(
        "{:9} {} {}<{}> paths={} pruned={} obl={} q={} (unsat {} sat {} unk {}) fold={} nf={} raw={} nodes={} vars={} solver={:.1}s wall={:.1}s",
        status(r), r.h.prop, r.h.name, r.h.field, s.paths, s.pruned, s.obligations, s.queries, s.unsat, s.sat,
        s.unknown, s.by_fold, s.by_normal_form, s.raw_unsat, s.max_nodes, s.max_vars, s.solver_ms / 1000.0, r.wall
    );
}
fn model_json(m: &Model) -> serde_json::Value {
    let vars: serde_json::Map<String, serde_json::Value> =
        m.vars.iter().map(|(k, v)| (k.clone(), serde_json::Value::String(dec(v)))).collect();
    serde_json::json!({"vars": vars, "choices": m.choices})
}

/// Command line: `<bin> run PROP OUT.json REPLAY_DIR SEED TIER` | `<bin> replay FILE` | `<bin> list`
pub fn main(hs: Vec<Harness>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for h in &hs {
                println!("{} {} {}", h.prop, h.name, h.field);
            }
            std::process::exit(0)
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let h = hs
                .iter()
                .find(|h| v["harness"] == h.name && v["field"] == h.field && v["property"] == h.prop)
                .expect("harness exists");
            let mut m = Model::default();
            for (k, x) in v["model"]["vars"].as_object().unwrap() {
                m.vars.insert(k.clone(), undec(x.as_str().unwrap()));
            }
            m.choices = v["model"]["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let (failed, panicked, _) = replay(h, &m);
            println!("failed: {failed:?} panicked: {panicked:?}");
            std::process::exit(if failed.is_empty() && panicked.is_none() { 0 } else { 1 })
        }
        Some("run") => {
            let (prop, out, dir) = (args[2].clone(), args[3].clone(), args[4].clone());
            let seed: u64 = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier: u8 = args.get(6).and_then(|s| s.parse().ok()).unwrap_or(0);
            let only = std::env::var("SYMX_ONLY").ok();
            let mut sel: Vec<Harness> = hs
                .into_iter()
                .filter(|h| {
                    (prop == "all" || h.prop == prop)
                        && h.tier <= tier
                        && only.as_ref().map_or(true, |o| h.name.contains(o.as_str()))
                })
                .collect();
            sel.reverse();
            let queue = std::sync::Arc::new(std::sync::Mutex::new(sel));
            let done = std::sync::Arc::new(std::sync::Mutex::new(Vec::<Report>::new()));
            let jobs: usize = std::env::var("SYMX_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            let mut ts = vec![];
            for _ in 0..jobs {
                let (q, d) = (queue.clone(), done.clone());
                ts.push(
                    std::thread::Builder::new()
                        .stack_size(1 << 30)
                        .spawn(move || loop {
                            let Some(h) = q.lock().unwrap().pop() else { break };
                            let r = run(&h, seed);
                            print_line(&r);
                            d.lock().unwrap().push(r);
                        })
                        .unwrap(),
                );
            }
            for t in ts {
                t.join().unwrap();
            }
            let mut rs = std::mem::take(&mut *done.lock().unwrap());
            rs.sort_by(|a, b| (a.h.prop, a.h.name, a.h.field).cmp(&(b.h.prop, b.h.name, b.h.field)));
            let mut js = vec![];
            let mut worst = 0;
            for r in &rs {
                let s = &r.stats;
                let status = status(r);
                for e in r.errors.iter().take(5) {
                    eprintln!("    error: {e}");
                }
                let mut rp = serde_json::Value::Null;
                if let Some((l, d, m)) = &r.violation {
                    worst = worst.max(1);
                    let path = format!("{dir}/{}_{}_{}.json", r.h.prop, r.h.name, r.h.field);
                    let j = serde_json::json!({"property": r.h.prop, "harness": r.h.name, "field": r.h.field,
                        "label": l, "detail": d, "model": model_json(m)});
                    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
                    eprintln!("    violated: {l} {d} [{}]", show(m));
                    rp = serde_json::json!({"label": l, "replay": path, "model": show(m)});
                } else if !r.errors.is_empty() {
                    worst = worst.max(2);
                }
                js.push(serde_json::json!({
                    "property": r.h.prop, "harness": r.h.name, "field": r.h.field, "about": r.h.about, "status": status,
                    "toy": r.h.toy, "paths": s.paths, "pruned": s.pruned, "obligations": s.obligations,
                    "queries": s.queries, "unsat": s.unsat, "sat": s.sat, "unknown": s.unknown,
                    "by_fold": s.by_fold, "by_normal_form": s.by_normal_form, "raw_unsat": s.raw_unsat, "undecided": s.undecided,
                    "solver_ms": s.solver_ms, "max_nodes": s.max_nodes, "max_vars": s.max_vars, "wall_s": r.wall,
                    "errors": r.errors, "violation": rp,
                    "labels": r.reach.iter().map(|(l, c, s)| serde_json::json!([l, c, s])).collect::<Vec<_>>(),
                }));
            }
            std::fs::write(&out, serde_json::to_string_pretty(&serde_json::Value::Array(js)).unwrap()).unwrap();
            std::process::exit(if rs.iter().any(|r| r.violation.is_some()) { 1 } else if worst == 2 { 2 } else { 0 })
        }
        _ => {
            eprintln!("usage: run|replay|list");
            std::process::exit(2)
        }
    }
}
