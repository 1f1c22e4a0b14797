//! The symbolic execution engine: expression arena, path forking, normal forms, SMT emission, replay.
use crate::smt::{Answer, Solver};
use std::any::TypeId;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;
use std::time::Instant;

pub type L = [u64; 4];

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_i32(&mut self, v: i32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// What the engine needs to know about one prime field (elements in the field's internal representation).
#[derive(Clone)]
pub struct FieldInfo {
    pub ty: TypeId,
    pub modulus_dec: String,
    pub half: L,
    pub modulus: L,
    pub toy: Option<u64>,
    pub zero: L,
    pub one: L,
    pub add: fn(L, L) -> L,
    pub mul: fn(L, L) -> L,
    pub neg: fn(L) -> L,
    pub inv: fn(L) -> L,
    pub canon: fn(L) -> L,
    pub of_canon: fn(L) -> L,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var(u32),
    Cst(L),
    Add(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Inv(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub f: u8,
    pub op: Op,
}

/// Formulas over equalities of field elements (arena nodes).
#[derive(Clone, Debug)]
pub enum Fml {
    B(bool),
    Eq(u32, u32),
    Not(Rc<Fml>),
    And(Vec<Fml>),
    Or(Vec<Fml>),
}
impl Fml {
    pub fn not(self) -> Fml {
        match self {
            Fml::B(b) => Fml::B(!b),
            Fml::Not(x) => (*x).clone(),
            x => Fml::Not(Rc::new(x)),
        }
    }
    pub fn and(self, o: Fml) -> Fml {
        Fml::all(vec![self, o])
    }
    pub fn or(self, o: Fml) -> Fml {
        Fml::any(vec![self, o])
    }
    pub fn implies(self, o: Fml) -> Fml {
        self.not().or(o)
    }
    pub fn iff(self, o: Fml) -> Fml {
        self.clone().implies(o.clone()).and(o.implies(self))
    }
    pub fn all(v: impl IntoIterator<Item = Fml>) -> Fml {
        let mut r = vec![];
        for x in v {
            match x {
                Fml::B(true) => {}
                Fml::B(false) => return Fml::B(false),
                Fml::And(y) => r.extend(y),
                x => r.push(x),
            }
        }
        match r.len() {
            0 => Fml::B(true),
            1 => r.pop().unwrap(),
            _ => Fml::And(r),
        }
    }
    pub fn any(v: impl IntoIterator<Item = Fml>) -> Fml {
        let mut r = vec![];
        for x in v {
            match x {
                Fml::B(false) => {}
                Fml::B(true) => return Fml::B(true),
                Fml::Or(y) => r.extend(y),
                x => r.push(x),
            }
        }
        match r.len() {
            0 => Fml::B(false),
            1 => r.pop().unwrap(),
            _ => Fml::Or(r),
        }
    }
    fn roots(&self, out: &mut Vec<u32>) {
        match self {
            Fml::B(_) => {}
            Fml::Eq(a, b) => out.extend([*a, *b]),
            Fml::Not(x) => x.roots(out),
            Fml::And(v) | Fml::Or(v) => v.iter().for_each(|x| x.roots(out)),
        }
    }
}

pub type Mono = Vec<(u32, i32)>;
pub type Poly = FxMap<Mono, L>;
const INV_ATOM: u32 = 1 << 30;
/// products of two non-constant expressions, when products are opaque
const UF_ATOM: u32 = 1 << 29;
const TERM_CAP: usize = 400_000;

#[derive(Clone, Default)]
pub struct Model {
    pub vars: BTreeMap<String, L>, // canonical integers
    pub choices: Vec<u32>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub obligations: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub by_fold: u64,
    pub by_normal_form: u64,
    pub raw_unsat: u64,
    /// too large to normalise; equal at every sampled point, not counted as discharged
    pub undecided: u64,
    pub solver_ms: f64,
    pub max_nodes: usize,
    pub max_vars: usize,
    pub nat_checks: u64,
}

pub struct Violation {
    pub label: String,
    pub detail: String,
    pub model: Model,
}

/// Labels and whether some path reached them with satisfiable hypotheses.
#[derive(Clone, Copy, Default)]
pub struct Reach {
    pub count: u64,
    pub sat: bool,
}

pub struct Eng {
    pub nodes: Vec<Node>,
    cons: FxMap<Node, u32>,
    pub fields: Vec<FieldInfo>,
    pub var_names: Vec<(String, u8)>,
    name_count: HashMap<String, u32>,
    bind: Vec<Option<u32>>,
    pub prefix: Vec<(u32, u32)>,
    pub pos: usize,
    pub choices: Vec<u32>,
    pub pc: Vec<Fml>,
    known: HashMap<Vec<(Mono, L)>, bool>,
    memo: FxMap<u32, Rc<Poly>>,
    pub inv_atoms: Vec<(u8, Rc<Poly>)>,
    uf_atoms: Vec<(u32, u32, Rc<Poly>, Rc<Poly>)>,
    uf_index: HashMap<(u8, Vec<(Mono, L)>, Vec<(Mono, L)>), u32>,
    /// products of non-constant expressions are an uninterpreted commutative function of their normal forms
    pub uf: bool,
    pub given: bool,
    pub toy: bool,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub reach: BTreeMap<String, Reach>,
    pub solver: Solver,
    pub timeout_ms: u64,
    pub seed: u64,
    feas_cache: HashMap<(Vec<(u32, u32)>, bool), bool>,
    pub fork_reasons: BTreeMap<String, u64>,
    /// undetermined comparisons are taken to be inequalities (a recorded hypothesis of the path)
    pub generic: bool,
    /// bytes of symbolic values are those of a fixed sample point (an opaque function of the value)
    pub opaque: bool,
    /// values at the sample point so far
    pub omemo: FxMap<u32, L>,
    /// sample points of the current path (generic mode) with the values of the nodes evaluated so far
    points: Vec<(Vec<L>, FxMap<u32, L>)>,
}

pub struct PathEnd;

impl Eng {
    pub fn new(toy: bool, timeout_ms: u64) -> Self {
        Eng {
            nodes: vec![],
            cons: Default::default(),
            fields: vec![],
            var_names: vec![],
            name_count: Default::default(),
            bind: vec![],
            prefix: vec![],
            pos: 0,
            choices: vec![],
            pc: vec![],
            known: Default::default(),
            memo: Default::default(),
            inv_atoms: vec![],
            uf_atoms: vec![],
            uf_index: Default::default(),
            uf: false,
            given: false,
            toy,
            stats: Default::default(),
            violations: vec![],
            errors: vec![],
            reach: Default::default(),
            solver: Solver::new(),
            timeout_ms,
            seed: 1,
            feas_cache: Default::default(),
            fork_reasons: Default::default(),
            generic: false,
            opaque: false,
            omemo: FxMap::default(),
            points: vec![],
        }
    }
    pub fn reset_path(&mut self) {
        self.stats.max_nodes = self.stats.max_nodes.max(self.nodes.len());
        self.stats.max_vars = self.stats.max_vars.max(self.var_names.len());
        self.nodes.clear();
        self.cons.clear();
        self.var_names.clear();
        self.name_count.clear();
        self.bind.clear();
        self.pos = 0;
        self.choices.clear();
        self.pc.clear();
        self.known.clear();
        self.memo.clear();
        self.inv_atoms.clear();
        self.uf_atoms.clear();
        self.uf_index.clear();
        self.uf = false;
        self.given = false;
        self.generic = false;
        self.opaque = false;
        self.omemo.clear();
        self.points.clear();
    }
    /// Moves to the next unexplored path; false when all have been explored.
    pub fn advance(&mut self) -> bool {
        self.prefix.truncate(self.pos);
        while let Some((v, n)) = self.prefix.pop() {
            if v + 1 < n {
                self.prefix.push((v + 1, n));
                return true;
            }
        }
        false
    }
    fn next_decision(&mut self, n: u32) -> u32 {
        if self.pos == self.prefix.len() {
            self.prefix.push((0, n));
        }
        let (v, m) = self.prefix[self.pos];
        assert_eq!(m, n, "non-deterministic harness");
        self.pos += 1;
        v
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        if n == 1 {
            return 0;
        }
        let v = self.next_decision(n);
        self.choices.push(v);
        v
    }
    pub fn field_id(&mut self, ty: TypeId, mk: impl FnOnce() -> FieldInfo) -> u8 {
        if let Some(i) = self.fields.iter().position(|f| f.ty == ty) {
            return i as u8;
        }
        let info = mk();
        assert_eq!(info.toy.is_some(), self.toy, "field kind does not match the mode");
        self.fields.push(info);
        (self.fields.len() - 1) as u8
    }
    pub fn unique_name(count: &mut HashMap<String, u32>, name: &str) -> String {
        let c = count.entry(name.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 {
            name.to_string()
        } else {
            format!("{name}#{c}")
        }
    }
    pub fn var(&mut self, f: u8, name: &str) -> u32 {
        let n = Self::unique_name(&mut self.name_count, name);
        let i = self.var_names.len() as u32;
        self.var_names.push((n, f));
        self.bind.push(None);
        self.mk(f, Op::Var(i))
    }
    pub fn mk(&mut self, f: u8, op: Op) -> u32 {
        let n = Node { f, op };
        if let Some(i) = self.cons.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.cons.insert(n, i);
        i
    }
    pub fn cst(&mut self, f: u8, v: L) -> u32 {
        self.mk(f, Op::Cst(v))
    }
    pub fn as_cst(&self, n: u32) -> Option<L> {
        match self.nodes[n as usize].op {
            Op::Cst(v) => Some(v),
            _ => None,
        }
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        let f = self.nodes[a as usize].f;
        debug_assert_eq!(f, self.nodes[b as usize].f);
        let fi = &self.fields[f as usize];
        let (zero, addf) = (fi.zero, fi.add);
        match (self.as_cst(a), self.as_cst(b)) {
            (Some(x), Some(y)) => return self.cst(f, addf(x, y)),
            (Some(x), None) if x == zero => return b,
            (None, Some(y)) if y == zero => return a,
            _ => {}
        }
        if self.nodes[a as usize].op == Op::Neg(b) || self.nodes[b as usize].op == Op::Neg(a) {
            return self.cst(f, zero);
        }
        self.mk(f, Op::Add(a.min(b), a.max(b)))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        let f = self.nodes[a as usize].f;
        match self.nodes[a as usize].op {
            Op::Cst(v) => {
                let v = (self.fields[f as usize].neg)(v);
                self.cst(f, v)
            }
            Op::Neg(x) => x,
            _ => self.mk(f, Op::Neg(a)),
        }
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        let f = self.nodes[a as usize].f;
        debug_assert_eq!(f, self.nodes[b as usize].f);
        let fi = &self.fields[f as usize];
        let (zero, one, mulf, neg) = (fi.zero, fi.one, fi.mul, fi.neg);
        match (self.as_cst(a), self.as_cst(b)) {
            (Some(x), Some(y)) => return self.cst(f, mulf(x, y)),
            (Some(x), None) | (None, Some(x)) => {
                let o = if self.as_cst(a).is_some() { b } else { a };
                if x == zero {
                    return self.cst(f, zero);
                }
                if x == one {
                    return o;
                }
                if x == neg(one) {
                    return self.neg(o);
                }
            }
            _ => {}
        }
        if self.nodes[a as usize].op == Op::Inv(b) || self.nodes[b as usize].op == Op::Inv(a) {
            // inverses are only built under the assumption that the operand is not zero
            return self.cst(f, one);
        }
        self.mk(f, Op::Mul(a.min(b), a.max(b)))
    }
    pub fn inv(&mut self, a: u32) -> u32 {
        let f = self.nodes[a as usize].f;
        match self.nodes[a as usize].op {
            Op::Cst(v) => {
                let v = (self.fields[f as usize].inv)(v);
                self.cst(f, v)
            }
            Op::Inv(x) => x,
            _ => self.mk(f, Op::Inv(a)),
        }
    }
    pub fn eqf(&mut self, a: u32, b: u32) -> Fml {
        if a == b {
            return Fml::B(true);
        }
        if let (Some(x), Some(y)) = (self.as_cst(a), self.as_cst(b)) {
            return Fml::B(x == y);
        }
        Fml::Eq(a, b)
    }

    // ---------------------------------------------------------------- normal forms

    fn mono_mul(a: &Mono, b: &Mono) -> Mono {
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                r.push(b[j]);
                j += 1;
            } else {
                let e = a[i].1 + b[j].1;
                if e != 0 {
                    r.push((a[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        r
    }
    fn poly_acc(fi: &FieldInfo, p: &mut Poly, m: Mono, c: L) {
        use std::collections::hash_map::Entry;
        match p.entry(m) {
            Entry::Occupied(mut e) => {
                let v = (fi.add)(*e.get(), c);
                if v == fi.zero {
                    e.remove();
                } else {
                    e.insert(v);
                }
            }
            Entry::Vacant(e) => {
                if c != fi.zero {
                    e.insert(c);
                }
            }
        }
    }
    fn poly_mul(fi: &FieldInfo, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.len().saturating_mul(b.len()) > TERM_CAP * 8 {
            return None;
        }
        let mut r = Poly::default();
        for (m, c) in a {
            for (n, d) in b {
                Self::poly_acc(fi, &mut r, Self::mono_mul(m, n), (fi.mul)(*c, *d));
            }
        }
        if r.len() > TERM_CAP {
            return None;
        }
        Some(r)
    }
    fn poly_key(p: &Poly) -> Vec<(Mono, L)> {
        let mut v: Vec<_> = p.iter().map(|(m, c)| (m.clone(), *c)).collect();
        v.sort();
        v
    }
    /// Scaled so that the first monomial (in key order) has coefficient one.
    fn monic_key(fi: &FieldInfo, p: &Poly) -> (Vec<(Mono, L)>, L) {
        let mut v = Self::poly_key(p);
        let lead = v[0].1;
        let k = (fi.inv)(lead);
        for t in v.iter_mut() {
            t.1 = (fi.mul)(t.1, k);
        }
        (v, lead)
    }
    pub fn expand(&mut self, n: u32) -> Option<Rc<Poly>> {
        if let Some(p) = self.memo.get(&n) {
            return Some(p.clone());
        }
        let node = self.nodes[n as usize];
        let fi = self.fields[node.f as usize].clone();
        let r: Rc<Poly> = match node.op {
            Op::Cst(v) => {
                let mut p = Poly::default();
                Self::poly_acc(&fi, &mut p, vec![], v);
                Rc::new(p)
            }
            Op::Var(i) => match self.bind[i as usize] {
                Some(b) => self.expand(b)?,
                None => {
                    let mut p = Poly::default();
                    p.insert(vec![(i, 1)], fi.one);
                    Rc::new(p)
                }
            },
            Op::Add(a, b) => {
                let (x, y) = (self.expand(a)?, self.expand(b)?);
                let (big, small) = if x.len() >= y.len() { (x, y) } else { (y, x) };
                let mut p = (*big).clone();
                for (m, c) in small.iter() {
                    Self::poly_acc(&fi, &mut p, m.clone(), *c);
                }
                if p.len() > TERM_CAP {
                    return None;
                }
                Rc::new(p)
            }
            Op::Neg(a) => {
                let x = self.expand(a)?;
                Rc::new(x.iter().map(|(m, c)| (m.clone(), (fi.neg)(*c))).collect())
            }
            Op::Mul(a, b) => {
                let (x, y) = (self.expand(a)?, self.expand(b)?);
                let constant = |p: &Poly| p.is_empty() || (p.len() == 1 && p.contains_key(&vec![] as &Mono));
                if self.uf && !constant(&x) && !constant(&y) {
                    let (kx, ky) = (Self::poly_key(&x), Self::poly_key(&y));
                    let key = if kx <= ky { (node.f, kx, ky) } else { (node.f, ky, kx) };
                    let next = self.uf_atoms.len() as u32;
                    let k = *self.uf_index.entry(key).or_insert(next);
                    if k == next {
                        self.uf_atoms.push((a, b, x, y));
                    }
                    let mut p = Poly::default();
                    p.insert(vec![(UF_ATOM + k, 1)], fi.one);
                    Rc::new(p)
                } else {
                    Rc::new(Self::poly_mul(&fi, &x, &y)?)
                }
            }
            Op::Inv(a) => {
                let x = self.expand(a)?;
                let mut p = Poly::default();
                if x.is_empty() {
                    // inverse of zero: total function with value zero
                } else if x.len() == 1 {
                    let (m, c) = x.iter().next().unwrap();
                    p.insert(m.iter().map(|(v, e)| (*v, -*e)).collect(), (fi.inv)(*c));
                } else {
                    let (key, lead) = Self::monic_key(&fi, &x);
                    let q: Poly = key.into_iter().collect();
                    let k = match self.inv_atoms.iter().position(|(f, y)| *f == node.f && **y == q) {
                        Some(k) => k,
                        None => {
                            self.inv_atoms.push((node.f, Rc::new(q)));
                            self.inv_atoms.len() - 1
                        }
                    };
                    p.insert(vec![(INV_ATOM + k as u32, 1)], (fi.inv)(lead));
                }
                Rc::new(p)
            }
        };
        self.memo.insert(n, r.clone());
        Some(r)
    }
    /// Multiplies by powers of the (non-zero) denominators until no inverse is left.
    fn clear(&mut self, fi: &FieldInfo, p: Poly) -> Option<Poly> {
        let mut p = p;
        loop {
            let top = p.keys().flat_map(|m| m.iter().map(|(v, _)| *v)).filter(|v| *v >= INV_ATOM).max();
            let Some(at) = top else { break };
            let q = self.inv_atoms[(at - INV_ATOM) as usize].1.clone();
            let exp = |m: &Mono| m.iter().find(|(v, _)| *v == at).map(|x| x.1).unwrap_or(0);
            let e = p.keys().map(exp).max().unwrap().max(0);
            let lo = p.keys().map(exp).min().unwrap();
            let mut pw: Vec<Poly> = vec![];
            let mut one = Poly::default();
            one.insert(vec![], fi.one);
            pw.push(one);
            for i in 0..(e - lo) as usize {
                let n = Self::poly_mul(fi, &pw[i], &q)?;
                pw.push(n);
            }
            let mut groups: BTreeMap<i32, Poly> = BTreeMap::new();
            for (m, c) in p.iter() {
                let j = exp(m);
                let m2: Mono = m.iter().filter(|(v, _)| *v != at).cloned().collect();
                groups.entry(j).or_default().insert(m2, *c);
            }
            let mut r = Poly::default();
            for (j, g) in groups {
                let t = Self::poly_mul(fi, &g, &pw[(e - j) as usize])?;
                for (m, c) in t {
                    Self::poly_acc(fi, &mut r, m, c);
                }
            }
            p = r;
        }
        // negative powers of variables
        let mut low: BTreeMap<u32, i32> = BTreeMap::new();
        for m in p.keys() {
            for (v, e) in m {
                if *e < 0 {
                    let x = low.entry(*v).or_insert(0);
                    *x = (*x).min(*e);
                }
            }
        }
        if !low.is_empty() {
            let f: Mono = low.into_iter().map(|(v, e)| (v, -e)).collect();
            p = p.into_iter().map(|(m, c)| (Self::mono_mul(&m, &f), c)).collect();
        }
        Some(p)
    }
    pub fn diff_poly(&mut self, a: u32, b: u32) -> Option<Poly> {
        let f = self.nodes[a as usize].f;
        let fi = self.fields[f as usize].clone();
        let (x, y) = (self.expand(a)?, self.expand(b)?);
        let mut p = (*x).clone();
        for (m, c) in y.iter() {
            Self::poly_acc(&fi, &mut p, m.clone(), (fi.neg)(*c));
        }
        self.clear(&fi, p)
    }
    pub fn poly_to_node(&mut self, f: u8, p: &Poly) -> u32 {
        let fi = self.fields[f as usize].clone();
        let mut acc = self.cst(f, fi.zero);
        let key = Self::poly_key(p);
        for (m, c) in key {
            let mut t = self.cst(f, c);
            for (v, e) in m {
                let base = if v >= UF_ATOM && v < INV_ATOM {
                    let (a, b, _, _) = self.uf_atoms[(v - UF_ATOM) as usize];
                    self.mul(a, b)
                } else {
                    self.mk(f, Op::Var(v))
                };
                let base = if e < 0 { self.inv(base) } else { base };
                for _ in 0..e.unsigned_abs() {
                    t = self.mul(t, base);
                }
            }
            acc = self.add(acc, t);
        }
        acc
    }
    pub fn const_value(&mut self, n: u32) -> Option<L> {
        if let Some(v) = self.as_cst(n) {
            return Some(v);
        }
        let p = self.expand(n)?;
        let f = self.nodes[n as usize].f as usize;
        match p.len() {
            0 => Some(self.fields[f].zero),
            1 => p.get(&vec![] as &Mono).copied(),
            _ => None,
        }
    }

    // ---------------------------------------------------------------- evaluation

    /// Evaluates a node under values for the variables (internal representation).
    pub fn eval(&self, n: u32, vals: &[L], memo: &mut FxMap<u32, L>) -> L {
        if let Some(v) = memo.get(&n) {
            return *v;
        }
        let node = self.nodes[n as usize];
        let fi = &self.fields[node.f as usize];
        let r = match node.op {
            Op::Cst(v) => v,
            Op::Var(i) => match self.bind[i as usize] {
                Some(b) => self.eval(b, vals, memo),
                None => vals[i as usize],
            },
            Op::Add(a, b) => (fi.add)(self.eval(a, vals, memo), self.eval(b, vals, memo)),
            Op::Mul(a, b) => (fi.mul)(self.eval(a, vals, memo), self.eval(b, vals, memo)),
            Op::Neg(a) => (fi.neg)(self.eval(a, vals, memo)),
            Op::Inv(a) => (fi.inv)(self.eval(a, vals, memo)),
        };
        memo.insert(n, r);
        r
    }
    pub fn eval_fml(&self, x: &Fml, vals: &[L], memo: &mut FxMap<u32, L>) -> bool {
        match x {
            Fml::B(b) => *b,
            Fml::Eq(a, b) => self.eval(*a, vals, memo) == self.eval(*b, vals, memo),
            Fml::Not(y) => !self.eval_fml(y, vals, memo),
            Fml::And(v) => v.iter().all(|y| self.eval_fml(y, vals, memo)),
            Fml::Or(v) => v.iter().any(|y| self.eval_fml(y, vals, memo)),
        }
    }
    fn model_of(&self, vals: &[L]) -> Model {
        let mut memo = FxMap::default();
        let mut m = Model { vars: BTreeMap::new(), choices: self.choices.clone() };
        for (i, (name, f)) in self.var_names.iter().enumerate() {
            let v = match self.bind[i] {
                Some(b) => self.eval(b, vals, &mut memo),
                None => vals[i],
            };
            m.vars.insert(name.clone(), (self.fields[*f as usize].canon)(v));
        }
        m
    }
    fn rnd(&mut self) -> u64 {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        self.seed
    }
    fn random_vals(&mut self, k: usize) -> Vec<L> {
        let n = self.var_names.len();
        (0..n)
            .map(|i| {
                let f = self.var_names[i].1 as usize;
                let r = self.rnd();
                let v = match k % 4 {
                    0 => 2 + r % 1000,
                    1 => r % 3,
                    _ => r,
                };
                let v = match self.fields[f].toy {
                    Some(p) => r % p,
                    None => v,
                };
                (self.fields[f].of_canon)([v, 0, 0, 0])
            })
            .collect()
    }
    /// A concrete assignment under which all of `hyps` hold (Z-mode: by random witness).
    fn find_random(&mut self, hyps: &[Fml]) -> Option<Model> {
        for k in 0..60 {
            let vals = self.random_vals(k);
            let mut memo = FxMap::default();
            if hyps.iter().all(|h| self.eval_fml(h, &vals, &mut memo)) {
                return Some(self.model_of(&vals));
            }
        }
        None
    }

    // ---------------------------------------------------------------- SMT

    fn lit(&self, f: u8, v: L) -> String {
        let fi = &self.fields[f as usize];
        let c = (fi.canon)(v);
        if let Some(p) = fi.toy {
            return format!("(_ bv{} {})", c[0], Self::width(p));
        }
        if gt(&c, &fi.half) {
            format!("(- {})", dec(&sub(&fi.modulus, &c)))
        } else {
            dec(&c)
        }
    }
    fn width(p: u64) -> u32 {
        2 * (64 - p.leading_zeros())
    }
    fn order(&self, roots: &[u32]) -> Vec<u32> {
        let mut seen: FxMap<u32, ()> = FxMap::default();
        let mut out = vec![];
        let mut st: Vec<(u32, bool)> = roots.iter().map(|r| (*r, false)).collect();
        while let Some((n, done)) = st.pop() {
            if done {
                out.push(n);
                continue;
            }
            if seen.insert(n, ()).is_some() {
                continue;
            }
            st.push((n, true));
            match self.nodes[n as usize].op {
                Op::Add(a, b) | Op::Mul(a, b) => {
                    st.push((a, false));
                    st.push((b, false));
                }
                Op::Neg(a) | Op::Inv(a) => st.push((a, false)),
                Op::Var(i) => {
                    if let Some(b) = self.bind[i as usize] {
                        st.push((b, false))
                    }
                }
                Op::Cst(_) => {}
            }
        }
        out
    }
    fn emit_fml(&self, x: &Fml, s: &mut String) {
        match x {
            Fml::B(b) => s.push_str(if *b { "true" } else { "false" }),
            Fml::Eq(a, b) => s.push_str(&format!("(= n{a} n{b})")),
            Fml::Not(y) => {
                s.push_str("(not ");
                self.emit_fml(y, s);
                s.push(')');
            }
            Fml::And(v) | Fml::Or(v) => {
                s.push_str(if matches!(x, Fml::And(_)) { "(and" } else { "(or" });
                for y in v {
                    s.push(' ');
                    self.emit_fml(y, s);
                }
                s.push(')');
            }
        }
    }
    /// The script asserting all of `fs`; None when it cannot be expressed (an inverse in Z-mode).
    fn script(&self, fs: &[Fml]) -> Option<(String, Vec<u32>)> {
        let mut roots = vec![];
        fs.iter().for_each(|f| f.roots(&mut roots));
        let ord = self.order(&roots);
        let mut s = String::new();
        let mut vars = vec![];
        let mut inv_done: Vec<u64> = vec![];
        for n in ord {
            let node = self.nodes[n as usize];
            let fi = &self.fields[node.f as usize];
            let sort = match fi.toy {
                Some(p) => format!("(_ BitVec {})", Self::width(p)),
                None => "Int".into(),
            };
            let body = match (node.op, fi.toy) {
                (Op::Var(i), t) => match self.bind[i as usize] {
                    Some(b) => format!("n{b}"),
                    None => {
                        vars.push(i);
                        s.push_str(&format!("(declare-const v{i} {sort})\n"));
                        if let Some(p) = t {
                            s.push_str(&format!("(assert (bvult v{i} (_ bv{p} {})))\n", Self::width(p)));
                        }
                        format!("v{i}")
                    }
                },
                (Op::Cst(v), _) => self.lit(node.f, v),
                (Op::Add(a, b), Some(p)) => {
                    let w = Self::width(p);
                    format!("(let ((s (bvadd n{a} n{b}))) (ite (bvuge s (_ bv{p} {w})) (bvsub s (_ bv{p} {w})) s))")
                }
                (Op::Mul(a, b), Some(p)) => {
                    format!("(bvurem (bvmul n{a} n{b}) (_ bv{p} {}))", Self::width(p))
                }
                (Op::Neg(a), Some(p)) => {
                    let w = Self::width(p);
                    format!("(ite (= n{a} (_ bv0 {w})) (_ bv0 {w}) (bvsub (_ bv{p} {w}) n{a}))")
                }
                (Op::Inv(a), Some(p)) => {
                    let w = Self::width(p);
                    if !inv_done.contains(&p) {
                        inv_done.push(p);
                        let mut t = format!("(_ bv0 {w})");
                        for x in 1..p {
                            let c = (fi.canon)((fi.inv)((fi.of_canon)([x, 0, 0, 0])))[0];
                            t = format!("(ite (= x (_ bv{x} {w})) (_ bv{c} {w}) {t})");
                        }
                        s.push_str(&format!("(define-fun inv{p} ((x {sort})) {sort} {t})\n"));
                    }
                    format!("(inv{p} n{a})")
                }
                (Op::Add(a, b), None) => format!("(+ n{a} n{b})"),
                (Op::Mul(a, b), None) => format!("(* n{a} n{b})"),
                (Op::Neg(a), None) => format!("(- n{a})"),
                (Op::Inv(_), None) => return None,
            };
            s.push_str(&format!("(define-fun n{n} () {sort} {body})\n"));
        }
        for f in fs {
            s.push_str("(assert ");
            self.emit_fml(f, &mut s);
            s.push_str(")\n");
        }
        Some((s, vars))
    }
    fn ask(&mut self, script: &str, vars: &[u32], ms: u64) -> Answer {
        let t = Instant::now();
        let names: Vec<String> = vars.iter().map(|v| format!("v{v}")).collect();
        let r = self.solver.check(script, &names, ms);
        self.stats.solver_ms += t.elapsed().as_secs_f64() * 1000.0;
        self.stats.queries += 1;
        match &r {
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
    fn vals_from(&self, vars: &[u32], m: &[L]) -> Vec<L> {
        let mut v: Vec<L> = (0..self.var_names.len()).map(|i| self.fields[self.var_names[i].1 as usize].zero).collect();
        for (i, x) in vars.iter().zip(m) {
            v[*i as usize] = (self.fields[self.var_names[*i as usize].1 as usize].of_canon)(*x);
        }
        v
    }
    /// Toy mode: is the conjunction satisfiable?
    fn toy_sat(&mut self, fs: &[Fml], ms: u64) -> Result<Option<Model>, String> {
        if fs.iter().any(|f| matches!(f, Fml::B(false))) {
            return Ok(None);
        }
        let (s, vars) = self.script(fs).unwrap();
        match self.ask(&s, &vars, ms) {
            Answer::Unsat => Ok(None),
            Answer::Sat(m) => {
                let vals = self.vals_from(&vars, &m);
                let mut memo = FxMap::default();
                if !fs.iter().all(|f| self.eval_fml(f, &vals, &mut memo)) {
                    return Err("solver model does not satisfy the query".into());
                }
                Ok(Some(self.model_of(&vals)))
            }
            Answer::Unknown(w) => Err(format!("solver answered unknown ({w})")),
        }
    }

    // ---------------------------------------------------------------- branching

    /// Records an assumption. Returns false if the path is infeasible.
    pub fn assume(&mut self, f: Fml) -> bool {
        match f {
            Fml::B(b) => b,
            Fml::And(v) => v.into_iter().all(|x| self.assume(x)),
            f => {
                if self.toy {
                    self.pc.push(f);
                    let pc = self.pc.clone();
                    match self.toy_sat(&pc, self.timeout_ms) {
                        Ok(None) => false,
                        Ok(Some(_)) => true,
                        Err(e) => {
                            self.errors.push(format!("assume: {e}"));
                            true
                        }
                    }
                } else {
                    match f {
                        Fml::Eq(a, b) => self.assume_eq(a, b),
                        Fml::Not(x) => {
                            if let Fml::Eq(a, b) = *x {
                                self.assume_neq(a, b)
                            } else {
                                self.pc.push(Fml::Not(x));
                                true
                            }
                        }
                        f => {
                            self.pc.push(f);
                            true
                        }
                    }
                }
            }
        }
    }
    fn assume_neq(&mut self, a: u32, b: u32) -> bool {
        let f = self.nodes[a as usize].f as usize;
        if let Some(p) = self.diff_poly(a, b) {
            if p.is_empty() {
                return false;
            }
            let fi = self.fields[f].clone();
            let (k, _) = Self::monic_key(&fi, &p);
            if self.known.get(&k) == Some(&true) {
                return false;
            }
            self.known.insert(k, false);
        }
        self.pc.push(Fml::Not(Rc::new(Fml::Eq(a, b))));
        true
    }
    fn assume_eq(&mut self, a: u32, b: u32) -> bool {
        let f = self.nodes[a as usize].f;
        let fi = self.fields[f as usize].clone();
        let Some(p) = self.diff_poly(a, b) else {
            self.pc.push(Fml::Eq(a, b));
            return true;
        };
        if p.is_empty() {
            return true;
        }
        if p.len() == 1 && p.contains_key(&vec![] as &Mono) {
            return false;
        }
        // a variable with a constant coefficient that occurs nowhere else
        let mut cand: Option<u32> = None;
        let inside = self.inside_atoms(&p);
        for (m, _) in p.iter() {
            if m.len() == 1 && m[0].1 == 1 && m[0].0 < UF_ATOM && !inside.contains(&m[0].0) {
                let v = m[0].0;
                let occ = p.keys().filter(|k| k.iter().any(|x| x.0 == v)).count();
                if occ == 1 && cand.map_or(true, |c| v > c) {
                    cand = Some(v);
                }
            }
        }
        if let Some(v) = cand {
            let c = p[&vec![(v, 1)]];
            let k = (fi.neg)((fi.inv)(c));
            let rest: Poly =
                p.iter().filter(|(m, _)| **m != vec![(v, 1)]).map(|(m, c)| (m.clone(), (fi.mul)(*c, k))).collect();
            let n = self.poly_to_node(f, &rest);
            return self.bind_var(v, n);
        }
        // a product of a variable occurring nowhere else with variables that cannot be zero
        let mut cand: Option<(u32, Mono)> = None;
        let mut nonzero: Vec<u32> = vec![];
        'terms: for m in p.keys() {
            if self.uf {
                break;
            }
            let Some(&(v, _)) = m.iter().filter(|x| x.1 == 1).max() else { continue };
            if m.len() < 2 || v >= INV_ATOM || p.keys().filter(|k| k.iter().any(|x| x.0 == v)).count() != 1 {
                continue;
            }
            let others: Vec<u32> = m.iter().map(|x| x.0).filter(|x| *x != v).collect();
            let implied = p.len() == 2 && p.contains_key(&vec![] as &Mono);
            for &o in &others {
                if o >= INV_ATOM {
                    continue 'terms;
                }
                let one: Poly = [(vec![(o, 1)], fi.one)].into_iter().collect();
                let (k, _) = Self::monic_key(&fi, &one);
                if self.known.get(&k) != Some(&false) && !implied {
                    continue 'terms;
                }
            }
            nonzero = if implied { others } else { vec![] };
            cand = Some((v, m.clone()));
            break;
        }
        if let Some((v, m)) = cand {
            for o in nonzero {
                let one: Poly = [(vec![(o, 1)], fi.one)].into_iter().collect();
                let (n, z) = (self.poly_to_node(f, &one), self.cst(f, fi.zero));
                if !self.assume_neq(n, z) {
                    return false;
                }
            }
            let k = (fi.neg)((fi.inv)(p[&m]));
            let rest: Poly = p.iter().filter(|(t, _)| **t != m).map(|(t, c)| (t.clone(), (fi.mul)(*c, k))).collect();
            let n = self.poly_to_node(f, &rest);
            let den: Poly = [(m.iter().copied().filter(|x| x.0 != v).collect::<Mono>(), fi.one)].into_iter().collect();
            let d = self.poly_to_node(f, &den);
            let d = self.inv(d);
            let n = self.mul(n, d);
            return self.bind_var(v, n);
        }
        // linear in a variable, whose factor cannot be zero: the rest is a non-zero constant, or the factor is known not to be
        if !self.uf {
            let mut vs: Vec<u32> = p.keys().flat_map(|m| m.iter().filter(|x| x.1 == 1 && x.0 < UF_ATOM).map(|x| x.0)).collect();
            vs.sort();
            vs.dedup();
            for v in vs.into_iter().rev() {
                if inside.contains(&v) || p.keys().any(|m| m.iter().any(|x| x.0 == v && x.1 > 1)) {
                    continue;
                }
                let (mut q, mut r) = (Poly::default(), Poly::default());
                for (m, c) in p.iter() {
                    if m.iter().any(|x| x.0 == v) {
                        q.insert(m.iter().copied().filter(|x| x.0 != v).collect(), *c);
                    } else {
                        r.insert(m.clone(), *c);
                    }
                }
                let implied = r.len() == 1 && r.contains_key(&vec![] as &Mono);
                let (k, _) = Self::monic_key(&fi, &q);
                let known = self.known.get(&k) == Some(&false);
                if !implied && !known {
                    break;
                }
                let n = self.poly_to_node(f, &q);
                if !known {
                    let z = self.cst(f, fi.zero);
                    if !self.assume_neq(n, z) {
                        return false;
                    }
                }
                let n = self.inv(n);
                let r = r.iter().map(|(t, c)| (t.clone(), (fi.neg)(*c))).collect();
                let r = self.poly_to_node(f, &r);
                let n = self.mul(r, n);
                return self.bind_var(v, n);
            }
        }
        let (k, _) = Self::monic_key(&fi, &p);
        if self.known.get(&k) == Some(&false) {
            return false;
        }
        self.known.insert(k, true);
        self.pc.push(Fml::Eq(a, b));
        true
    }
    /// The variables below the opaque products of a normal form.
    fn inside_atoms(&self, p: &Poly) -> std::collections::HashSet<u32> {
        let mut out = std::collections::HashSet::new();
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<u32> = p.keys().flat_map(|m| m.iter().map(|x| x.0)).filter(|v| *v >= UF_ATOM).collect();
        while let Some(v) = todo.pop() {
            if !seen.insert(v) {
                continue;
            }
            let ps: Vec<Rc<Poly>> = if v >= INV_ATOM {
                vec![self.inv_atoms[(v - INV_ATOM) as usize].1.clone()]
            } else {
                let (_, _, x, y) = &self.uf_atoms[(v - UF_ATOM) as usize];
                vec![x.clone(), y.clone()]
            };
            for q in ps {
                for m in q.keys() {
                    for (w, _) in m {
                        if *w >= UF_ATOM {
                            todo.push(*w);
                        } else {
                            out.insert(*w);
                        }
                    }
                }
            }
        }
        out
    }
    /// Replaces a variable by an expression from here on.
    fn bind_var(&mut self, v: u32, n: u32) -> bool {
        self.omemo.clear();
        self.bind[v as usize] = Some(n);
        self.memo.clear();
        self.points.clear();
        self.inv_atoms.clear();
        self.uf_atoms.clear();
        self.uf_index.clear();
        // facts known so far are in terms of the old normal forms: recompute
        self.known.clear();
        let mut solved: Option<(u32, u32)> = None;
        let pc = self.pc.clone();
        for x in &pc {
            if let Fml::Eq(a, b) = x {
                match self.diff_poly(*a, *b) {
                    Some(p) if p.is_empty() => {}
                    Some(p) if p.len() == 1 && p.contains_key(&vec![] as &Mono) => return false,
                    Some(p) => {
                        let g = self.fields[self.nodes[*a as usize].f as usize].clone();
                        let (k, _) = Self::monic_key(&g, &p);
                        if self.known.get(&k) == Some(&false) {
                            return false;
                        }
                        self.known.insert(k, true);
                        // what is left of it gives a variable its value
                        let lin = p.keys().find(|m| m.len() == 1 && m[0].1 == 1 && m[0].0 < UF_ATOM).map(|m| m[0].0);
                        if let (Some(w), true) = (lin, p.keys().filter(|m| !m.is_empty()).count() == 1) {
                            let k = (g.neg)((g.inv)(p[&vec![(w, 1)]]));
                            let c = p.get(&vec![] as &Mono).copied().unwrap_or(g.zero);
                            solved = Some((w, self.cst(self.nodes[*a as usize].f, (g.mul)(c, k))));
                        }
                    }
                    None => {}
                }
            }
            if let Fml::Not(y) = x {
                if let Fml::Eq(a, b) = **y {
                    match self.diff_poly(a, b) {
                        Some(p) if p.is_empty() => return false,
                        Some(p) => {
                            let g = self.fields[self.nodes[a as usize].f as usize].clone();
                            let (k, _) = Self::monic_key(&g, &p);
                            self.known.insert(k, false);
                        }
                        None => {}
                    }
                }
            }
        }
        match solved {
            Some((w, n)) => self.bind_var(w, n),
            None => true,
        }
    }

    /// Branches on an equality of field elements. Err(PathEnd) when this path cannot be continued.
    pub fn decide_eq(&mut self, a: u32, b: u32) -> Result<bool, PathEnd> {
        match self.eqf(a, b) {
            Fml::B(v) => return Ok(v),
            _ => {}
        }
        let f = self.nodes[a as usize].f;
        let fi = self.fields[f as usize].clone();
        if self.generic && !self.toy {
            // identically equal expressions agree everywhere; anything else is taken to differ
            let mut same = true;
            let mut pts = std::mem::take(&mut self.points);
            if pts.is_empty() {
                pts = vec![Default::default(); 3];
            }
            for (vals, memo) in &mut pts {
                let more = self.random_vals(2);
                vals.extend(more.into_iter().skip(vals.len()));
                if self.eval(a, vals, memo) != self.eval(b, vals, memo) {
                    same = false;
                    break;
                }
            }
            self.points = pts;
            if !same {
                self.pc.push(Fml::Not(Rc::new(Fml::Eq(a, b))));
            }
            return Ok(same);
        }
        let poly = self.diff_poly(a, b);
        if let Some(p) = &poly {
            if p.is_empty() {
                return Ok(true);
            }
            if p.len() == 1 {
                let (m, _) = p.iter().next().unwrap();
                if m.is_empty() {
                    return Ok(false);
                }
                if (m.len() > 1 || m[0].1 > 1) && m.iter().all(|x| x.0 < UF_ATOM) {
                    // a product of powers of variables is zero iff one of them is
                    let vs: Vec<u32> = m.iter().map(|x| x.0).collect();
                    for v in vs {
                        let n = self.mk(f, Op::Var(v));
                        let z = self.cst(f, fi.zero);
                        if self.decide_eq(n, z)? {
                            return Ok(true);
                        }
                    }
                    return Ok(false);
                }
            }
            let (k, _) = Self::monic_key(&fi, p);
            if let Some(v) = self.known.get(&k) {
                return Ok(*v);
            }
        }
        if self.toy {
            let eq = Fml::Eq(a, b);
            let mut feas = [true; 2];
            for (i, f) in [eq.clone().not(), eq.clone()].into_iter().enumerate() {
                let key = (self.prefix[..self.pos].to_vec(), i == 1);
                let key = (key.0.into_iter().chain([(a, b)]).collect::<Vec<_>>(), key.1);
                feas[i] = match self.feas_cache.get(&key) {
                    Some(v) => *v,
                    None => {
                        let mut pc = self.pc.clone();
                        pc.push(f);
                        let r = match self.toy_sat(&pc, self.timeout_ms) {
                            Ok(x) => x.is_some(),
                            Err(e) => {
                                self.errors.push(format!("branch: {e}"));
                                true
                            }
                        };
                        self.feas_cache.insert(key, r);
                        r
                    }
                };
            }
            let v = match feas {
                [true, true] => self.next_decision(2) == 1,
                [true, false] => false,
                [false, true] => true,
                _ => return Err(PathEnd),
            };
            self.pc.push(if v { eq } else { eq.not() });
            if let Some(p) = &poly {
                let (k, _) = Self::monic_key(&fi, p);
                self.known.insert(k, v);
            }
            return Ok(v);
        }
        let v = self.next_decision(2) == 1;
        let ok = if v { self.assume_eq(a, b) } else { self.assume_neq(a, b) };
        if !ok {
            return Err(PathEnd);
        }
        Ok(v)
    }

    // ---------------------------------------------------------------- obligations

    fn norm_script(&mut self, a: u32, b: u32) -> Option<(String, bool)> {
        let f = self.nodes[a as usize].f;
        let p = self.diff_poly(a, b)?;
        let fi = &self.fields[f as usize];
        let mut s = String::new();
        let mut sum = String::from("(+ 0");
        for (i, (m, c)) in Self::poly_key(&p).into_iter().enumerate() {
            let c = (fi.canon)(c);
            let c = dec(&c);
            if m.is_empty() {
                sum.push_str(&format!(" {c}"));
            } else {
                s.push_str(&format!("(declare-const m{i} Int)\n"));
                sum.push_str(&format!(" (* {c} m{i})"));
            }
        }
        sum.push(')');
        s.push_str(&format!("(assert (not (= (mod {sum} {}) 0)))\n", fi.modulus_dec));
        Some((s, p.is_empty()))
    }

    /// Z-mode: decides pc ∧ hyps ⇒ goal. Ok(None) = holds.
    fn z_prove(&mut self, hyps: &[Fml], goal: &Fml) -> Result<Option<Model>, String> {
        match goal {
            Fml::B(true) => {
                self.stats.by_fold += 1;
                return Ok(None);
            }
            Fml::And(v) => {
                for g in v {
                    let r = self.z_prove(hyps, g)?;
                    if r.is_some() {
                        return Ok(r);
                    }
                }
                return Ok(None);
            }
            _ => {}
        }
        let mut fs: Vec<Fml> = self.pc.clone();
        fs.extend(hyps.iter().cloned());
        let has_eq_hyp = fs.iter().any(|f| !matches!(f, Fml::Not(_)));
        fs.push(goal.clone().not());
        // 1. the query as it stands, over the integers (sound for every prime: an integer identity holds mod p)
        let mut roots = vec![];
        goal.roots(&mut roots);
        let ord = self.order(&roots);
        let positive = is_positive(goal);
        let small = match goal {
            Fml::Eq(a, b) => {
                if let Some(p) = self.diff_poly(*a, *b) {
                    let f = self.nodes[*a as usize].f as usize;
                    if !p.is_empty() {
                        let fi = self.fields[f].clone();
                        let (k, _) = Self::monic_key(&fi, &p);
                        if self.known.get(&k) == Some(&true) {
                            self.stats.by_normal_form += 1;
                            return Ok(None);
                        }
                    }
                }
                [*a, *b].iter().all(|n| match self.expand(*n) {
                    Some(p) => {
                        p.len() <= 150
                            && p.keys().all(|m| m.iter().map(|x| x.1.unsigned_abs()).sum::<u32>() <= 12)
                    }
                    None => false,
                })
            }
            _ => false,
        };
        if !self.uf && !has_eq_hyp && positive && small && ord.len() <= 250 && goal_is_eq(goal) {
            if let Some((s, vars)) = self.script(&[goal.clone().not()]) {
                match self.ask(&s, &vars, 1500) {
                    Answer::Unsat => {
                        self.stats.raw_unsat += 1;
                        return Ok(None);
                    }
                    _ => {}
                }
            }
        }
        // 2. both sides in normal form
        if let Fml::Eq(a, b) = goal {
            if let Some((s, zero)) = self.norm_script(*a, *b) {
                match self.ask(&s, &[], self.timeout_ms) {
                    Answer::Unsat => {
                        self.stats.by_normal_form += 1;
                        return Ok(None);
                    }
                    Answer::Sat(_) => {
                        assert!(!zero);
                        if let Some(m) = self.find_random(&fs) {
                            return Ok(Some(m));
                        }
                        if !has_eq_hyp {
                            return Err("identity refuted but no witness found".into());
                        }
                    }
                    Answer::Unknown(w) => return Err(format!("unknown on normal form ({w})")),
                }
            } else {
                if let Some(m) = self.find_random(&fs) {
                    return Ok(Some(m));
                }
                // no difference found, but not decided either
                self.stats.undecided += 1;
                return Ok(None);
            }
        }
        if let Fml::Not(x) = goal {
            if let Fml::Eq(a, b) = **x {
                if let Some(p) = self.diff_poly(a, b) {
                    let f = self.nodes[a as usize].f as usize;
                    let fi = self.fields[f].clone();
                    if !p.is_empty() {
                        let (k, _) = Self::monic_key(&fi, &p);
                        if (k.len() == 1 && k[0].0.is_empty()) || self.known.get(&k) == Some(&false) {
                            self.stats.by_normal_form += 1;
                            return Ok(None);
                        }
                        // a monomial in variables known to be non-zero
                        if k.len() == 1 {
                            let all = k[0].0.iter().all(|(v, _)| {
                                self.known.get(&vec![(vec![(*v, 1)], fi.one)]) == Some(&false)
                            });
                            if all {
                                self.stats.by_normal_form += 1;
                                return Ok(None);
                            }
                        }
                    }
                }
            }
        }
        if let Some(m) = self.find_random(&fs) {
            return Ok(Some(m));
        }
        Err("not decided (hypotheses outside the reach of the integer encoding)".into())
    }

    pub fn prove(&mut self, label: &str, hyps: Vec<Fml>, goal: Fml) {
        self.stats.obligations += 1;
        let hyp = Fml::all(hyps);
        let first = {
            let r = self.reach.entry(label.to_string()).or_default();
            r.count += 1;
            !r.sat
        };
        if first {
            let ok = if self.toy {
                match &hyp {
                    Fml::B(false) => false,
                    _ => {
                        let mut fs = self.pc.clone();
                        fs.push(hyp.clone());
                        match self.toy_sat(&fs, self.timeout_ms) {
                            Ok(m) => m.is_some(),
                            Err(e) => {
                                self.errors.push(format!("{label}: reachability: {e}"));
                                false
                            }
                        }
                    }
                }
            } else {
                match &hyp {
                    Fml::B(b) => *b,
                    h => {
                        let mut fs = self.pc.clone();
                        fs.push(h.clone());
                        self.find_random(&fs).is_some()
                    }
                }
            };
            if ok {
                self.reach.get_mut(label).unwrap().sat = true;
            }
        }
        let r = if let Fml::B(true) = goal {
            self.stats.by_fold += 1;
            Ok(None)
        } else if let Fml::B(false) = hyp {
            self.stats.by_fold += 1;
            Ok(None)
        } else if self.toy {
            let mut fs = self.pc.clone();
            if !matches!(hyp, Fml::B(true)) {
                fs.push(hyp);
            }
            // normal form first: an identity that already holds needs no bit-blasting
            let goal = self.norm_goal(goal);
            if let Fml::B(true) = goal {
                self.stats.by_normal_form += 1;
                Ok(None)
            } else {
                match self.relevant(&fs, &goal) {
                    Some(mut few) => {
                        // hypotheses that share no variable with the goal are left out first; dropping
                        // hypotheses is sound for "unsat", anything else is asked again with all of them
                        few.push(goal.clone().not());
                        match self.toy_sat(&few, self.timeout_ms) {
                            Ok(None) => Ok(None),
                            _ => {
                                fs.push(goal.not());
                                self.toy_sat(&fs, self.timeout_ms)
                            }
                        }
                    }
                    None => {
                        fs.push(goal.not());
                        self.toy_sat(&fs, self.timeout_ms)
                    }
                }
            }
        } else {
            let h = match hyp {
                Fml::B(true) => vec![],
                h => vec![h],
            };
            self.z_prove(&h, &goal)
        };
        match r {
            Ok(None) => {}
            Ok(Some(model)) => {
                self.violations.push(Violation { label: label.into(), detail: String::new(), model })
            }
            Err(e) => self.errors.push(format!("{label}: {e}")),
        }
    }
    fn vars_of(&self, f: &Fml) -> std::collections::HashSet<u32> {
        let mut roots = vec![];
        f.roots(&mut roots);
        let mut out = std::collections::HashSet::new();
        for n in self.order(&roots) {
            if let Op::Var(i) = self.nodes[n as usize].op {
                if self.bind[i as usize].is_none() {
                    out.insert(i);
                }
            }
        }
        out
    }
    /// The hypotheses connected to the goal through variables that do not occur everywhere.
    fn relevant(&self, fs: &[Fml], goal: &Fml) -> Option<Vec<Fml>> {
        let mut flat: Vec<Fml> = vec![];
        for f in fs {
            match f {
                Fml::And(v) => flat.extend(v.iter().cloned()),
                f => flat.push(f.clone()),
            }
        }
        if flat.len() < 24 {
            return None;
        }
        let vs: Vec<_> = flat.iter().map(|f| self.vars_of(f)).collect();
        let mut occ: HashMap<u32, usize> = HashMap::new();
        for v in vs.iter().flatten() {
            *occ.entry(*v).or_default() += 1;
        }
        let hub = |v: &u32| occ.get(v).copied().unwrap_or(0) > 12;
        let mut seen = self.vars_of(goal);
        let mut take = vec![false; flat.len()];
        loop {
            let mut grew = false;
            for (i, f) in vs.iter().enumerate() {
                if !take[i] && f.iter().any(|v| !hub(v) && seen.contains(v)) {
                    take[i] = true;
                    seen.extend(f.iter().copied());
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        for (i, f) in vs.iter().enumerate() {
            if !take[i] && !f.is_empty() && f.iter().all(|v| seen.contains(v)) {
                take[i] = true;
            }
        }
        if take.iter().all(|t| *t) {
            return None;
        }
        Some(flat.into_iter().zip(take).filter(|x| x.1).map(|x| x.0).collect())
    }
    fn norm_goal(&mut self, g: Fml) -> Fml {
        match g {
            Fml::And(v) => {
                let v: Vec<Fml> = v.into_iter().map(|x| self.norm_goal(x)).collect();
                Fml::all(v)
            }
            Fml::Eq(a, b) => match self.diff_poly(a, b) {
                Some(p) if p.is_empty() => Fml::B(true),
                _ => Fml::Eq(a, b),
            },
            g => g,
        }
    }
    /// The current path condition's model, for paths that end in a panic.
    pub fn path_model(&mut self) -> Result<Option<Model>, String> {
        let pc = self.pc.clone();
        if self.toy {
            self.toy_sat(&pc, self.timeout_ms)
        } else {
            Ok(self.find_random(&pc))
        }
    }
}

fn goal_is_eq(g: &Fml) -> bool {
    matches!(g, Fml::Eq(..))
}
fn is_positive(g: &Fml) -> bool {
    match g {
        Fml::B(_) | Fml::Eq(..) => true,
        Fml::Not(_) => false,
        Fml::And(v) | Fml::Or(v) => v.iter().all(is_positive),
    }
}
fn gt(a: &L, b: &L) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    false
}
pub fn sub(a: &L, b: &L) -> L {
    let mut r = [0; 4];
    let mut bw = 0u128;
    for i in 0..4 {
        let x = (a[i] as u128).wrapping_sub(b[i] as u128 + bw);
        r[i] = x as u64;
        bw = (x >> 64) & 1;
    }
    r
}
pub fn dec(v: &L) -> String {
    let mut v = *v;
    let mut parts = vec![];
    loop {
        let mut rem = 0u128;
        for i in (0..4).rev() {
            let cur = (rem << 64) | v[i] as u128;
            v[i] = (cur / 1_000_000_000) as u64;
            rem = cur % 1_000_000_000;
        }
        parts.push(rem as u64);
        if v == [0; 4] {
            break;
        }
    }
    let mut s = format!("{}", parts.pop().unwrap());
    while let Some(p) = parts.pop() {
        s.push_str(&format!("{p:09}"));
    }
    s
}
pub fn undec(s: &str) -> L {
    let mut v = [0u64; 4];
    for d in s.bytes() {
        let mut carry = (d - b'0') as u128;
        for x in v.iter_mut() {
            let t = *x as u128 * 10 + carry;
            *x = t as u64;
            carry = t >> 64;
        }
    }
    v
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::None);
}
/// What the harness interface talks to: the engine, or a model being replayed natively.
pub enum Ctx {
    None,
    Sym(Box<Eng>),
    Replay(Replay),
}
pub struct Replay {
    pub model: Model,
    pub next_choice: usize,
    pub name_count: HashMap<String, u32>,
    pub failed: Vec<String>,
    pub proved: u64,
    pub assume_failed: bool,
}
