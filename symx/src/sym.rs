//! Symbolic element type: every value is a term of an SMT term graph. The library's generic code is
//! instantiated with `Sym`, so running it builds terms over symbolic inputs; comparisons between
//! elements are decided by the engine (forking under solver control).
use crate::solver::Solver;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::Numeric;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

/// Boolean term id.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct B(pub u32);

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Node {
    Const(BigRational),
    Var(String),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Ite(B, u32, u32),
    Fun(&'static str, u32),
    /// identity; marks one result so that its own derivative can be asked for
    Tag(u64, u32),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum BNode {
    Lit(bool),
    Lt(u32, u32),
    Eq(u32, u32),
    Not(B),
    And(B, B),
    Or(B, B),
}

#[derive(Clone)]
pub struct Decision {
    pub key: u64,
    pub val: bool,
    pub alt: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub forks: u64,
    pub decided: u64,
    pub terms: u64,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    keys: Vec<u64>,
    map: HashMap<Node, u32>,
    pub bnodes: Vec<BNode>,
    bkeys: Vec<u64>,
    bmap: HashMap<BNode, B>,
    emitted: Vec<bool>,
    bemitted: Vec<bool>,
    pub vars: Vec<(String, u32)>,
    pub solver: Option<Solver>,
    pub pc: Vec<(B, bool)>,
    /// what is assumed about uninterpreted functions, asserted only where needed
    pub axioms: Vec<String>,
    facts: Facts,
    polys: Polys,
    pub made: HashMap<u64, bool>,
    pub order: Vec<Decision>,
    pub prefix: HashMap<u64, bool>,
    /// guided execution: comparisons are evaluated under this assignment instead of forking
    pub guide: Option<HashMap<String, f64>>,
    pub guide_memo: HashMap<u32, f64>,
    /// the assignment contradicts what the scenario assumes
    pub inadmissible: bool,
    /// arguments and magnitudes of the tanh applied to rounded numbers; whether an exponential was
    pub tanhs: Vec<(Sym, Sym)>,
    pub exp_seen: bool,
    products: u64,
    pub stats: Stats,
}

pub static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

pub struct G(MutexGuard<'static, Option<Ctx>>);
impl Deref for G {
    type Target = Ctx;
    fn deref(&self) -> &Ctx {
        self.0.as_ref().unwrap()
    }
}
impl DerefMut for G {
    fn deref_mut(&mut self) -> &mut Ctx {
        self.0.as_mut().unwrap()
    }
}
pub fn ctx() -> G {
    let mut g = CTX.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Ctx::new());
    }
    G(g)
}

/// how the names of variables begin that stand for magnitudes
pub const MAGNITUDE: &str = "mag_";
/// sign a canonical polynomial may still have: 1 negative, 2 zero, 4 positive
pub type Facts = HashMap<u32, u8>;
type Mono = Vec<(u32, u32)>;
type Poly = std::collections::BTreeMap<Mono, BigRational>;
#[derive(PartialEq, Eq, Hash, Clone)]
enum Atom {
    Node(u32),
    Fun(&'static str, u32),
}
#[derive(Default)]
struct Polys {
    atoms: HashMap<Atom, u32>,
    of: HashMap<u32, std::rc::Rc<Poly>>,
    ids: HashMap<Poly, u32>,
}
// the context is only ever used under its lock
unsafe impl Send for Polys {}
const POLY_CAP: usize = 300;

fn flip(m: u8) -> u8 {
    (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
}

fn h<T: Hash>(t: T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            keys: vec![],
            map: HashMap::new(),
            bnodes: vec![],
            bkeys: vec![],
            bmap: HashMap::new(),
            emitted: vec![],
            bemitted: vec![],
            vars: vec![],
            solver: None,
            pc: vec![],
            axioms: vec![],
            facts: Facts::new(),
            polys: Polys::default(),
            made: HashMap::new(),
            order: vec![],
            prefix: HashMap::new(),
            guide: None,
            guide_memo: HashMap::new(),
            inadmissible: false,
            tanhs: vec![],
            exp_seen: false,
            products: 0,
            stats: Stats::default(),
        }
    }

    /// Forget every term; start of one path.
    pub fn reset(&mut self, prefix: HashMap<u64, bool>, guide: Option<HashMap<String, f64>>) {
        self.stats.terms += self.nodes.len() as u64;
        self.nodes.clear();
        self.keys.clear();
        self.map.clear();
        self.bnodes.clear();
        self.bkeys.clear();
        self.bmap.clear();
        self.emitted.clear();
        self.bemitted.clear();
        self.vars.clear();
        self.pc.clear();
        self.axioms.clear();
        self.facts.clear();
        self.polys = Polys::default();
        self.made.clear();
        self.order.clear();
        self.prefix = prefix;
        self.guide = guide;
        self.guide_memo.clear();
        self.inadmissible = false;
        self.tanhs.clear();
        self.exp_seen = false;
        if let Some(s) = self.solver.as_mut() {
            s.restart_frame();
        }
    }

    pub fn node(&mut self, n: Node) -> u32 {
        if self.nodes.len() % 256 == 255 && self.guide.is_none() {
            crate::engine::check_budget();
        }
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let key = match &n {
            Node::Const(c) => h(("c", c)),
            Node::Var(v) => h(("v", v)),
            Node::Add(a, b) => h(("+", self.keys[*a as usize], self.keys[*b as usize])),
            Node::Sub(a, b) => h(("-", self.keys[*a as usize], self.keys[*b as usize])),
            Node::Mul(a, b) => h(("*", self.keys[*a as usize], self.keys[*b as usize])),
            Node::Div(a, b) => h(("/", self.keys[*a as usize], self.keys[*b as usize])),
            Node::Neg(a) => h(("n", self.keys[*a as usize])),
            Node::Ite(c, a, b) => h((
                "i",
                self.bkeys[c.0 as usize],
                self.keys[*a as usize],
                self.keys[*b as usize],
            )),
            Node::Fun(f, a) => h((f, self.keys[*a as usize])),
            Node::Tag(t, a) => h(("tag", t, self.keys[*a as usize])),
        };
        let i = self.nodes.len() as u32;
        if i > 6_000_000 {
            panic!("symx: term budget exceeded");
        }
        self.map.insert(n.clone(), i);
        self.nodes.push(n);
        self.keys.push(key);
        self.emitted.push(false);
        i
    }
    pub fn bnode(&mut self, n: BNode) -> B {
        if let Some(&i) = self.bmap.get(&n) {
            return i;
        }
        let key = match &n {
            BNode::Lit(b) => h(("l", b)),
            BNode::Lt(a, b) => h(("<", self.keys[*a as usize], self.keys[*b as usize])),
            BNode::Eq(a, b) => h(("=", self.keys[*a as usize], self.keys[*b as usize])),
            BNode::Not(a) => h(("!", self.bkeys[a.0 as usize])),
            BNode::And(a, b) => h(("&", self.bkeys[a.0 as usize], self.bkeys[b.0 as usize])),
            BNode::Or(a, b) => h(("|", self.bkeys[a.0 as usize], self.bkeys[b.0 as usize])),
        };
        let i = B(self.bnodes.len() as u32);
        self.bmap.insert(n.clone(), i);
        self.bnodes.push(n);
        self.bkeys.push(key);
        self.bemitted.push(false);
        i
    }
    pub fn var(&mut self, name: &str) -> Sym {
        let n = self.nodes.len();
        let i = self.node(Node::Var(name.to_string()));
        if self.nodes.len() > n {
            self.vars.push((name.to_string(), i));
        }
        Sym(i)
    }
    pub fn rat(&mut self, r: BigRational) -> u32 {
        self.node(Node::Const(r))
    }
    pub fn int(&mut self, i: i64) -> u32 {
        self.rat(BigRational::from_integer(BigInt::from(i)))
    }
    fn cst(&self, a: u32) -> Option<&BigRational> {
        match &self.nodes[a as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            let r = x + y;
            return self.rat(r);
        }
        if self.cst(a).map_or(false, |c| c.is_zero()) {
            return b;
        }
        if self.cst(b).map_or(false, |c| c.is_zero()) {
            return a;
        }
        self.node(Node::Add(a, b))
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            let r = x - y;
            return self.rat(r);
        }
        if self.cst(b).map_or(false, |c| c.is_zero()) {
            return a;
        }
        self.node(Node::Sub(a, b))
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            let r = x * y;
            return self.rat(r);
        }
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cst(p) {
                if c.is_zero() {
                    return p;
                }
                if c.is_one() {
                    return q;
                }
            }
        }
        self.node(Node::Mul(a, b))
    }
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if !y.is_zero() {
                let r = x / y;
                return self.rat(r);
            }
        }
        if self.cst(b).map_or(false, |c| c.is_one()) {
            return a;
        }
        self.node(Node::Div(a, b))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        if let Some(x) = self.cst(a) {
            let r = -x.clone();
            return self.rat(r);
        }
        self.node(Node::Neg(a))
    }
    pub fn lit(&mut self, b: bool) -> B {
        self.bnode(BNode::Lit(b))
    }
    pub fn lt(&mut self, a: u32, b: u32) -> B {
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            let r = x < y;
            return self.lit(r);
        }
        if a == b {
            return self.lit(false);
        }
        self.bnode(BNode::Lt(a, b))
    }
    pub fn eq(&mut self, a: u32, b: u32) -> B {
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            let r = x == y;
            return self.lit(r);
        }
        if a == b {
            return self.lit(true);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bnode(BNode::Eq(a, b))
    }
    pub fn not(&mut self, a: B) -> B {
        match self.bnodes[a.0 as usize] {
            BNode::Lit(b) => self.lit(!b),
            BNode::Not(x) => x,
            _ => self.bnode(BNode::Not(a)),
        }
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        match (&self.bnodes[a.0 as usize], &self.bnodes[b.0 as usize]) {
            (BNode::Lit(false), _) | (_, BNode::Lit(true)) => a,
            (_, BNode::Lit(false)) | (BNode::Lit(true), _) => b,
            _ => self.bnode(BNode::And(a, b)),
        }
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        match (&self.bnodes[a.0 as usize], &self.bnodes[b.0 as usize]) {
            (BNode::Lit(true), _) | (_, BNode::Lit(false)) => a,
            (_, BNode::Lit(true)) | (BNode::Lit(false), _) => b,
            _ => self.bnode(BNode::Or(a, b)),
        }
    }
    pub fn ite(&mut self, c: B, a: u32, b: u32) -> u32 {
        match self.bnodes[c.0 as usize] {
            BNode::Lit(true) => return a,
            BNode::Lit(false) => return b,
            _ => {}
        }
        if a == b {
            return a;
        }
        self.node(Node::Ite(c, a, b))
    }
    pub fn tag(&mut self, a: u32, t: u64) -> u32 {
        self.node(Node::Tag(t, a))
    }
    pub fn fun(&mut self, f: &'static str, a: u32) -> u32 {
        if self.cst(a).map_or(false, |c| c.is_zero()) {
            match f {
                "tanh" | "tanha" | "sinh" | "sin" | "tan" | "sqrt" | "atan" | "asin" => return self.int(0),
                "exp" | "cosh" | "cos" | "tanhd" => return self.int(1),
                _ => {}
            }
        }
        self.node(Node::Fun(f, a))
    }

    // ---------------------------------------------------------------- SMT text
    fn name(&self, i: u32) -> String {
        format!("t{i}")
    }
    fn bname(&self, b: B) -> String {
        format!("b{}", b.0)
    }
    pub fn emit(&mut self, i: u32) {
        // children have smaller ids; iterative over the reachable set
        let mut stack = vec![(false, i)];
        while let Some((isb, k)) = stack.pop() {
            if isb {
                if self.bemitted[k as usize] {
                    continue;
                }
                let deps: Vec<(bool, u32)> = match &self.bnodes[k as usize] {
                    BNode::Lit(_) => vec![],
                    BNode::Lt(a, b) | BNode::Eq(a, b) => vec![(false, *a), (false, *b)],
                    BNode::Not(a) => vec![(true, a.0)],
                    BNode::And(a, b) | BNode::Or(a, b) => vec![(true, a.0), (true, b.0)],
                };
                let missing: Vec<_> = deps.iter().filter(|d| !self.done(**d)).cloned().collect();
                if !missing.is_empty() {
                    stack.push((true, k));
                    stack.extend(missing);
                    continue;
                }
                let s = match &self.bnodes[k as usize] {
                    BNode::Lit(b) => format!("{b}"),
                    BNode::Lt(a, b) => format!("(< t{a} t{b})"),
                    BNode::Eq(a, b) => format!("(= t{a} t{b})"),
                    BNode::Not(a) => format!("(not b{})", a.0),
                    BNode::And(a, b) => format!("(and b{} b{})", a.0, b.0),
                    BNode::Or(a, b) => format!("(or b{} b{})", a.0, b.0),
                };
                self.bemitted[k as usize] = true;
                let line = format!("(define-fun b{k} () Bool {s})\n");
                self.solver.as_mut().unwrap().send(&line);
            } else {
                if self.emitted[k as usize] {
                    continue;
                }
                let deps: Vec<(bool, u32)> = match &self.nodes[k as usize] {
                    Node::Const(_) | Node::Var(_) => vec![],
                    Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
                        vec![(false, *a), (false, *b)]
                    }
                    Node::Neg(a) | Node::Fun(_, a) | Node::Tag(_, a) => vec![(false, *a)],
                    Node::Ite(c, a, b) => vec![(true, c.0), (false, *a), (false, *b)],
                };
                let missing: Vec<_> = deps.iter().filter(|d| !self.done(**d)).cloned().collect();
                if !missing.is_empty() {
                    stack.push((false, k));
                    stack.extend(missing);
                    continue;
                }
                let line = match &self.nodes[k as usize] {
                    Node::Const(c) => format!("(define-fun t{k} () Real {})\n", rat_smt(c)),
                    Node::Var(v) => format!("(declare-const |in.{v}| Real)(define-fun t{k} () Real |in.{v}|)\n"),
                    Node::Add(a, b) => format!("(define-fun t{k} () Real (+ t{a} t{b}))\n"),
                    Node::Sub(a, b) => format!("(define-fun t{k} () Real (- t{a} t{b}))\n"),
                    Node::Mul(a, b) => format!("(define-fun t{k} () Real (* t{a} t{b}))\n"),
                    Node::Div(a, b) => format!("(define-fun t{k} () Real (/ t{a} t{b}))\n"),
                    Node::Neg(a) => format!("(define-fun t{k} () Real (- t{a}))\n"),
                    Node::Tag(_, a) => format!("(define-fun t{k} () Real t{a})\n"),
                    Node::Ite(c, a, b) => {
                        format!("(define-fun t{k} () Real (ite b{} t{a} t{b}))\n", c.0)
                    }
                    Node::Fun(f, a) => {
                        // applications are named by their argument through an uninterpreted function
                        let s = if *f == "tanhd" {
                            // derivative of tanh; evaluated without cancellation in `apply_fun`
                            format!("(define-fun t{k} () Real (- 1.0 (* (u_tanh t{a}) (u_tanh t{a}))))\n")
                        } else {
                            format!("(define-fun t{k} () Real (u_{f} t{a}))\n")
                        };
                        let ax = match *f {
                            "tanh" => format!(
                                "(and (< (- 1.0) t{k}) (< t{k} 1.0) (=> (< 0.0 t{a}) (< 0.0 t{k})) (=> (< t{a} 0.0) (< t{k} 0.0)) (=> (= t{a} 0.0) (= t{k} 0.0)))"
                            ),
                            "exp" => format!("(< 0.0 t{k})"),
                            "tanha" => format!("(<= 0.0 t{k})"),
                            "cosh" => format!(
                                "(and (<= 1.0 t{k}) (= (* t{k} t{k} (- 1.0 (* (u_tanh t{a}) (u_tanh t{a})))) 1.0))"
                            ),
                            "sinh" => format!("(= t{k} (* (u_tanh t{a}) (u_cosh t{a})))"),
                            _ => String::new(),
                        };
                        if !ax.is_empty() {
                            self.axioms.push(ax);
                        }
                        s
                    }
                };
                self.emitted[k as usize] = true;
                self.solver.as_mut().unwrap().send(&line);
            }
        }
    }
    fn done(&self, d: (bool, u32)) -> bool {
        if d.0 {
            self.bemitted[d.1 as usize]
        } else {
            self.emitted[d.1 as usize]
        }
    }
    pub fn emit_b(&mut self, b: B) -> String {
        // reuse emit through an Ite-free path
        let mut stack = vec![b];
        while let Some(x) = stack.pop() {
            if self.bemitted[x.0 as usize] {
                continue;
            }
            let (ts, bs): (Vec<u32>, Vec<B>) = match &self.bnodes[x.0 as usize] {
                BNode::Lit(_) => (vec![], vec![]),
                BNode::Lt(a, b) | BNode::Eq(a, b) => (vec![*a, *b], vec![]),
                BNode::Not(a) => (vec![], vec![*a]),
                BNode::And(a, b) | BNode::Or(a, b) => (vec![], vec![*a, *b]),
            };
            for t in ts {
                self.emit(t);
            }
            let miss: Vec<B> = bs
                .into_iter()
                .filter(|b| !self.bemitted[b.0 as usize])
                .collect();
            if !miss.is_empty() {
                stack.push(x);
                stack.extend(miss);
                continue;
            }
            let s = match &self.bnodes[x.0 as usize] {
                BNode::Lit(b) => format!("{b}"),
                BNode::Lt(a, b) => format!("(< {} {})", self.name(*a), self.name(*b)),
                BNode::Eq(a, b) => format!("(= {} {})", self.name(*a), self.name(*b)),
                BNode::Not(a) => format!("(not {})", self.bname(*a)),
                BNode::And(a, b) => format!("(and {} {})", self.bname(*a), self.bname(*b)),
                BNode::Or(a, b) => format!("(or {} {})", self.bname(*a), self.bname(*b)),
            };
            self.bemitted[x.0 as usize] = true;
            let line = format!("(define-fun {} () Bool {})\n", self.bname(x), s);
            self.solver.as_mut().unwrap().send(&line);
        }
        self.bname(b)
    }

    /// Decide a comparison: guided, forced by the path prefix, or by asking the solver which
    /// outcomes the path condition allows.
    pub fn decide(&mut self, c: B) -> bool {
        if let BNode::Lit(b) = self.bnodes[c.0 as usize] {
            return b;
        }
        if let Some(m) = self.guide.clone() {
            return self.eval_b(c, &m);
        }
        let key = self.bkeys[c.0 as usize];
        if let Some(&v) = self.made.get(&key) {
            return v;
        }
        // already implied, up to polynomial rearrangement, by one earlier decision
        let f = std::mem::take(&mut self.facts);
        let v = if f.is_empty() { None } else { self.implied(c, &f) };
        self.facts = f;
        if let Some(v) = v {
            return v;
        }
        crate::engine::check_budget();
        let nm = self.emit_b(c);
        self.stats.decided += 1;
        let (val, alt) = if let Some(&v) = self.prefix.get(&key) {
            (v, false)
        } else {
            let base = self.hypotheses();
            let s = self.solver.as_mut().unwrap();
            let t = s.feasible(&format!("(and {base} {nm})"));
            let f = s.feasible(&format!("(and {base} (not {nm}))"));
            // "unknown" is treated as feasible: the path is explored, soundly
            let (t, f) = (t != "unsat", f != "unsat");
            if t && f {
                self.stats.forks += 1;
                (true, true)
            } else {
                (t, false)
            }
        };
        self.made.insert(key, val);
        self.order.push(Decision { key, val, alt });
        self.assume(c, val);
        val
    }
    /// a symbolic choice among `arity` alternatives (who runs next): a fresh input the engine forks on
    pub fn choose(&mut self, name: &str, arity: usize) -> usize {
        let v = self.var(name);
        for k in 0..arity - 1 {
            let n = self.int(k as i64);
            let e = self.eq(v.0, n);
            let val = if let Some(m) = self.guide.clone() {
                self.eval_b(e, &m)
            } else {
                let key = self.bkeys[e.0 as usize];
                if let Some(&v) = self.made.get(&key) {
                    v
                } else {
                    // the input is fresh, so both answers are possible
                    let (val, alt) = match self.prefix.get(&key) {
                        Some(&v) => (v, false),
                        None => {
                            self.stats.forks += 1;
                            (true, true)
                        }
                    };
                    self.made.insert(key, val);
                    self.order.push(Decision { key, val, alt });
                    self.pc.push((e, val));
                    val
                }
            };
            if val {
                return k;
            }
        }
        arity - 1
    }
    /// path condition and function axioms, as one SMT formula
    pub fn hypotheses(&mut self) -> String {
        let mut t = String::from("(and true");
        for (b, v) in self.pc.clone() {
            let n = self.emit_b(b);
            t += &if v { format!(" {n}") } else { format!(" (not {n})") };
        }
        for a in &self.axioms {
            t.push(' ');
            t += a;
        }
        t + ")"
    }
    pub fn assume(&mut self, b: B, v: bool) {
        self.pc.push((b, v));
        let mut f = std::mem::take(&mut self.facts);
        self.learn(b, v, &mut f);
        self.facts = f;
    }
    // relations a term pair may still have: 1 less, 2 equal, 4 greater
    fn learn(&mut self, b: B, v: bool, f: &mut Facts) {
        let (p, q, m) = match self.bnodes[b.0 as usize] {
            BNode::Lt(p, q) => (p, q, if v { 1u8 } else { 6 }),
            BNode::Eq(p, q) => (p, q, if v { 2 } else { 5 }),
            BNode::Not(x) => return self.learn(x, !v, f),
            BNode::And(x, y) if v => {
                self.learn(x, true, f);
                return self.learn(y, true, f);
            }
            BNode::Or(x, y) if !v => {
                self.learn(x, false, f);
                return self.learn(y, false, f);
            }
            _ => return,
        };
        if let Some((k, fl)) = self.sign_of(p, q) {
            *f.entry(k).or_insert(7) &= if fl { flip(m) } else { m };
        }
    }
    /// Does every assignment with positive magnitudes keep each p at most its q, even with the products in them independent of
    /// one another? Decided by the solver as a linear problem, with one number per product.
    pub fn le_by_products(&mut self, pairs: &[(u32, u32)]) -> bool {
        let polys: Vec<_> = pairs.iter().map(|&(p, q)| (self.poly(p), self.poly(q))).collect();
        let positive: std::collections::HashSet<u32> = self
            .polys
            .atoms
            .iter()
            .filter(|(a, _)| match a {
                Atom::Fun(f, _) => matches!(*f, "tanha" | "exp"),
                Atom::Node(k) => match &self.nodes[*k as usize] {
                    Node::Var(v) => v.starts_with(MAGNITUDE),
                    Node::Fun(f, _) => matches!(*f, "tanha" | "exp"),
                    _ => false,
                },
            })
            .map(|(_, i)| *i)
            .collect();
        let mut names: HashMap<Mono, String> = HashMap::new();
        let mut lines = String::new();
        let mut parts: Vec<String> = vec![];
        for (p, q) in &polys {
            let mut d = (**q).clone();
            for (m, c) in p.iter() {
                *d.entry(m.clone()).or_insert_with(BigRational::zero) -= c;
            }
            let mut sum = vec![];
            for (m, c) in d.iter() {
                if m.is_empty() {
                    sum.push(rat_smt(c));
                    continue;
                }
                if !names.contains_key(m) {
                    let name = format!("product{}.{}", self.products, names.len());
                    lines += &format!("(declare-const {name} Real)");
                    if m.iter().all(|(x, n)| n % 2 == 0 || positive.contains(x)) {
                        lines += &format!("(assert (<= 0.0 {name}))");
                    }
                    names.insert(m.clone(), name);
                }
                sum.push(format!("(* {} {})", rat_smt(c), names[m]));
            }
            let part = format!("(< (+ 0.0 0.0 {}) 0.0)", sum.join(" "));
            if !parts.contains(&part) {
                parts.push(part);
            }
        }
        self.products += 1;
        let s = self.solver.as_mut().unwrap();
        s.send(&lines);
        let r = s.check_with(&format!("(or false {})", parts.join(" ")), 3000);
        s.final_queries += 1;
        r == "unsat"
    }
    fn atom(&mut self, a: Atom) -> u32 {
        let n = self.polys.atoms.len() as u32;
        *self.polys.atoms.entry(a).or_insert(n)
    }
    fn poly_id(&mut self, p: &Poly) -> u32 {
        let n = self.polys.ids.len() as u32;
        *self.polys.ids.entry(p.clone()).or_insert(n)
    }
    fn single(&mut self, a: Atom) -> Poly {
        let k = self.atom(a);
        Poly::from([(vec![(k, 1)], BigRational::one())])
    }
    /// Canonical polynomial of a term over variables, function applications and anything opaque.
    fn poly(&mut self, i: u32) -> std::rc::Rc<Poly> {
        let mut stack = vec![i];
        while let Some(&k) = stack.last() {
            if self.polys.of.contains_key(&k) {
                stack.pop();
                continue;
            }
            let n = self.nodes[k as usize].clone();
            let deps: Vec<u32> = match &n {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => vec![*a, *b],
                Node::Neg(a) | Node::Fun(_, a) | Node::Tag(_, a) => vec![*a],
                Node::Div(a, b) if self.cst(*b).map_or(false, |c| !c.is_zero()) => vec![*a],
                _ => vec![],
            };
            let miss: Vec<u32> = deps.into_iter().filter(|d| !self.polys.of.contains_key(d)).collect();
            if !miss.is_empty() {
                stack.extend(miss);
                continue;
            }
            let g = |c: &Ctx, x: &u32| c.polys.of[x].clone();
            let plus = |a: &Poly, b: &Poly, neg: bool| {
                let mut r = a.clone();
                for (m, c) in b {
                    let e = r.entry(m.clone()).or_insert_with(BigRational::zero);
                    if neg {
                        *e -= c
                    } else {
                        *e += c
                    }
                }
                r.retain(|_, c| !c.is_zero());
                r
            };
            let times = |a: &Poly, b: &Poly| {
                let mut r = Poly::new();
                for (m, c) in a {
                    for (n, d) in b {
                        let mut t: std::collections::BTreeMap<u32, u32> = m.iter().cloned().collect();
                        for (v, e) in n {
                            *t.entry(*v).or_insert(0) += e;
                        }
                        *r.entry(t.into_iter().collect()).or_insert_with(BigRational::zero) += c * d;
                    }
                }
                r.retain(|_, c| !c.is_zero());
                r
            };
            let p: Poly = match &n {
                Node::Const(c) if c.is_zero() => Poly::new(),
                Node::Const(c) => Poly::from([(vec![], c.clone())]),
                Node::Add(a, b) => plus(&g(self, a), &g(self, b), false),
                Node::Sub(a, b) => plus(&g(self, a), &g(self, b), true),
                Node::Neg(a) => plus(&Poly::new(), &g(self, a), true),
                Node::Tag(_, a) => (*g(self, a)).clone(),
                Node::Mul(a, b) => {
                    let (x, y) = (g(self, a), g(self, b));
                    if x.len() * y.len() > POLY_CAP * 4 {
                        self.single(Atom::Node(k))
                    } else {
                        times(&x, &y)
                    }
                }
                Node::Div(a, b) if self.cst(*b).map_or(false, |c| !c.is_zero()) => {
                    let c = self.cst(*b).unwrap().recip();
                    times(&g(self, a), &Poly::from([(vec![], c)]))
                }
                Node::Fun("tanhd", a) => {
                    let id = self.poly_id(&g(self, a));
                    let t = self.single(Atom::Fun("tanh", id));
                    plus(&Poly::from([(vec![], BigRational::one())]), &times(&t, &t), true)
                }
                Node::Fun(f, a) => {
                    let id = self.poly_id(&g(self, a));
                    self.single(Atom::Fun(f, id))
                }
                _ => self.single(Atom::Node(k)),
            };
            let p = if p.len() > POLY_CAP { self.single(Atom::Node(k)) } else { p };
            self.polys.of.insert(k, std::rc::Rc::new(p));
            stack.pop();
        }
        self.polys.of[&i].clone()
    }
    /// Canonical form of p - q up to a positive factor, or its negation (second component).
    /// None if the difference is a constant.
    fn sign_of(&mut self, p: u32, q: u32) -> Option<(u32, bool)> {
        let (a, b) = (self.poly(p), self.poly(q));
        let mut r = (*a).clone();
        for (m, c) in b.iter() {
            *r.entry(m.clone()).or_insert_with(BigRational::zero) -= c;
        }
        r.retain(|_, c| !c.is_zero());
        let lead = r.iter().rev().find(|(m, _)| !m.is_empty())?.1.clone();
        let fl = lead < BigRational::zero();
        for c in r.values_mut() {
            *c = &*c / &lead;
        }
        Some((self.poly_id(&r), fl))
    }
    /// what is known about p versus q: 1 less, 2 equal, 4 greater
    fn rel(&mut self, p: u32, q: u32, f: &Facts) -> u8 {
        if p == q {
            return 2;
        }
        if let (Some(x), Some(y)) = (self.cst(p), self.cst(q)) {
            return match x.cmp(y) {
                Ordering::Less => 1,
                Ordering::Equal => 2,
                Ordering::Greater => 4,
            };
        }
        match self.sign_of(p, q) {
            Some((k, fl)) => {
                let m = *f.get(&k).unwrap_or(&7);
                if fl {
                    flip(m)
                } else {
                    m
                }
            }
            None => 7,
        }
    }
    /// What the path condition plus `extra` literals say about pairs of terms, also about their
    /// resolved forms (decided branches taken).
    pub fn known(&mut self, extra: &[(B, bool)]) -> Facts {
        let mut lits = self.pc.clone();
        lits.extend_from_slice(extra);
        let mut f = self.facts.clone();
        for (b, v) in extra {
            self.learn(*b, *v, &mut f);
        }
        for _ in 0..4 {
            let mut memo = HashMap::new();
            let mut g = f.clone();
            for (b, v) in &lits {
                let r = self.resolve_terms(*b, &f, &mut memo);
                if r != *b {
                    self.learn(r, *v, &mut g);
                }
            }
            let same = g == f;
            f = g;
            if same {
                break;
            }
        }
        f
    }
    /// the comparison between the resolved terms, itself left undecided
    fn resolve_terms(&mut self, b: B, f: &Facts, memo: &mut HashMap<u32, u32>) -> B {
        match self.bnodes[b.0 as usize] {
            BNode::Lt(p, q) => {
                let (p, q) = (self.resolve(p, f, memo), self.resolve(q, f, memo));
                self.lt(p, q)
            }
            BNode::Eq(p, q) => {
                let (p, q) = (self.resolve(p, f, memo), self.resolve(q, f, memo));
                self.eq(p, q)
            }
            BNode::Not(x) => {
                let x = self.resolve_terms(x, f, memo);
                self.not(x)
            }
            _ => b,
        }
    }
    pub fn show(&self, i: u32) -> String {
        match &self.nodes[i as usize] {
            Node::Const(c) => format!("{c}"),
            Node::Var(v) => v.clone(),
            Node::Add(a, b) => format!("({} + {})", self.show(*a), self.show(*b)),
            Node::Sub(a, b) => format!("({} - {})", self.show(*a), self.show(*b)),
            Node::Mul(a, b) => format!("{}*{}", self.show(*a), self.show(*b)),
            Node::Div(a, b) => format!("({} / {})", self.show(*a), self.show(*b)),
            Node::Neg(a) => format!("-{}", self.show(*a)),
            Node::Tag(_, a) => self.show(*a),
            Node::Ite(c, a, b) => format!("[{} ? {} : {}]", self.show_b(*c), self.show(*a), self.show(*b)),
            Node::Fun(f, a) => format!("{f}({})", self.show(*a)),
        }
    }
    pub fn show_b(&self, b: B) -> String {
        match self.bnodes[b.0 as usize] {
            BNode::Lit(v) => format!("{v}"),
            BNode::Lt(a, b) => format!("{} < {}", self.show(a), self.show(b)),
            BNode::Eq(a, b) => format!("{} = {}", self.show(a), self.show(b)),
            BNode::Not(a) => format!("not({})", self.show_b(a)),
            BNode::And(a, b) => format!("({} and {})", self.show_b(a), self.show_b(b)),
            BNode::Or(a, b) => format!("({} or {})", self.show_b(a), self.show_b(b)),
        }
    }
    /// The same value under the known facts, with decided branches taken (an equivalence-preserving
    /// rewriting; the solver still decides the result).
    pub fn resolve(&mut self, i: u32, f: &Facts, memo: &mut HashMap<u32, u32>) -> u32 {
        let mut stack = vec![i];
        while let Some(&k) = stack.last() {
            if memo.contains_key(&k) {
                stack.pop();
                continue;
            }
            let n = self.nodes[k as usize].clone();
            let deps: Vec<u32> = match &n {
                Node::Const(_) | Node::Var(_) => vec![],
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
                Node::Neg(a) | Node::Fun(_, a) | Node::Tag(_, a) => vec![*a],
                Node::Ite(c, a, b) => {
                    let mut v = self.bterms(*c);
                    v.push(*a);
                    v.push(*b);
                    v
                }
            };
            let miss: Vec<u32> = deps.into_iter().filter(|d| !memo.contains_key(d)).collect();
            if !miss.is_empty() {
                stack.extend(miss);
                continue;
            }
            let g = |x: &u32| memo[x];
            let r = match &n {
                Node::Const(_) | Node::Var(_) => k,
                Node::Add(a, b) => self.add(g(a), g(b)),
                Node::Sub(a, b) => self.sub(g(a), g(b)),
                Node::Mul(a, b) => self.mul(g(a), g(b)),
                Node::Div(a, b) => self.div(g(a), g(b)),
                Node::Neg(a) => self.neg(g(a)),
                Node::Fun(h, a) => self.fun(h, g(a)),
                Node::Tag(_, a) => g(a),
                Node::Ite(c, a, b) => {
                    let (x, y) = (g(a), g(b));
                    let mut out = None;
                    if let BNode::Lt(p, q) = self.bnodes[c.0 as usize] {
                        let (rp, rq) = (g(&p), g(&q));
                        let m = self.rel(p, q, f) & self.rel(rp, rq, f);
                        if m & 6 == 0 {
                            out = Some(x);
                        } else if m & 1 == 0 {
                            out = Some(y);
                        } else if m & 4 == 0 && self.meet(rp, rq, x, y) {
                            // p <= q, and both branches agree where p = q
                            out = Some(x);
                        }
                    }
                    match out {
                        Some(v) => v,
                        None => {
                            let c2 = self.resolve_b(*c, f, memo);
                            self.ite(c2, x, y)
                        }
                    }
                }
            };
            memo.insert(k, r);
            stack.pop();
        }
        memo[&i]
    }
    /// the two branches agree wherever p = q: their difference is a multiple of p - q
    fn meet(&mut self, p: u32, q: u32, x: u32, y: u32) -> bool {
        match (self.sign_of(p, q), self.sign_of(x, y)) {
            (Some((a, _)), Some((b, _))) => a == b,
            _ => false,
        }
    }
    fn implied(&mut self, b: B, f: &Facts) -> Option<bool> {
        let (m, t) = match self.bnodes[b.0 as usize] {
            BNode::Lt(p, q) => (self.rel(p, q, f), 1),
            BNode::Eq(p, q) => (self.rel(p, q, f), 2),
            _ => return None,
        };
        if m & !t == 0 {
            Some(true)
        } else if m & t == 0 {
            Some(false)
        } else {
            None
        }
    }
    pub fn resolve_b(&mut self, b: B, f: &Facts, memo: &mut HashMap<u32, u32>) -> B {
        // conditions are remembered beside the terms, under keys of their own
        let key = b.0 | 0x8000_0000;
        if let Some(&r) = memo.get(&key) {
            return B(r);
        }
        for t in self.bterms(b) {
            self.resolve(t, f, memo);
        }
        let r = match self.bnodes[b.0 as usize] {
            BNode::Lit(_) => b,
            BNode::Lt(p, q) => {
                let (x, y) = (memo[&p], memo[&q]);
                let m = self.rel(p, q, f) & self.rel(x, y, f);
                if m & 6 == 0 {
                    self.lit(true)
                } else if m & 1 == 0 {
                    self.lit(false)
                } else {
                    self.lt(x, y)
                }
            }
            BNode::Eq(p, q) => {
                let (x, y) = (memo[&p], memo[&q]);
                let m = self.rel(p, q, f) & self.rel(x, y, f);
                if m & 5 == 0 {
                    self.lit(true)
                } else if m & 2 == 0 {
                    self.lit(false)
                } else {
                    self.eq(x, y)
                }
            }
            BNode::Not(x) => {
                let x = self.resolve_b(x, f, memo);
                self.not(x)
            }
            BNode::And(x, y) => {
                let (x, y) = (self.resolve_b(x, f, memo), self.resolve_b(y, f, memo));
                self.and(x, y)
            }
            BNode::Or(x, y) => {
                let (x, y) = (self.resolve_b(x, f, memo), self.resolve_b(y, f, memo));
                self.or(x, y)
            }
        };
        memo.insert(key, r.0);
        r
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&self, i: u32, m: &HashMap<String, f64>, memo: &mut HashMap<u32, f64>) -> f64 {
        // iterative post-order
        let mut stack = vec![i];
        while let Some(k) = stack.pop() {
            if memo.contains_key(&k) {
                continue;
            }
            let deps: Vec<u32> = match &self.nodes[k as usize] {
                Node::Const(_) | Node::Var(_) => vec![],
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
                    vec![*a, *b]
                }
                Node::Neg(a) | Node::Fun(_, a) | Node::Tag(_, a) => vec![*a],
                Node::Ite(c, a, b) => {
                    let mut v = self.bterms(*c);
                    v.push(*a);
                    v.push(*b);
                    v
                }
            };
            let miss: Vec<u32> = deps.into_iter().filter(|d| !memo.contains_key(d)).collect();
            if !miss.is_empty() {
                stack.push(k);
                stack.extend(miss);
                continue;
            }
            let g = |x: &u32| memo[x];
            let v = match &self.nodes[k as usize] {
                Node::Const(c) => c.to_f64().unwrap_or(f64::NAN),
                Node::Var(v) => m.get(v).copied().unwrap_or_else(|| crate::env::hint(v)),
                Node::Add(a, b) => g(a) + g(b),
                Node::Sub(a, b) => g(a) - g(b),
                Node::Mul(a, b) => g(a) * g(b),
                Node::Div(a, b) => g(a) / g(b),
                Node::Neg(a) => -g(a),
                Node::Tag(_, a) => g(a),
                Node::Ite(c, a, b) => {
                    if self.eval_bm(*c, memo) {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                Node::Fun(f, a) => apply_fun(f, g(a)),
            };
            memo.insert(k, v);
        }
        memo[&i]
    }
    /// the sum of the sizes of the terms that make up a value: what rounding is relative to.
    /// `memo` holds the values already.
    pub fn magnitude(&self, i: u32, memo: &HashMap<u32, f64>, mags: &mut HashMap<u32, f64>) -> f64 {
        let mut stack = vec![i];
        while let Some(k) = stack.pop() {
            if mags.contains_key(&k) {
                continue;
            }
            let deps: Vec<u32> = match &self.nodes[k as usize] {
                Node::Const(_) | Node::Var(_) => vec![],
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => vec![*a, *b],
                Node::Div(a, _) | Node::Neg(a) | Node::Tag(_, a) | Node::Fun(_, a) => vec![*a],
                Node::Ite(c, a, b) => vec![if self.eval_bm(*c, memo) { *a } else { *b }],
            };
            let miss: Vec<u32> = deps.iter().cloned().filter(|d| !mags.contains_key(d)).collect();
            if !miss.is_empty() {
                stack.push(k);
                stack.extend(miss);
                continue;
            }
            let m = match &self.nodes[k as usize] {
                Node::Const(_) | Node::Var(_) => memo[&k].abs(),
                Node::Add(..) | Node::Sub(..) => mags[&deps[0]] + mags[&deps[1]],
                Node::Mul(..) => mags[&deps[0]] * mags[&deps[1]],
                Node::Div(_, b) => mags[&deps[0]] / memo[b].abs(),
                // the argument's rounding enters with a slope of at most about one
                Node::Fun(..) => memo[&k].abs() + mags[&deps[0]],
                _ => mags[&deps[0]],
            };
            mags.insert(k, m);
        }
        mags[&i]
    }
    /// the terms compared in a condition
    fn bterms(&self, b: B) -> Vec<u32> {
        let (mut out, mut stack) = (vec![], vec![b]);
        let mut seen = std::collections::HashSet::new();
        while let Some(x) = stack.pop() {
            match &self.bnodes[x.0 as usize] {
                BNode::Lit(_) => {}
                BNode::Lt(a, b) | BNode::Eq(a, b) => out.extend([*a, *b]),
                BNode::Not(a) => stack.extend(seen.insert(*a).then_some(*a)),
                BNode::And(a, b) | BNode::Or(a, b) => {
                    for y in [*a, *b] {
                        stack.extend(seen.insert(y).then_some(y));
                    }
                }
            }
        }
        out
    }
    fn eval_bm(&self, b: B, memo: &HashMap<u32, f64>) -> bool {
        self.eval_bd(b, memo, &mut HashMap::new())
    }
    fn eval_bd(&self, b: B, memo: &HashMap<u32, f64>, done: &mut HashMap<B, bool>) -> bool {
        if let Some(&v) = done.get(&b) {
            return v;
        }
        let v = match &self.bnodes[b.0 as usize] {
            BNode::Lit(b) => *b,
            BNode::Lt(a, b) => memo[a] < memo[b],
            BNode::Eq(a, b) => memo[a] == memo[b],
            BNode::Not(a) => !self.eval_bd(*a, memo, done),
            BNode::And(a, b) => self.eval_bd(*a, memo, done) && self.eval_bd(*b, memo, done),
            BNode::Or(a, b) => self.eval_bd(*a, memo, done) || self.eval_bd(*b, memo, done),
        };
        done.insert(b, v);
        v
    }
    /// under one assignment
    pub fn eval_bool(&self, b: B, m: &HashMap<String, f64>, memo: &mut HashMap<u32, f64>) -> bool {
        for t in self.bterms(b) {
            self.eval(t, m, memo);
        }
        self.eval_bm(b, memo)
    }
    pub fn eval_b(&mut self, b: B, m: &HashMap<String, f64>) -> bool {
        let mut memo = std::mem::take(&mut self.guide_memo);
        for t in self.bterms(b) {
            self.eval(t, m, &mut memo);
        }
        let r = self.eval_bm(b, &memo);
        self.guide_memo = memo;
        r
    }

    // ---------------------------------------------------------------- differentiation
    /// Reverse-mode symbolic derivative of term `loss` with respect to `wrt`; also returns the
    /// equalities at which an if-then-else condition sits on its boundary (kinks).
    pub fn grad(&mut self, loss: u32, wrt: &[u32]) -> (Vec<u32>, Vec<B>) {
        let mut reach = vec![false; loss as usize + 1];
        reach[loss as usize] = true;
        let mut kinks = vec![];
        let mut adj: HashMap<u32, u32> = HashMap::new();
        let one = self.int(1);
        let zero = self.int(0);
        adj.insert(loss, one);
        for k in (0..=loss).rev() {
            if !reach[k as usize] {
                continue;
            }
            let n = self.nodes[k as usize].clone();
            let a_k = match adj.get(&k) {
                Some(&a) => a,
                None => continue,
            };
            let mut contrib: Vec<(u32, u32)> = vec![];
            match n {
                Node::Const(_) | Node::Var(_) => {}
                Node::Add(a, b) => {
                    contrib.push((a, a_k));
                    contrib.push((b, a_k));
                }
                Node::Sub(a, b) => {
                    contrib.push((a, a_k));
                    let n = self.neg(a_k);
                    contrib.push((b, n));
                }
                Node::Mul(a, b) => {
                    let x = self.mul(a_k, b);
                    let y = self.mul(a_k, a);
                    contrib.push((a, x));
                    contrib.push((b, y));
                }
                Node::Div(a, b) => {
                    let x = self.div(a_k, b);
                    let bb = self.mul(b, b);
                    let q = self.div(a, bb);
                    let y = self.mul(a_k, q);
                    let y = self.neg(y);
                    contrib.push((a, x));
                    contrib.push((b, y));
                }
                Node::Tag(_, a) => contrib.push((a, a_k)),
                Node::Neg(a) => {
                    let n = self.neg(a_k);
                    contrib.push((a, n));
                }
                Node::Ite(c, a, b) => {
                    let x = self.ite(c, a_k, zero);
                    let y = self.ite(c, zero, a_k);
                    contrib.push((a, x));
                    contrib.push((b, y));
                    if let BNode::Lt(p, q) = self.bnodes[c.0 as usize] {
                        let e = self.eq(p, q);
                        if !kinks.contains(&e) {
                            kinks.push(e);
                        }
                    }
                }
                Node::Fun("tanh", a) => {
                    let d = self.fun("tanhd", a);
                    let x = self.mul(a_k, d);
                    contrib.push((a, x));
                }
                Node::Fun(f, _) => panic!("symx: no derivative rule for {f}"),
            }
            for (c, v) in contrib {
                reach[c as usize] = true;
                let nv = match adj.get(&c) {
                    Some(&o) => self.add(o, v),
                    None => v,
                };
                adj.insert(c, nv);
            }
        }
        (
            wrt.iter().map(|w| *adj.get(w).unwrap_or(&zero)).collect(),
            kinks,
        )
    }
}

pub fn apply_fun(f: &str, x: f64) -> f64 {
    match f {
        "tanh" => x.tanh(),
        "exp" => x.exp(),
        "cosh" => x.cosh(),
        "sinh" => x.sinh(),
        "tanhd" => 1.0 / (x.cosh() * x.cosh()),
        "tanha" => x.tanh().abs(),
        "sqrt" => x.sqrt(),
        "ln" => x.ln(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "asinh" => x.asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "cbrt" => x.cbrt(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "round" => x.round(),
        "trunc" => x.trunc(),
        _ => f64::NAN,
    }
}
pub const FUNS: &[&str] = &[
    "tanh", "tanha", "exp", "cosh", "sinh", "sqrt", "ln", "sin", "cos", "tan", "asin", "acos", "atan",
    "asinh", "acosh", "atanh", "cbrt", "floor", "ceil", "round", "trunc",
];

fn rat_smt(c: &BigRational) -> String {
    let n = c.numer();
    let neg = n < &BigInt::zero();
    let abs = if neg { -n.clone() } else { n.clone() };
    let b = if c.denom().is_one() {
        format!("{abs}.0")
    } else {
        format!("(/ {abs}.0 {}.0)", c.denom())
    };
    if neg {
        format!("(- {b})")
    } else {
        b
    }
}

// -------------------------------------------------------------------- trait surface of the element
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                crate::chk::tick();
                Sym(ctx().$op(self.0, o.0))
            }
        }
        impl $tr<&Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &Sym) -> Sym {
                crate::chk::tick();
                Sym(ctx().$op(self.0, o.0))
            }
        }
        impl $tra for Sym {
            fn $fa(&mut self, o: Sym) {
                crate::chk::tick();
                *self = Sym(ctx().$op(self.0, o.0));
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
bin!(Div, div, DivAssign, div_assign, div);
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        crate::chk::tick();
        Sym(ctx().neg(self.0))
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(ctx().int(0))
    }
    fn is_zero(&self) -> bool {
        *self == Sym::zero()
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(ctx().int(1))
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        let mut c = ctx();
        let e = c.eq(self.0, o.0);
        c.decide(e)
    }
}
impl Sym {
    fn less(&self, o: &Sym) -> bool {
        let mut c = ctx();
        let e = c.lt(self.0, o.0);
        c.decide(e)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        Some(if self.less(o) {
            Ordering::Less
        } else if o.less(self) {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        self.less(o)
    }
    fn gt(&self, o: &Sym) -> bool {
        o.less(self)
    }
    fn le(&self, o: &Sym) -> bool {
        !o.less(self)
    }
    fn ge(&self, o: &Sym) -> bool {
        !self.less(o)
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}", self.0)
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}", self.0)
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + b)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, ()> {
        i64::from_str_radix(s, r).map(|i| Sym(ctx().int(i))).map_err(|_| ())
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        ctx().cst(self.0).and_then(|c| c.to_i64())
    }
    fn to_u64(&self) -> Option<u64> {
        ctx().cst(self.0).and_then(|c| c.to_u64())
    }
    fn to_f64(&self) -> Option<f64> {
        ctx().cst(self.0).and_then(|c| c.to_f64())
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        let f = n.to_f64()?;
        if f.fract() == 0.0 && f.abs() < 9e15 {
            return Some(Sym(ctx().int(f as i64)));
        }
        BigRational::from_float(f).map(|r| Sym(ctx().rat(r)))
    }
}
impl From<f32> for Sym {
    fn from(f: f32) -> Sym {
        <Sym as NumCast>::from(f).unwrap()
    }
}
macro_rules! funs {
    ($($f:ident),*) => { $( fn $f(self) -> Sym { Sym(ctx().fun(stringify!($f), self.0)) } )* };
}
impl Real for Sym {
    fn min_value() -> Sym {
        <Sym as NumCast>::from(f64::MIN).unwrap()
    }
    fn min_positive_value() -> Sym {
        <Sym as NumCast>::from(f64::MIN_POSITIVE).unwrap()
    }
    fn epsilon() -> Sym {
        <Sym as NumCast>::from(f64::EPSILON).unwrap()
    }
    fn max_value() -> Sym {
        <Sym as NumCast>::from(f64::MAX).unwrap()
    }
    funs!(floor, ceil, round, trunc, exp, ln, sqrt, cbrt, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh);
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn abs(self) -> Sym {
        let mut c = ctx();
        let z = c.int(0);
        let l = c.lt(self.0, z);
        let n = c.neg(self.0);
        Sym(c.ite(l, n, self.0))
    }
    fn signum(self) -> Sym {
        // as f64::signum on ordinary numbers (+0 counts as positive)
        let mut c = ctx();
        let z = c.int(0);
        let o = c.int(1);
        let m = c.int(-1);
        let l = c.lt(self.0, z);
        Sym(c.ite(l, m, o))
    }
    fn is_sign_positive(self) -> bool {
        self >= Sym::zero()
    }
    fn is_sign_negative(self) -> bool {
        self < Sym::zero()
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym::one() / self
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::one();
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, n: Sym) -> Sym {
        match n.to_f64() {
            Some(f) if f.fract() == 0.0 && f.abs() < 64.0 => self.powi(f as i32),
            _ => (n * self.ln()).exp(),
        }
    }
    fn exp2(self) -> Sym {
        (self * <Sym as NumCast>::from(2f64.ln()).unwrap()).exp()
    }
    fn log(self, base: Sym) -> Sym {
        self.ln() / base.ln()
    }
    fn log2(self) -> Sym {
        self.ln() / <Sym as NumCast>::from(2f64.ln()).unwrap()
    }
    fn log10(self) -> Sym {
        self.ln() / <Sym as NumCast>::from(10f64.ln()).unwrap()
    }
    fn to_degrees(self) -> Sym {
        self * <Sym as NumCast>::from(180.0 / std::f64::consts::PI).unwrap()
    }
    fn to_radians(self) -> Sym {
        self * <Sym as NumCast>::from(std::f64::consts::PI / 180.0).unwrap()
    }
    fn max(self, o: Sym) -> Sym {
        let mut c = ctx();
        let l = c.lt(self.0, o.0);
        Sym(c.ite(l, o.0, self.0))
    }
    fn min(self, o: Sym) -> Sym {
        let mut c = ctx();
        let l = c.lt(self.0, o.0);
        Sym(c.ite(l, self.0, o.0))
    }
    fn abs_sub(self, o: Sym) -> Sym {
        (self - o).max(Sym::zero())
    }
    fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    fn atan2(self, o: Sym) -> Sym {
        (self / o).atan()
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Sym {
        self.exp() - Sym::one()
    }
    fn ln_1p(self) -> Sym {
        (self + Sym::one()).ln()
    }
}
impl Numeric for Sym {}
