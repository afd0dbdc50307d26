//! What a scenario sees: symbolic inputs, observations of the real code, expected terms.
use crate::sym::*;
use num::traits::real::Real;
use rust_light::tensor::Numeric;
use std::collections::HashMap;
use std::ops::Neg;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub static CONC: Mutex<Option<HashMap<String, f64>>> = Mutex::new(None);

pub fn hint(name: &str) -> f64 {
    // FNV-1a, mapped to small non-zero integers
    let mut x: u64 = 0xcbf29ce484222325 ^ crate::seed();
    for b in name.bytes() {
        x ^= b as u64;
        x = x.wrapping_mul(0x100000001b3);
    }
    x ^= x >> 29;
    let v = (x % 14) as i64;
    let v = if v < 7 { v - 7 } else { v - 6 };
    if name.starts_with("mag_") {
        return v.abs() as f64;
    }
    v as f64
}

pub trait Elem:
    Numeric + Real + Neg<Output = Self> + std::fmt::Debug + Send + Sync + 'static
{
    type Bool: Copy;
    const SYM: bool;
    fn mk_var(name: &str) -> Self;
    fn k(i: i64) -> Self;
    /// if a < b then x else y, without deciding the comparison
    fn ite_lt(a: Self, b: Self, x: Self, y: Self) -> Self;
    /// the same value, marked so that the derivative with respect to this occurrence can be taken
    fn tag(x: Self, n: u64) -> Self;
    fn grads(loss: Self, wrt: &[Self]) -> (Vec<Self>, Vec<Self::Bool>);
    fn b_lit(b: bool) -> Self::Bool;
    fn b_eq(a: Self, b: Self) -> Self::Bool;
    fn b_lt(a: Self, b: Self) -> Self::Bool;
    fn b_and(a: Self::Bool, b: Self::Bool) -> Self::Bool;
    fn b_or(a: Self::Bool, b: Self::Bool) -> Self::Bool;
    fn b_not(a: Self::Bool) -> Self::Bool;
    fn assume(b: Self::Bool);
    /// one of `arity` ways to go on
    fn choose(name: &str, arity: usize) -> usize;
}

impl Elem for Sym {
    type Bool = B;
    const SYM: bool = true;
    fn mk_var(name: &str) -> Sym {
        ctx().var(name)
    }
    fn k(i: i64) -> Sym {
        Sym(ctx().int(i))
    }
    fn ite_lt(a: Sym, b: Sym, x: Sym, y: Sym) -> Sym {
        let mut c = ctx();
        let l = c.lt(a.0, b.0);
        Sym(c.ite(l, x.0, y.0))
    }
    fn tag(x: Sym, n: u64) -> Sym {
        Sym(ctx().tag(x.0, n))
    }
    fn grads(loss: Sym, wrt: &[Sym]) -> (Vec<Sym>, Vec<B>) {
        let w: Vec<u32> = wrt.iter().map(|s| s.0).collect();
        let (g, k) = ctx().grad(loss.0, &w);
        (g.into_iter().map(Sym).collect(), k)
    }
    fn b_lit(b: bool) -> B {
        ctx().lit(b)
    }
    fn b_eq(a: Sym, b: Sym) -> B {
        ctx().eq(a.0, b.0)
    }
    fn b_lt(a: Sym, b: Sym) -> B {
        ctx().lt(a.0, b.0)
    }
    fn b_and(a: B, b: B) -> B {
        ctx().and(a, b)
    }
    fn b_or(a: B, b: B) -> B {
        ctx().or(a, b)
    }
    fn b_not(a: B) -> B {
        ctx().not(a)
    }
    fn assume(b: B) {
        let mut c = ctx();
        if let Some(g) = c.guide.clone() {
            c.inadmissible |= !c.eval_b(b, &g);
            return;
        }
        c.assume(b, true);
    }
    fn choose(name: &str, arity: usize) -> usize {
        ctx().choose(name, arity)
    }
}

impl Elem for f64 {
    type Bool = bool;
    const SYM: bool = false;
    fn mk_var(name: &str) -> f64 {
        let g = CONC.lock().unwrap_or_else(|e| e.into_inner());
        g.as_ref()
            .and_then(|m| m.get(name).cloned())
            .unwrap_or_else(|| hint(name))
    }
    fn k(i: i64) -> f64 {
        i as f64
    }
    fn ite_lt(a: f64, b: f64, x: f64, y: f64) -> f64 {
        if a < b {
            x
        } else {
            y
        }
    }
    fn tag(x: f64, _: u64) -> f64 {
        x
    }
    fn grads(_loss: f64, wrt: &[f64]) -> (Vec<f64>, Vec<bool>) {
        // expected gradients of a concrete run come from the symbolic side
        (vec![f64::NAN; wrt.len()], vec![])
    }
    fn b_lit(b: bool) -> bool {
        b
    }
    fn b_eq(a: f64, b: f64) -> bool {
        a == b
    }
    fn b_lt(a: f64, b: f64) -> bool {
        a < b
    }
    fn b_and(a: bool, b: bool) -> bool {
        a && b
    }
    fn b_or(a: bool, b: bool) -> bool {
        a || b
    }
    fn b_not(a: bool) -> bool {
        !a
    }
    fn assume(_: bool) {}
    fn choose(name: &str, arity: usize) -> usize {
        let v = f64::mk_var(name);
        if v >= 0.0 && v < arity as f64 && v.fract() == 0.0 {
            v as usize
        } else {
            arity - 1
        }
    }
}

pub enum ObsKind<T: Elem> {
    /// got must equal want (outside the listed kinks)
    Val { got: T, want: T, kinks: Vec<T::Bool> },
    /// lo <= got <= hi
    Between { got: T, lo: T, hi: T },
    /// got must be the truth value of want
    Iff { got: bool, want: T::Bool },
    /// concrete expectation
    Flag { got: bool },
}
pub struct Obs<T: Elem> {
    pub label: String,
    pub kind: ObsKind<T>,
}

pub struct Env<T: Elem> {
    pub obs: Vec<Obs<T>>,
    pub ctx: String,
}

impl<T: Elem> Env<T> {
    pub fn new() -> Self {
        Env {
            obs: vec![],
            ctx: String::new(),
        }
    }
    pub fn var(&mut self, name: &str) -> T {
        T::mk_var(name)
    }
    pub fn vars(&mut self, name: &str, n: usize) -> Vec<T> {
        (0..n).map(|i| T::mk_var(&format!("{name}{i}"))).collect()
    }
    fn push(&mut self, label: String, kind: ObsKind<T>) {
        let label = if self.ctx.is_empty() {
            label
        } else {
            format!("{}: {}", self.ctx, label)
        };
        self.obs.push(Obs { label, kind });
    }
    pub fn val(&mut self, label: impl Into<String>, got: T, want: T) {
        self.push(
            label.into(),
            ObsKind::Val {
                got,
                want,
                kinks: vec![],
            },
        );
    }
    pub fn gval(&mut self, label: impl Into<String>, got: T, want: T, kinks: &[T::Bool]) {
        self.push(
            label.into(),
            ObsKind::Val {
                got,
                want,
                kinks: kinks.to_vec(),
            },
        );
    }
    pub fn between(&mut self, label: impl Into<String>, got: T, lo: T, hi: T) {
        self.push(label.into(), ObsKind::Between { got, lo, hi });
    }
    pub fn iff(&mut self, label: impl Into<String>, got: bool, want: T::Bool) {
        self.push(label.into(), ObsKind::Iff { got, want });
    }
    pub fn flag(&mut self, label: impl Into<String>, got: bool) {
        self.push(label.into(), ObsKind::Flag { got });
    }
    /// run real code that must return normally; a panic is an observation
    pub fn ok<R>(&mut self, label: impl Into<String>, f: impl FnOnce() -> R) -> Option<R> {
        let r = catch(f);
        self.flag(
            format!("{} completes without panicking", label.into()),
            r.is_some(),
        );
        r
    }
    /// run real code that must refuse by panicking
    pub fn rejects<R>(&mut self, label: impl Into<String>, f: impl FnOnce() -> R) {
        let r = catch(f);
        self.flag(format!("{} is rejected", label.into()), r.is_none());
    }
}

/// None if `f` panicked. Engine failures are re-raised.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if is_engine_panic(&*e) {
                std::panic::resume_unwind(e);
            }
            None
        }
    }
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
pub fn is_engine_panic(e: &(dyn std::any::Any + Send)) -> bool {
    let t = panic_text(e);
    t.starts_with("symx:") || t.contains("z3 died") || t.contains("cannot start z3")
}
