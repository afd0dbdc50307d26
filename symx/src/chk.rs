//! Element faults: a fuse that makes the element arithmetic of the real code panic at a chosen operation, as the
#![allow(dead_code, unused_macros)]
//! arithmetic of machine integers does on overflow. `Chk` is f64 with that fuse, for native replays.
use crate::engine::Params;
use crate::env::*;
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::Numeric;
use std::ops::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

static FUSE: AtomicI64 = AtomicI64::new(-1);
static COUNT: AtomicU64 = AtomicU64::new(0);

/// one element operation
pub fn tick() {
    COUNT.fetch_add(1, SeqCst);
    if FUSE.load(SeqCst) >= 0 && FUSE.fetch_sub(1, SeqCst) == 0 {
        panic!("element fault");
    }
}
/// how many element operations `f` does
pub fn counted(f: impl FnOnce()) -> u64 {
    FUSE.store(-1, SeqCst);
    COUNT.store(0, SeqCst);
    f();
    COUNT.load(SeqCst)
}
/// runs `f` with a fault at its element operation number `k`; true if it panicked
pub fn with_fault(k: u64, f: impl FnOnce()) -> bool {
    FUSE.store(k as i64, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    FUSE.store(-1, SeqCst);
    if let Err(e) = &r {
        if is_engine_panic(&**e) {
            std::panic::resume_unwind(r.unwrap_err());
        }
    }
    r.is_err()
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Chk(pub f64);

macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl $tr for Chk {
            type Output = Chk;
            fn $f(self, o: Chk) -> Chk {
                tick();
                Chk(self.0.$f(o.0))
            }
        }
        impl $tra for Chk {
            fn $fa(&mut self, o: Chk) {
                tick();
                self.0.$fa(o.0)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign);
bin!(Sub, sub, SubAssign, sub_assign);
bin!(Mul, mul, MulAssign, mul_assign);
bin!(Div, div, DivAssign, div_assign);
bin!(Rem, rem, RemAssign, rem_assign);
impl Neg for Chk {
    type Output = Chk;
    fn neg(self) -> Chk {
        tick();
        Chk(-self.0)
    }
}
impl Zero for Chk {
    fn zero() -> Chk {
        Chk(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Chk {
    fn one() -> Chk {
        Chk(1.0)
    }
}
impl std::fmt::Debug for Chk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::Display for Chk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::iter::Sum for Chk {
    fn sum<I: Iterator<Item = Chk>>(it: I) -> Chk {
        it.fold(Chk::zero(), |a, b| a + b)
    }
}
impl Num for Chk {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Chk, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Chk)
    }
}
impl ToPrimitive for Chk {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Chk {
    fn from<T: ToPrimitive>(n: T) -> Option<Chk> {
        n.to_f64().map(Chk)
    }
}
impl From<f32> for Chk {
    fn from(f: f32) -> Chk {
        Chk(f as f64)
    }
}
macro_rules! consts { ($($f:ident),*) => { $( fn $f() -> Chk { Chk(<f64 as Real>::$f()) } )* } }
macro_rules! un { ($($f:ident),*) => { $( fn $f(self) -> Chk { Chk(Real::$f(self.0)) } )* } }
macro_rules! bi { ($($f:ident),*) => { $( fn $f(self, o: Chk) -> Chk { Chk(Real::$f(self.0, o.0)) } )* } }
impl Real for Chk {
    consts!(min_value, min_positive_value, epsilon, max_value);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians,
        cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    bi!(powf, log, max, min, abs_sub, hypot, atan2);
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: Chk, b: Chk) -> Chk {
        self * a + b
    }
    fn powi(self, n: i32) -> Chk {
        Chk(Real::powi(self.0, n))
    }
    fn sin_cos(self) -> (Chk, Chk) {
        (self.sin(), self.cos())
    }
}
impl Numeric for Chk {}

impl Elem for Chk {
    type Bool = bool;
    const SYM: bool = false;
    fn mk_var(name: &str) -> Chk {
        Chk(f64::mk_var(name))
    }
    fn k(i: i64) -> Chk {
        Chk(i as f64)
    }
    fn ite_lt(a: Chk, b: Chk, x: Chk, y: Chk) -> Chk {
        if a < b {
            x
        } else {
            y
        }
    }
    fn tag(x: Chk, _: u64) -> Chk {
        x
    }
    fn grads(_loss: Chk, wrt: &[Chk]) -> (Vec<Chk>, Vec<bool>) {
        (vec![Chk(f64::NAN); wrt.len()], vec![])
    }
    fn b_lit(b: bool) -> bool {
        b
    }
    fn b_eq(a: Chk, b: Chk) -> bool {
        a == b
    }
    fn b_lt(a: Chk, b: Chk) -> bool {
        a < b
    }
    fn b_and(a: bool, b: bool) -> bool {
        a && b
    }
    fn b_or(a: bool, b: bool) -> bool {
        a || b
    }
    fn b_not(a: bool) -> bool {
        !a
    }
    fn assume(_: bool) {}
    fn choose(name: &str, arity: usize) -> usize {
        f64::choose(name, arity)
    }
}

/// a scenario written for any element type, run natively on `Chk`
pub fn natively(e: &mut Env<f64>, p: &Params, f: fn(&mut Env<Chk>, &[i64])) {
    let mut c = Env::<Chk>::new();
    f(&mut c, p);
    for o in c.obs {
        let kind = match o.kind {
            ObsKind::Val { got, want, kinks } => ObsKind::Val { got: got.0, want: want.0, kinks },
            ObsKind::Between { got, lo, hi } => ObsKind::Between { got: got.0, lo: lo.0, hi: hi.0 },
            ObsKind::Iff { got, want } => ObsKind::Iff { got, want },
            ObsKind::Flag { got } => ObsKind::Flag { got },
        };
        e.obs.push(Obs { label: o.label, kind });
    }
}

#[macro_export]
macro_rules! scen_faults {
    ($name:literal, $about:literal, $params:expr, $f:ident) => {
        $crate::engine::Scenario {
            name: $name,
            about: $about,
            params: $params,
            sym: $f::<$crate::sym::Sym>,
            conc: |e, p| $crate::chk::natively(e, &p.to_vec(), $f::<$crate::chk::Chk>),
            max_paths: 4096,
        }
    };
}
