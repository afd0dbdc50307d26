//! Three more element types. `Ext`: the reals with NaN and the infinities, as floating point numbers behave up to
//! rounding, with `exp`, `cosh` and `sinh` overflowing and underflowing where f64 does. `Int<U>`: machine integers of
//! eight bits (unsigned if `U`), whose arithmetic panics on overflow. Both are built from symbolic reals; natively `Ext`
//! is f64 itself and `Int` is `I8`/`U8`, checked eight-bit integers. `Rnd`: reals with a bound of their rounding error.
use crate::env::*;
use crate::sym::*;
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::Numeric;
use std::cmp::Ordering;
use std::ops::*;

// ------------------------------------------------------------------ extended reals
#[derive(Clone, Copy)]
pub struct Ext {
    pub nan: B,
    pub inf: B,
    /// the value if finite, the sign if infinite, zero if NaN
    pub v: Sym,
}

fn or(a: B, b: B) -> B {
    ctx().or(a, b)
}
fn and(a: B, b: B) -> B {
    ctx().and(a, b)
}
fn not(a: B) -> B {
    ctx().not(a)
}
fn lit(a: bool) -> B {
    ctx().lit(a)
}
fn ite(c: B, a: Sym, b: Sym) -> Sym {
    Sym(ctx().ite(c, a.0, b.0))
}
fn ite_b(c: B, a: B, b: B) -> B {
    if a == b {
        return a;
    }
    let (x, n) = (and(c, a), not(c));
    or(x, and(n, b))
}
fn eq(a: Sym, b: Sym) -> B {
    ctx().eq(a.0, b.0)
}
fn lt(a: Sym, b: Sym) -> B {
    ctx().lt(a.0, b.0)
}
fn k(i: i64) -> Sym {
    Sym(ctx().int(i))
}
fn sign(a: Sym) -> Sym {
    ite(lt(a, k(0)), k(-1), k(1))
}

impl Ext {
    pub fn finite(v: Sym) -> Ext {
        Ext { nan: lit(false), inf: lit(false), v }
    }
    fn new(nan: B, inf: B, v: Sym) -> Ext {
        let inf = and(not(nan), inf);
        Ext { nan, inf, v: ite(nan, k(0), v) }
    }
    /// 0 finite, 1 and -1 infinite, 3 NaN
    pub fn class(self) -> Sym {
        ite(self.nan, k(3), ite(self.inf, self.v, k(0)))
    }
    /// the value, 0 unless finite
    pub fn part(self) -> Sym {
        ite(or(self.nan, self.inf), k(0), self.v)
    }
    pub fn same(self, o: Ext) -> B {
        let n = not(or(self.nan, o.nan));
        let i = ite_b(self.inf, o.inf, not(o.inf));
        and(n, and(i, eq(self.v, o.v)))
    }
    pub fn below(self, o: Ext) -> B {
        // values of finite numbers against the sign of an infinite one
        let l = ite_b(
            self.inf,
            ite_b(o.inf, lt(self.v, o.v), lt(self.v, k(0))),
            ite_b(o.inf, lt(k(0), o.v), lt(self.v, o.v)),
        );
        and(not(or(self.nan, o.nan)), l)
    }
    fn select(c: B, a: Ext, b: Ext) -> Ext {
        Ext { nan: ite_b(c, a.nan, b.nan), inf: ite_b(c, a.inf, b.inf), v: ite(c, a.v, b.v) }
    }
    fn x_add(self, o: Ext) -> Ext {
        let both = and(and(self.inf, o.inf), not(eq(self.v, o.v)));
        let nan = or(or(self.nan, o.nan), both);
        let v = ite(self.inf, self.v, ite(o.inf, o.v, self.v + o.v));
        Ext::new(nan, or(self.inf, o.inf), v)
    }
    fn x_neg(self) -> Ext {
        Ext { v: -self.v, ..self }
    }
    fn x_sub(self, o: Ext) -> Ext {
        let both = and(and(self.inf, o.inf), eq(self.v, o.v));
        let nan = or(or(self.nan, o.nan), both);
        let v = ite(self.inf, self.v, ite(o.inf, -o.v, self.v - o.v));
        Ext::new(nan, or(self.inf, o.inf), v)
    }
    fn zero_b(self) -> B {
        and(not(or(self.nan, self.inf)), eq(self.v, k(0)))
    }
    fn x_mul(self, o: Ext) -> Ext {
        let z = or(and(self.inf, o.zero_b()), and(o.inf, self.zero_b()));
        let nan = or(or(self.nan, o.nan), z);
        let inf = or(self.inf, o.inf);
        let v = if inf == lit(false) { self.v * o.v } else { ite(inf, sign(self.v) * sign(o.v), self.v * o.v) };
        Ext::new(nan, inf, v)
    }
    fn x_div(self, o: Ext) -> Ext {
        let z = or(and(self.inf, o.inf), and(self.zero_b(), o.zero_b()));
        let nan = or(or(self.nan, o.nan), z);
        let by0 = o.zero_b();
        let v = ite(by0, sign(self.v), ite(self.inf, self.v * sign(o.v), ite(o.inf, k(0), self.v / o.v)));
        Ext::new(nan, or(by0, self.inf), v)
    }
    fn x_fun(self, f: &'static str) -> Ext {
        let fin = |v: Sym| Sym(ctx().fun(f, v.0));
        // beyond these arguments f64 has no finite value
        let hi = |n: i64| lt(k(n), self.v);
        let lo = |n: i64| lt(self.v, k(-n));
        match f {
            "tanh" => Ext::new(self.nan, lit(false), ite(self.inf, self.v, fin(self.v))),
            "atan" | "floor" | "ceil" | "round" | "trunc" | "sin" | "cos" if self.inf == lit(false) => Ext::new(self.nan, self.inf, fin(self.v)),
            "exp" => {
                let up = ite_b(self.inf, lt(k(0), self.v), hi(709));
                let down = ite_b(self.inf, lt(self.v, k(0)), lo(746));
                Ext::new(self.nan, up, ite(up, k(1), ite(down, k(0), fin(self.v))))
            }
            "cosh" => {
                let up = or(self.inf, or(hi(710), lo(710)));
                Ext::new(self.nan, up, ite(up, k(1), fin(self.v)))
            }
            "sinh" => {
                let up = or(self.inf, or(hi(710), lo(710)));
                Ext::new(self.nan, up, ite(up, sign(self.v), fin(self.v)))
            }
            _ => panic!("symx: {f} of extended reals is not modelled"),
        }
    }
    fn x_abs(self) -> Ext {
        Ext { v: ite(lt(self.v, k(0)), -self.v, self.v), ..self }
    }
    fn x_max(self, o: Ext) -> Ext {
        Ext::select(self.nan, o, Ext::select(o.nan, self, Ext::select(self.below(o), o, self)))
    }
    fn x_min(self, o: Ext) -> Ext {
        Ext::select(self.nan, o, Ext::select(o.nan, self, Ext::select(self.below(o), self, o)))
    }
    fn x_k(i: i64) -> Ext {
        Ext::finite(k(i))
    }
    fn x_f(f: f64) -> Ext {
        Ext::finite(<Sym as NumCast>::from(f).expect("symx: constant"))
    }
    fn x_const(self) -> Option<f64> {
        self.v.to_f64()
    }
    fn x_eq(self, o: Ext) -> bool {
        let b = self.same(o);
        ctx().decide(b)
    }
    fn x_lt(self, o: Ext) -> bool {
        let b = self.below(o);
        ctx().decide(b)
    }
    fn x_cmp(self, o: Ext) -> Option<Ordering> {
        let n = or(self.nan, o.nan);
        if ctx().decide(n) {
            None
        } else if self.x_lt(o) {
            Some(Ordering::Less)
        } else if o.x_lt(self) {
            Some(Ordering::Greater)
        } else {
            Some(Ordering::Equal)
        }
    }
    fn x_ite_lt(a: Ext, b: Ext, x: Ext, y: Ext) -> Ext {
        Ext::select(a.below(b), x, y)
    }
}

// ------------------------------------------------------------------ eight-bit integers
#[derive(Clone, Copy)]
pub struct Int<const U: bool>(pub Sym);
impl<const U: bool> Int<U> {
    pub const LO: i64 = if U { 0 } else { -128 };
    pub const HI: i64 = if U { 255 } else { 127 };
    fn fit(v: Sym) -> Self {
        let b = or(lt(v, k(Self::LO)), lt(k(Self::HI), v));
        if ctx().decide(b) {
            panic!("attempt to compute with overflow");
        }
        Int(v)
    }
    fn x_add(self, o: Self) -> Self {
        Self::fit(self.0 + o.0)
    }
    fn x_sub(self, o: Self) -> Self {
        Self::fit(self.0 - o.0)
    }
    fn x_mul(self, o: Self) -> Self {
        Self::fit(self.0 * o.0)
    }
    fn x_neg(self) -> Self {
        Self::fit(-self.0)
    }
    fn x_div(self, _: Self) -> Self {
        panic!("symx: integer division is not modelled")
    }
    fn x_fun(self, f: &'static str) -> Self {
        panic!("symx: {f} of an integer")
    }
    fn x_abs(self) -> Self {
        Self::fit(ite(lt(self.0, k(0)), -self.0, self.0))
    }
    fn x_max(self, o: Self) -> Self {
        Int(ite(lt(self.0, o.0), o.0, self.0))
    }
    fn x_min(self, o: Self) -> Self {
        Int(ite(lt(self.0, o.0), self.0, o.0))
    }
    fn x_k(i: i64) -> Self {
        Int(k(i))
    }
    fn x_f(f: f64) -> Self {
        Int(k(f as i64))
    }
    fn x_const(self) -> Option<f64> {
        self.0.to_f64()
    }
    fn x_eq(self, o: Self) -> bool {
        self.0 == o.0
    }
    fn x_lt(self, o: Self) -> bool {
        self.0 < o.0
    }
    fn x_cmp(self, o: Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
    fn x_ite_lt(a: Self, b: Self, x: Self, y: Self) -> Self {
        Int(ite(lt(a.0, b.0), x.0, y.0))
    }
}

/// the native counterpart: eight-bit integers with checked arithmetic
#[derive(Clone, Copy)]
pub struct Oct<const U: bool>(pub i64);
impl<const U: bool> Oct<U> {
    fn fit(v: i64) -> Self {
        if U {
            Oct(u8::try_from(v).expect("overflow") as i64)
        } else {
            Oct(i8::try_from(v).expect("overflow") as i64)
        }
    }
    fn x_add(self, o: Self) -> Self {
        Self::fit(self.0 + o.0)
    }
    fn x_sub(self, o: Self) -> Self {
        Self::fit(self.0 - o.0)
    }
    fn x_mul(self, o: Self) -> Self {
        Self::fit(self.0 * o.0)
    }
    fn x_neg(self) -> Self {
        Self::fit(-self.0)
    }
    fn x_div(self, o: Self) -> Self {
        Self::fit(self.0 / o.0)
    }
    fn x_fun(self, f: &'static str) -> Self {
        panic!("{f} of an integer")
    }
    fn x_abs(self) -> Self {
        Self::fit(self.0.abs())
    }
    fn x_max(self, o: Self) -> Self {
        Oct(self.0.max(o.0))
    }
    fn x_min(self, o: Self) -> Self {
        Oct(self.0.min(o.0))
    }
    fn x_k(i: i64) -> Self {
        Oct(i)
    }
    fn x_f(f: f64) -> Self {
        Oct(f as i64)
    }
    fn x_const(self) -> Option<f64> {
        Some(self.0 as f64)
    }
    fn x_eq(self, o: Self) -> bool {
        self.0 == o.0
    }
    fn x_lt(self, o: Self) -> bool {
        self.0 < o.0
    }
    fn x_cmp(self, o: Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
    fn x_ite_lt(a: Self, b: Self, x: Self, y: Self) -> Self {
        if a.0 < b.0 {
            x
        } else {
            y
        }
    }
}

// ------------------------------------------------------------------ numbers with rounding errors
/// A number that arithmetic rounds: its exact value, a bound on the magnitude of what was added up to get it, and a
/// bound on its error, to first order in the unit roundoff. All three are terms over the magnitudes of the inputs,
/// whose signs are given by their names.
#[derive(Clone, Copy)]
pub struct Rnd {
    pub v: Sym,
    pub a: Sym,
    pub e: Sym,
}
fn named_sign(name: &str) -> bool {
    name.bytes().fold(7u32, |h, b| h.wrapping_mul(31) ^ b as u32) % 3 == 0
}
/// by how much a result may be less accurate than direct evaluation, before it counts; natively half of the digits of that
const SLACK: i64 = 1 << 16;
const SEEN: f64 = 64.0;
/// facts the solver needs of tanh where exponentials take its place
fn link_tanh_and_exp() {
    if !ctx().exp_seen {
        return;
    }
    let tanhs = std::mem::take(&mut ctx().tanhs);
    for (x, a) in tanhs {
        let s = ite(lt(x, k(0)), -x, x);
        Sym::assume(not(lt(s, a)));
        Sym::assume(not(lt(a * (k(1) + s), s)));
    }
}
impl Rnd {
    fn is(self, i: i64) -> bool {
        self.e.to_f64() == Some(0.0) && self.v.to_f64() == Some(i as f64)
    }
    fn x_add(self, o: Rnd) -> Rnd {
        if self.is(0) {
            return o;
        }
        if o.is(0) {
            return self;
        }
        let a = self.a + o.a;
        Rnd { v: self.v + o.v, a, e: self.e + o.e + a }
    }
    fn x_sub(self, o: Rnd) -> Rnd {
        self.x_add(o.x_neg())
    }
    fn x_neg(self) -> Rnd {
        Rnd { v: -self.v, ..self }
    }
    fn x_mul(self, o: Rnd) -> Rnd {
        for (x, y) in [(self, o), (o, self)] {
            if x.is(0) {
                return x;
            }
            if x.is(1) {
                return y;
            }
            if x.is(-1) {
                return y.x_neg();
            }
        }
        let a = self.a * o.a;
        Rnd { v: self.v * o.v, a, e: self.a * o.e + self.e * o.a + a }
    }
    fn x_div(self, o: Rnd) -> Rnd {
        let d = ite(lt(o.v, k(0)), -o.v, o.v);
        let a = self.a / d;
        Rnd { v: self.v / o.v, a, e: self.e / d + a * o.e / d + a }
    }
    fn x_fun(self, f: &'static str) -> Rnd {
        let v = Sym(ctx().fun(f, self.v.0));
        match f {
            "tanh" => {
                // no steeper than one, between x / (1 + x) and x, which matters beside exponentials only
                let a = Sym(ctx().fun("tanha", self.v.0));
                ctx().tanhs.push((self.v, a));
                link_tanh_and_exp();
                Rnd { v, a, e: self.e + a }
            }
            "exp" => {
                let x = self.v;
                Sym::assume(not(lt(v, k(1) + x)));
                Sym::assume(or(not(lt(x, k(1))), not(lt(k(1), v * (k(1) - x)))));
                ctx().exp_seen = true;
                link_tanh_and_exp();
                Rnd { v, a: v, e: v * (self.e + k(1)) }
            }
            _ => panic!("symx: rounding of {f} is not modelled"),
        }
    }
    fn x_abs(self) -> Rnd {
        Rnd { v: ite(lt(self.v, k(0)), -self.v, self.v), ..self }
    }
    fn select(c: B, x: Rnd, y: Rnd) -> Rnd {
        Rnd { v: ite(c, x.v, y.v), a: ite(c, x.a, y.a), e: ite(c, x.e, y.e) }
    }
    fn x_max(self, o: Rnd) -> Rnd {
        Rnd::select(lt(self.v, o.v), o, self)
    }
    fn x_min(self, o: Rnd) -> Rnd {
        Rnd::select(lt(self.v, o.v), self, o)
    }
    fn x_k(i: i64) -> Rnd {
        Rnd { v: k(i), a: k(i.abs()), e: k(0) }
    }
    fn x_f(f: f64) -> Rnd {
        let c = |f: f64| <Sym as NumCast>::from(f).expect("symx: constant");
        Rnd { v: c(f), a: c(f.abs()), e: k(0) }
    }
    fn x_const(self) -> Option<f64> {
        self.v.to_f64()
    }
    fn x_eq(self, o: Rnd) -> bool {
        self.v == o.v
    }
    fn x_lt(self, o: Rnd) -> bool {
        self.v < o.v
    }
    fn x_cmp(self, o: Rnd) -> Option<Ordering> {
        self.v.partial_cmp(&o.v)
    }
    fn x_ite_lt(a: Rnd, b: Rnd, x: Rnd, y: Rnd) -> Rnd {
        Rnd::select(lt(a.v, b.v), x, y)
    }
}

/// the native counterpart: numbers of 24 binary digits beside (nearly) exact ones
#[derive(Clone, Copy)]
pub struct App {
    pub x: f64,
    pub v: f64,
}
fn digits24(f: f64) -> f64 {
    if f == 0.0 || !f.is_finite() {
        return f;
    }
    f64::from_bits((f.to_bits() + (1 << 28)) & !((1 << 29) - 1))
}
impl App {
    fn of(x: f64, v: f64) -> App {
        App { x: digits24(x), v }
    }
    fn x_add(self, o: App) -> App {
        App::of(self.x + o.x, self.v + o.v)
    }
    fn x_sub(self, o: App) -> App {
        App::of(self.x - o.x, self.v - o.v)
    }
    fn x_neg(self) -> App {
        App { x: -self.x, v: -self.v }
    }
    fn x_mul(self, o: App) -> App {
        App::of(self.x * o.x, self.v * o.v)
    }
    fn x_div(self, o: App) -> App {
        App::of(self.x / o.x, self.v / o.v)
    }
    fn x_fun(self, f: &'static str) -> App {
        let g: fn(f64) -> f64 = match f {
            "tanh" => f64::tanh,
            "exp" => f64::exp,
            _ => panic!("rounding of {f} is not modelled"),
        };
        App::of(g(self.x), g(self.v))
    }
    fn x_abs(self) -> App {
        App { x: self.x.abs(), v: self.v.abs() }
    }
    fn x_max(self, o: App) -> App {
        if self.x < o.x { o } else { self }
    }
    fn x_min(self, o: App) -> App {
        if self.x < o.x { self } else { o }
    }
    fn x_k(i: i64) -> App {
        App { x: i as f64, v: i as f64 }
    }
    fn x_f(f: f64) -> App {
        App { x: digits24(f), v: f }
    }
    fn x_const(self) -> Option<f64> {
        Some(self.x)
    }
    fn x_eq(self, o: App) -> bool {
        self.x == o.x
    }
    fn x_lt(self, o: App) -> bool {
        self.x < o.x
    }
    fn x_cmp(self, o: App) -> Option<Ordering> {
        self.x.partial_cmp(&o.x)
    }
    fn x_ite_lt(a: App, b: App, x: App, y: App) -> App {
        if a.x < b.x { x } else { y }
    }
}

// ------------------------------------------------------------------ the trait surface of an element
macro_rules! bin {
    ([$($g:tt)*] $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident, $x:ident) => {
        impl<$($g)*> $tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                self.$x(o)
            }
        }
        impl<$($g)*> $tra for $t {
            fn $fa(&mut self, o: $t) {
                *self = self.$x(o);
            }
        }
    };
}
macro_rules! funs {
    ($($f:ident),*) => { $( fn $f(self) -> Self { self.x_fun(stringify!($f)) } )* };
}
macro_rules! surface {
    ([$($g:tt)*] $t:ty) => {
        bin!([$($g)*] $t, Add, add, AddAssign, add_assign, x_add);
        bin!([$($g)*] $t, Sub, sub, SubAssign, sub_assign, x_sub);
        bin!([$($g)*] $t, Mul, mul, MulAssign, mul_assign, x_mul);
        bin!([$($g)*] $t, Div, div, DivAssign, div_assign, x_div);
        impl<$($g)*> Rem for $t {
            type Output = $t;
            fn rem(self, o: $t) -> $t {
                self - (self / o).trunc() * o
            }
        }
        impl<$($g)*> Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                self.x_neg()
            }
        }
        impl<$($g)*> Zero for $t {
            fn zero() -> $t {
                <$t>::x_k(0)
            }
            fn is_zero(&self) -> bool {
                *self == <$t>::x_k(0)
            }
        }
        impl<$($g)*> One for $t {
            fn one() -> $t {
                <$t>::x_k(1)
            }
        }
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                self.x_eq(*o)
            }
        }
        impl<$($g)*> PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                self.x_cmp(*o)
            }
            fn lt(&self, o: &$t) -> bool {
                self.x_lt(*o)
            }
            fn gt(&self, o: &$t) -> bool {
                o.x_lt(*self)
            }
            fn le(&self, o: &$t) -> bool {
                self.x_lt(*o) || self.x_eq(*o)
            }
            fn ge(&self, o: &$t) -> bool {
                o.x_lt(*self) || self.x_eq(*o)
            }
        }
        impl<$($g)*> std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "element")
            }
        }
        impl<$($g)*> std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "element")
            }
        }
        impl<$($g)*> std::iter::Sum for $t {
            fn sum<I: Iterator<Item = $t>>(it: I) -> $t {
                it.fold(<$t>::x_k(0), |a, b| a + b)
            }
        }
        impl<$($g)*> Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(s: &str, r: u32) -> Result<$t, ()> {
                i64::from_str_radix(s, r).map(<$t>::x_k).map_err(|_| ())
            }
        }
        impl<$($g)*> ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> {
                self.x_const().and_then(|c| c.to_i64())
            }
            fn to_u64(&self) -> Option<u64> {
                self.x_const().and_then(|c| c.to_u64())
            }
            fn to_f64(&self) -> Option<f64> {
                self.x_const()
            }
        }
        impl<$($g)*> NumCast for $t {
            fn from<N: ToPrimitive>(n: N) -> Option<$t> {
                n.to_f64().map(<$t>::x_f)
            }
        }
        impl<$($g)*> From<f32> for $t {
            fn from(f: f32) -> $t {
                <$t>::x_f(f as f64)
            }
        }
        impl<$($g)*> Real for $t {
            fn min_value() -> $t {
                <$t>::x_f(f64::MIN)
            }
            fn min_positive_value() -> $t {
                <$t>::x_f(f64::MIN_POSITIVE)
            }
            fn epsilon() -> $t {
                <$t>::x_f(f64::EPSILON)
            }
            fn max_value() -> $t {
                <$t>::x_f(f64::MAX)
            }
            funs!(floor, ceil, round, trunc, exp, ln, sqrt, cbrt, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh);
            fn fract(self) -> $t {
                self - self.trunc()
            }
            fn abs(self) -> $t {
                self.x_abs()
            }
            fn signum(self) -> $t {
                let neg = <$t>::x_ite_lt(self, <$t>::x_k(0), <$t>::x_k(-1), <$t>::x_k(1));
                if self != self { self } else { neg }
            }
            fn is_sign_positive(self) -> bool {
                !self.is_sign_negative()
            }
            fn is_sign_negative(self) -> bool {
                self < <$t>::x_k(0)
            }
            fn mul_add(self, a: $t, b: $t) -> $t {
                self * a + b
            }
            fn recip(self) -> $t {
                <$t>::x_k(1) / self
            }
            fn powi(self, n: i32) -> $t {
                let mut r = <$t>::x_k(1);
                for _ in 0..n.unsigned_abs() {
                    r = r * self;
                }
                if n < 0 { r.recip() } else { r }
            }
            fn powf(self, n: $t) -> $t {
                match n.to_f64() {
                    Some(f) if f.fract() == 0.0 && f.abs() < 64.0 => self.powi(f as i32),
                    _ => (n * self.ln()).exp(),
                }
            }
            fn exp2(self) -> $t {
                (self * <$t>::x_f(2f64.ln())).exp()
            }
            fn log(self, base: $t) -> $t {
                self.ln() / base.ln()
            }
            fn log2(self) -> $t {
                self.ln() / <$t>::x_f(2f64.ln())
            }
            fn log10(self) -> $t {
                self.ln() / <$t>::x_f(10f64.ln())
            }
            fn to_degrees(self) -> $t {
                self * <$t>::x_f(180.0 / std::f64::consts::PI)
            }
            fn to_radians(self) -> $t {
                self * <$t>::x_f(std::f64::consts::PI / 180.0)
            }
            fn max(self, o: $t) -> $t {
                self.x_max(o)
            }
            fn min(self, o: $t) -> $t {
                self.x_min(o)
            }
            fn abs_sub(self, o: $t) -> $t {
                (self - o).max(<$t>::x_k(0))
            }
            fn hypot(self, o: $t) -> $t {
                (self * self + o * o).sqrt()
            }
            fn atan2(self, o: $t) -> $t {
                (self / o).atan()
            }
            fn sin_cos(self) -> ($t, $t) {
                (self.sin(), self.cos())
            }
            fn exp_m1(self) -> $t {
                self.exp() - <$t>::x_k(1)
            }
            fn ln_1p(self) -> $t {
                (self + <$t>::x_k(1)).ln()
            }
        }
        impl<$($g)*> Numeric for $t {}
    };
}
surface!([] Ext);
surface!([const U: bool] Int<U>);
surface!([const U: bool] Oct<U>);
surface!([] Rnd);
surface!([] App);

macro_rules! sym_elem {
    ([$($g:tt)*] $t:ty, $var:expr, $same:expr, $below:expr) => {
        impl<$($g)*> Elem for $t {
            type Bool = B;
            const SYM: bool = true;
            fn mk_var(name: &str) -> $t {
                $var(name)
            }
            fn k(i: i64) -> $t {
                <$t>::x_k(i)
            }
            fn ite_lt(a: $t, b: $t, x: $t, y: $t) -> $t {
                <$t>::x_ite_lt(a, b, x, y)
            }
            fn tag(x: $t, _: u64) -> $t {
                x
            }
            fn grads(_: $t, _: &[$t]) -> (Vec<$t>, Vec<B>) {
                panic!("symx: derivatives are not modelled here")
            }
            fn b_lit(b: bool) -> B {
                lit(b)
            }
            fn b_eq(a: $t, b: $t) -> B {
                $same(a, b)
            }
            fn b_lt(a: $t, b: $t) -> B {
                $below(a, b)
            }
            fn b_and(a: B, b: B) -> B {
                and(a, b)
            }
            fn b_or(a: B, b: B) -> B {
                or(a, b)
            }
            fn b_not(a: B) -> B {
                not(a)
            }
            fn assume(b: B) {
                Sym::assume(b)
            }
            fn choose(name: &str, arity: usize) -> usize {
                Sym::choose(name, arity)
            }
        }
    };
}
sym_elem!([] Ext, |n: &str| Ext::finite(Sym::mk_var(n)), |a: Ext, b: Ext| a.same(b), |a: Ext, b: Ext| a.below(b));
sym_elem!([const U: bool] Int<U>, |n: &str| Int(Sym::mk_var(n)), |a: Int<U>, b: Int<U>| eq(a.0, b.0), |a: Int<U>, b: Int<U>| lt(a.0, b.0));

fn magnitude(name: &str) -> Rnd {
    let m = Sym::mk_var(&format!("{MAGNITUDE}{name}"));
    // zero is their limit: no bound that holds for every positive magnitude fails there
    Sym::assume(lt(k(0), m));
    Rnd { v: if named_sign(name) { -m } else { m }, a: m, e: k(0) }
}
/// the same, with all 24 digits in use
fn magnitude_native(name: &str) -> App {
    let m = f64::mk_var(&format!("{MAGNITUDE}{name}"));
    let some = name.bytes().fold(3u32, |h, b| h.wrapping_mul(16777619) ^ b as u32) % 9973;
    let x = digits24(m * (1.0 + some as f64 / 150_000.0));
    App::x_k(if named_sign(name) { -1 } else { 1 }).x_mul(App { x, v: x })
}
sym_elem!([] Rnd, magnitude, |a: Rnd, b: Rnd| eq(a.v, b.v), |a: Rnd, b: Rnd| lt(a.v, b.v));

macro_rules! native_elem {
    ([$($g:tt)*] $t:ty, $var:expr) => {
        impl<$($g)*> Elem for $t {
            type Bool = bool;
            const SYM: bool = false;
            fn mk_var(name: &str) -> Self {
                $var(name)
            }
            fn k(i: i64) -> Self {
                <$t>::x_k(i)
            }
            fn ite_lt(a: Self, b: Self, x: Self, y: Self) -> Self {
                Self::x_ite_lt(a, b, x, y)
            }
            fn tag(x: Self, _: u64) -> Self {
                x
            }
            fn grads(_: Self, wrt: &[Self]) -> (Vec<Self>, Vec<bool>) {
                (vec![<$t>::x_k(0); wrt.len()], vec![])
            }
            fn b_lit(b: bool) -> bool {
                b
            }
            fn b_eq(a: Self, b: Self) -> bool {
                a == b
            }
            fn b_lt(a: Self, b: Self) -> bool {
                a < b
            }
            fn b_and(a: bool, b: bool) -> bool {
                a && b
            }
            fn b_or(a: bool, b: bool) -> bool {
                a || b
            }
            fn b_not(a: bool) -> bool {
                !a
            }
            fn assume(_: bool) {}
            fn choose(name: &str, arity: usize) -> usize {
                f64::choose(name, arity)
            }
        }
    };
}
native_elem!([const U: bool] Oct<U>, |n: &str| Oct(f64::mk_var(n) as i64));
native_elem!([] App, magnitude_native);

// ------------------------------------------------------------------ scenarios over these types
/// floating point elements: `f64`, or `Ext` in its place
pub trait Flt: Elem {
    /// finite, infinite or NaN
    fn any(name: &str) -> Self;
    fn undefined(self) -> Self::Bool;
}
impl Flt for Ext {
    fn any(name: &str) -> Ext {
        let (v, q) = (Sym::mk_var(name), Sym::mk_var(&format!("{name}_class")));
        let fin = lt(q, k(0));
        let plus = lt(q, k(1));
        let nan = not(lt(q, k(2)));
        let inf = and(not(fin), not(nan));
        Ext::new(nan, inf, ite(fin, v, ite(plus, k(1), k(-1))))
    }
    fn undefined(self) -> B {
        self.nan
    }
}
impl Flt for f64 {
    fn any(name: &str) -> f64 {
        let (v, q) = (f64::mk_var(name), f64::mk_var(&format!("{name}_class")));
        if q < 0.0 {
            v
        } else if q < 1.0 {
            f64::INFINITY
        } else if q < 2.0 {
            f64::NEG_INFINITY
        } else {
            f64::NAN
        }
    }
    fn undefined(self) -> bool {
        self.is_nan()
    }
}
/// eight-bit elements
pub trait Octet: Elem {
    const HI: i64;
    const UNSIGNED: bool;
    /// any value of the type, of the given sign
    fn octet(name: &str, negative: bool) -> Self;
    /// only inputs for which the magnitudes of these products add up to something the type holds
    fn fits(products: &[Vec<Self>]);
    /// their sum
    fn total(products: &[Vec<Self>]) -> Self;
}
impl<const U: bool> Octet for Int<U> {
    const HI: i64 = Self::HI;
    const UNSIGNED: bool = U;
    fn octet(name: &str, negative: bool) -> Self {
        let v = Sym::mk_var(&format!("{}{name}", crate::engine::WHOLE));
        // every number in the range, whole or not
        let (lo, hi) = if negative && !U { (Self::LO, -1) } else { (0, Self::HI) };
        Sym::assume(not(or(lt(v, k(lo)), lt(k(hi), v))));
        Int(v)
    }
    fn fits(products: &[Vec<Self>]) {
        let size = |x: Sym| ite(lt(x, k(0)), -x, x);
        let all = products.iter().fold(k(0), |s, p| s + p.iter().fold(k(1), |r, x| r * size(x.0)));
        Sym::assume(not(lt(k(Self::HI), all)));
    }
    fn total(products: &[Vec<Self>]) -> Self {
        Int(products.iter().fold(k(0), |s, p| s + p.iter().fold(k(1), |r, x| r * x.0)))
    }
}
impl<const U: bool> Octet for Oct<U> {
    const HI: i64 = if U { 255 } else { 127 };
    const UNSIGNED: bool = U;
    fn octet(name: &str, _: bool) -> Self {
        Self::mk_var(&format!("{}{name}", crate::engine::WHOLE))
    }
    fn fits(_: &[Vec<Self>]) {}
    fn total(products: &[Vec<Self>]) -> Self {
        Oct(products.iter().map(|p| p.iter().map(|x| x.0).product::<i64>()).sum())
    }
}

fn class(x: f64) -> f64 {
    if x.is_nan() {
        3.0
    } else if x.is_infinite() {
        x.signum()
    } else {
        0.0
    }
}
fn part(x: f64) -> f64 {
    if x.is_finite() {
        x
    } else {
        0.0
    }
}
/// runs a scenario on extended reals; each element is observed as a class and a value
pub fn ext_sym(e: &mut Env<Sym>, p: &[i64], f: fn(&mut Env<Ext>, &[i64])) {
    let mut x = Env::<Ext>::new();
    f(&mut x, p);
    for o in x.obs {
        match o.kind {
            ObsKind::Val { got, want, kinks } => {
                e.gval(format!("{} (finite, infinite or NaN)", o.label), got.class(), want.class(), &kinks);
                e.gval(o.label, got.part(), want.part(), &kinks);
            }
            ObsKind::Between { got, lo, hi } => {
                e.val(format!("{} (finite)", o.label), got.class(), k(0));
                e.between(o.label, got.part(), lo.part(), hi.part());
            }
            ObsKind::Iff { got, want } => e.iff(o.label, got, want),
            ObsKind::Flag { got } => e.flag(o.label, got),
        }
    }
}
pub fn ext_conc(e: &mut Env<f64>, p: &[i64], f: fn(&mut Env<f64>, &[i64])) {
    let mut x = Env::<f64>::new();
    f(&mut x, p);
    for o in x.obs {
        match o.kind {
            ObsKind::Val { got, want, kinks } => {
                e.gval(format!("{} (finite, infinite or NaN)", o.label), class(got), class(want), &kinks);
                e.gval(o.label, part(got), part(want), &kinks);
            }
            ObsKind::Between { got, lo, hi } => {
                e.val(format!("{} (finite)", o.label), class(got), 0.0);
                e.between(o.label, part(got), lo, hi);
            }
            kind => e.obs.push(Obs { label: o.label, kind }),
        }
    }
}
pub fn int_sym<const U: bool>(e: &mut Env<Sym>, p: &[i64], f: fn(&mut Env<Int<U>>, &[i64])) {
    let mut x = Env::<Int<U>>::new();
    f(&mut x, p);
    for o in x.obs {
        match o.kind {
            ObsKind::Val { got, want, kinks } => e.gval(o.label, got.0, want.0, &kinks),
            ObsKind::Between { got, lo, hi } => e.between(o.label, got.0, lo.0, hi.0),
            ObsKind::Iff { got, want } => e.iff(o.label, got, want),
            ObsKind::Flag { got } => e.flag(o.label, got),
        }
    }
}
pub fn int_conc<const U: bool>(e: &mut Env<f64>, p: &[i64], f: fn(&mut Env<Oct<U>>, &[i64])) {
    let mut x = Env::<Oct<U>>::new();
    f(&mut x, p);
    for o in x.obs {
        match o.kind {
            ObsKind::Val { got, want, kinks } => e.gval(o.label, got.0 as f64, want.0 as f64, &kinks),
            ObsKind::Between { got, lo, hi } => e.between(o.label, got.0 as f64, lo.0 as f64, hi.0 as f64),
            ObsKind::Iff { got, want } => e.iff(o.label, got, want),
            ObsKind::Flag { got } => e.flag(o.label, got),
        }
    }
}
/// runs a scenario on numbers that are rounded: the error of each observed value is no worse than that of the expected one
pub fn rnd_sym(e: &mut Env<Sym>, p: &[i64], f: fn(&mut Env<Rnd>, &[i64])) {
    let mut x = Env::<Rnd>::new();
    f(&mut x, p);
    let mut bounds = vec![];
    for o in x.obs {
        match o.kind {
            ObsKind::Val { got, want, .. } => {
                let (lo, hi) = (k(-1), k(SLACK) * (want.e + want.a));
                bounds.extend([(lo.0, got.e.0), (got.e.0, hi.0)]);
                e.between(format!("{}: error in units of roundoff", o.label), got.e, lo, hi)
            }
            ObsKind::Between { .. } => panic!("symx: ranges of rounded numbers are not modelled"),
            ObsKind::Iff { got, want } => e.iff(o.label, got, want),
            ObsKind::Flag { got } => e.flag(o.label, got),
        }
    }
    // usually the bounds follow from the signs of their products alone; otherwise they are left to the nonlinear query
    bounds.sort();
    bounds.dedup();
    if ctx().guide.is_none() && ctx().le_by_products(&bounds) {
        for (p, q) in bounds {
            Sym::assume(not(lt(Sym(q), Sym(p))));
        }
    }
}
pub fn rnd_conc(e: &mut Env<f64>, p: &[i64], f: fn(&mut Env<App>, &[i64])) {
    let mut x = Env::<App>::new();
    f(&mut x, p);
    for o in x.obs {
        match o.kind {
            ObsKind::Val { got, want, .. } => {
                let err = (got.x - want.v).abs() * (1u64 << 24) as f64 * (SLACK as f64 / SEEN);
                e.between(format!("{}: error in units of roundoff", o.label), err, 0.0, 0.0)
            }
            ObsKind::Between { .. } => panic!("ranges of rounded numbers are not modelled"),
            ObsKind::Iff { got, want } => e.iff(o.label, got, want),
            ObsKind::Flag { got } => e.flag(o.label, got),
        }
    }
}
#[macro_export]
macro_rules! scen_rounded {
    ($name:literal, $about:literal, $params:expr, $f:ident) => {
        $crate::engine::Scenario {
            name: $name,
            about: $about,
            params: $params,
            sym: |e, p| $crate::ext::rnd_sym(e, p, $f::<$crate::ext::Rnd>),
            conc: |e, p| $crate::ext::rnd_conc(e, p, $f::<$crate::ext::App>),
            max_paths: 4096,
        }
    };
}
#[macro_export]
macro_rules! scen_floats {
    ($name:literal, $about:literal, $params:expr, $f:ident) => {
        $crate::engine::Scenario {
            name: $name,
            about: $about,
            params: $params,
            sym: |e, p| $crate::ext::ext_sym(e, p, $f::<$crate::ext::Ext>),
            conc: |e, p| $crate::ext::ext_conc(e, p, $f::<f64>),
            max_paths: 4096,
        }
    };
}
#[macro_export]
macro_rules! scen_ints {
    ($name:literal, $about:literal, $params:expr, $f:ident, $u:literal) => {
        $crate::engine::Scenario {
            name: $name,
            about: $about,
            params: $params,
            sym: |e, p| $crate::ext::int_sym::<$u>(e, p, $f::<$crate::ext::Int<$u>>),
            conc: |e, p| $crate::ext::int_conc::<$u>(e, p, $f::<$crate::ext::Oct<$u>>),
            max_paths: 4096,
        }
    };
}
