//! C28: NaN, infinities and saturation. C29: machine integers.
use crate::engine::Scenario;
use crate::env::*;
use crate::ext::{Flt, Octet};
use crate::refmodel::*;
use crate::{scen_floats, scen_ints};
use rust_light::nn::{Linear, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

// ------------------------------------------------------------------ C28
/// a tensor whose elements may be finite, infinite or NaN, each on its own
fn anything<T: Flt>(name: &str, shape: &[usize]) -> Nd<T> {
    Nd::new(shape, (0..size(shape)).map(|i| T::any(&format!("{name}{i}"))).collect())
}
/// finite elements except at the given positions
fn spotted<T: Flt>(e: &mut Env<T>, name: &str, shape: &[usize], at: &[usize]) -> Nd<T> {
    let mut n = fresh(e, name, shape);
    for &i in at {
        if i < n.data.len() {
            n.data[i] = T::any(&format!("{name}s{i}"));
        }
    }
    n
}
/// a slice of a larger tensor of anything
fn any_view<T: Flt>(name: &str, shape: &[usize], lo: usize, hi: usize) -> (RcTensor<T>, TensorView<T>, Nd<T>) {
    let bs: Vec<usize> = shape.iter().map(|d| d + lo + hi).collect();
    let base = anything::<T>(name, &bs);
    let r: Vec<(usize, usize)> = shape.iter().map(|d| (lo, lo + d)).collect();
    let rc = base.rc();
    let v = rc.slice(ranges(&r));
    (rc, v, base.window(&r))
}
macro_rules! chk {
    ($e:expr, $l:expr, $f:expr, $w:expr) => {{
        let l = $l.to_string();
        if let Some(x) = $e.ok(l.clone(), || $f) {
            same($e, &l, &x, $w);
        }
    }};
}

fn carried<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let a = anything::<T>("a", &s);
    let (rc, raw) = (a.rc(), a.raw());
    same(e, "a tensor", &rc, &a);
    same(e, "a raw tensor", &raw, &a);
    chk!(e, "a deep clone", rc.deep_clone(), &a);
    chk!(e, "a raw clone", raw.clone(), &a);
    let whole: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    chk!(e, "the whole as a slice", rc.slice(ranges(&whole)), &a);
    chk!(e, "the whole reshaped", rc.slice(ranges(&whole)).reshape(vec![1, size(&s)]), &a.reshape(&[1, size(&s)]));
    chk!(e, "a filled tensor", RcTensor::new_with_filler(s.clone(), a.data[0]), &Nd::fill(&s, a.data[0]));
    if s.iter().all(|&d| d > 1) {
        let part: Vec<(usize, usize)> = s.iter().map(|&d| (1, d)).collect();
        chk!(e, "a part", rc.slice(ranges(&part)), &a.window(&part));
        chk!(e, "a part as a tensor", rc.slice(ranges(&part)).to_tensor(), &a.window(&part));
    }
}

fn cube<T: Elem>(x: T) -> T {
    x * x * x
}
fn pointwise<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let a = anything::<T>("a", &s);
    let (ac, ar) = (a.rc(), a.raw());
    chk!(e, "-x", -&ac, &a.neg());
    chk!(e, "-raw", -&ar, &a.neg());
    chk!(e, "tanh", F::tanh(ac.clone()), &a.tanh());
    chk!(e, "abs", ac.abs(), &a.abs());
    chk!(e, "a user function", F::generic_unary_op(&ac, cube), &a.map(cube));
    let (_k, v, n) = any_view::<T>("v", &s, 1, 0);
    chk!(e, "a user function of a slice", F::generic_unary_op(&v, cube), &n.map(cube));
    // relu of NaN is not claimed
    if let Some(x) = e.ok("relu", || F::relu(ac.clone())) {
        e.flag("relu keeps the shape", x.shape().to_vec() == s);
        let w = a.relu();
        for i in indices(&s) {
            if let Some(v) = e.ok(format!("relu{i:?}"), || *x.get(&i).unwrap()) {
                e.gval(format!("relu{i:?}"), v, w.at(&i), &[a.at(&i).undefined()]);
            }
        }
    }
    same(e, "the operand afterwards", &ac, &a);
}

/// params: shape, shape
fn combined<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (s, t) = (r.shape(), r.shape());
    let (a, b) = (anything::<T>("a", &s), anything::<T>("b", &t));
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    chk!(e, "a + b", &ac + &bc, &a.add(&b));
    chk!(e, "a + b by value", ac.clone() + bc.clone(), &a.add(&b));
    chk!(e, "raw a + b", &ar + &br, &a.add(&b));
    chk!(e, "a - b", &ac - &bc, &a.sub(&b));
    chk!(e, "a - b by value", ac.clone() - bc.clone(), &a.sub(&b));
    chk!(e, "raw a - b", &ar - &br, &a.sub(&b));
    if s == t || s.is_empty() || t.is_empty() {
        let m = a.zip(&b, |x, y| x * y);
        chk!(e, "a * b", &ac * &bc, &m);
        chk!(e, "raw a * b", &ar * &br, &m);
        if s == t {
            chk!(e, "element_wise_multiplication", F::element_wise_multiplication(&ac, &bc), &m);
        }
    }
    let (_k, v, n) = any_view::<T>("v", &t, 0, 1);
    chk!(e, "a + slice", &*ac + &v, &a.add(&n));
}

/// params: kind of reduction, shape, shape, positions that may be infinite or NaN
fn products<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let kind = r.int();
    let (s, t) = (r.shape(), r.shape());
    let (na, nb) = (r.us(), r.us());
    let a = spotted(e, "a", &s, &[na]);
    let b = spotted(e, "b", &t, &[nb]);
    let (ac, bc) = (a.rc(), b.rc());
    match kind {
        0 => {
            let m = a.matmul(&b);
            chk!(e, "a.bmm(b)", ac.bmm(&bc), &m);
            chk!(e, "raw a.bmm(b)", a.raw().bmm(&b.raw()), &m);
            let base = {
                let mut q = fresh(e, "m", &[t[0] + 1, t[1] + 1]);
                for i in indices(&t) {
                    q.data[flat(&[t[0] + 1, t[1] + 1], &[i[0] + 1, i[1]])] = b.at(&i);
                }
                q.rc()
            };
            let v = base.slice(ranges(&[(1, t[0] + 1), (0, t[1])]));
            chk!(e, "a.bmm(slice)", ac.bmm(&v), &m);
        }
        _ => {
            let d = Nd::new(&[1], vec![a.dot(&b)]);
            let _ = &d;
            if let Some(x) = e.ok("dot", || F::dot(&ac, &bc)) {
                if let Some(v) = e.ok("its element", || *x.get_first_elem()) {
                    e.val("dot", v, a.dot(&b));
                }
            }
        }
    }
}
fn sums<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let a = anything::<T>("a", &s);
    if let Some(x) = e.ok("sum", || a.rc().sum()) {
        if let Some(v) = e.ok("its element", || *x.get_first_elem()) {
            e.val("sum", v, a.sum());
        }
    }
    if let Some(x) = e.ok("sum of a raw tensor", || a.raw().sum()) {
        if let Some(v) = e.ok("its element", || *x.get_first_elem()) {
            e.val("sum of a raw tensor", v, a.sum());
        }
    }
    let (_k, v, n) = any_view::<T>("v", &s, 0, 1);
    if let Some(x) = e.ok("sum of a slice", || v.sum()) {
        if let Some(v) = e.ok("its element", || *x.get_first_elem()) {
            e.val("sum of a slice", v, n.sum());
        }
    }
}

fn equality<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let (a, b) = (anything::<T>("a", &s), anything::<T>("b", &s));
    let want = a.data.iter().zip(&b.data).fold(T::b_lit(true), |w, (&x, &y)| T::b_and(w, T::b_eq(x, y)));
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    if let Some(r) = e.ok("a == b", || ac == bc) {
        e.iff("a == b", r, want);
    }
    if let Some(r) = e.ok("raw a == b", || ar == br) {
        e.iff("raw a == b", r, want);
    }
    let whole: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    if let Some(r) = e.ok("slice == b", || ac.slice(ranges(&whole)) == bc) {
        e.iff("slice == b", r, want);
    }
}

/// gradients: sums of contributions, and their use by the optimiser. params: shape, contributions
fn gradients<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let s = r.shape();
    let n = r.us();
    let x = fresh(e, "x", &s).rc();
    let mut want: Option<Nd<T>> = None;
    for k in 0..n {
        let g = anything::<T>(&format!("g{k}_"), &s);
        if e.ok("update_grad", || x.update_grad(g.rc())).is_none() {
            return;
        }
        want = Some(match want {
            None => g,
            Some(w) => w.add(&g),
        });
    }
    let w = want.unwrap();
    match e.ok("grad", || x.grad()) {
        Some(g) => same(e, "the gradient", &g, &w),
        None => return,
    }
}
fn step<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (i, o) = (r.us(), r.us());
    let (na, nb) = (r.us(), r.us());
    let (w, b) = (fresh(e, "w", &[i, o]), fresh(e, "b", &[o]));
    let gw = spotted(e, "gw", &[i, o], &[na]);
    let gb = spotted(e, "gb", &[o], &[nb]);
    let lr = e.var("lr");
    let mut m = Linear::new(w.rc(), b.rc(), None);
    for (q, g) in m.params().into_iter().zip([&gw, &gb]) {
        q.update_grad(g.rc());
    }
    if e.ok("sgd_step", || sgd_step(&mut m, RcTensor::scalar(lr))).is_none() {
        return;
    }
    let after: Vec<RcTensor<T>> = m.params().into_iter().collect();
    e.flag("two parameters", after.len() == 2);
    for (q, (v, g)) in after.iter().zip([(&w, &gw), (&b, &gb)]) {
        same(e, "a parameter after the step", q, &v.zip(g, |v, g| v - lr * g));
    }
}

/// a row of the batch that is not finite leaves the other rows alone. params: batch, in, out, position
fn batch<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (n, i, o, at) = (r.us(), r.us(), r.us(), r.us());
    let (w, b) = (fresh(e, "w", &[i, o]), fresh(e, "b", &[o]));
    let x = spotted(e, "x", &[n, i], &[at]);
    let m = Linear::new(w.rc(), b.rc(), None);
    chk!(e, "the output of a layer", m.forward(x.rc()), &x.matmul(&w).add(&b));
    let m = Linear::new(w.rc(), b.rc(), Some(F::tanh));
    chk!(e, "the output of a tanh layer", m.forward(x.rc()), &x.matmul(&w).add(&b).tanh());
}

/// tanh and its derivative at any finite argument, however large. params: shape
fn saturation<T: Flt>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let (x, u) = (fresh(e, "x", &s), fresh(e, "u", &s));
    let xc = x.rc();
    if let Some(y) = e.ok("tanh", || F::tanh(xc.clone())) {
        // the exact values are C09's and C10's: here they are finite and within their bounds
        for i in indices(&s) {
            if let Some(v) = e.ok(format!("tanh{i:?}"), || *y.get(&i).unwrap()) {
                e.between(format!("tanh{i:?}"), v, T::k(-1), T::k(1));
            }
        }
        if e.ok("backward", || F::dot(&y, &u.rc()).backward()).is_some() {
            for i in indices(&s) {
                if let Some(v) = e.ok(format!("gradient{i:?}"), || *xc.grad().get(&i).unwrap()) {
                    let w = abs_e(u.at(&i));
                    e.between(format!("gradient{i:?}"), v, T::k(0) - w, w);
                }
            }
        }
    }
}

pub fn c28(t: bool) -> Vec<Scenario> {
    let mut small = vec![vec![], vec![1], vec![3], vec![2, 2], vec![1, 2, 2], vec![2, 1], vec![5], vec![2, 3]];
    if t {
        small.extend([vec![2, 2, 2], vec![3, 3]]);
    }
    let mut moved = small.clone();
    moved.extend([vec![2, 3, 2], vec![4, 3], vec![20], vec![2, 1, 3, 2]]);
    let mut long = moved.clone();
    long.extend([vec![9], vec![3, 4]]);
    let of = |v: &[Vec<usize>]| v.iter().map(|s| enc(&[s], &[])).collect::<Vec<_>>();
    let pairs: Vec<(&[usize], &[usize])> = vec![
        (&[2, 2], &[2, 2]), (&[2], &[2, 2]), (&[2, 2], &[2, 1]), (&[1, 2], &[2, 1]), (&[], &[3]), (&[3], &[]), (&[3], &[3]), (&[2, 1, 2], &[2, 1]), (&[], &[]), (&[3, 2], &[1, 2]), (&[2, 2, 2], &[2, 2]), (&[4, 4], &[4, 4]),
        (&[1], &[2, 3]), (&[2, 1, 3], &[1, 2, 1]), (&[70], &[70]),
    ];
    let mut mats: Vec<Vec<i64>> = vec![];
    let mut ms: Vec<(&[usize], &[usize])> = vec![(&[2, 2], &[2, 2]), (&[1, 3], &[3, 2]), (&[2, 2, 2], &[2, 1]), (&[3, 1], &[1, 3]), (&[2, 3], &[3, 2])];
    if t {
        ms.extend([(&[2, 2, 3][..], &[3, 2][..]), (&[3, 3], &[3, 3]), (&[1, 6], &[6, 1])]);
    }
    for (s, u) in &ms {
        for na in (0..size(s)).chain([99]) {
            for nb in (0..size(u)).chain([99]) {
                mats.push([vec![0], enc(&[s, u], &[na as i64, nb as i64])].concat());
            }
        }
    }
    for s in [&[3][..], &[2, 2], &[1], &[6], &[2, 1, 3]] {
        for na in (0..size(s)).chain([99]) {
            for nb in (0..size(s)).chain([99]) {
                mats.push([vec![1], enc(&[s, s], &[na as i64, nb as i64])].concat());
            }
        }
    }
    let mut steps = vec![];
    for (i, o) in [(2, 2), (1, 3), (3, 1), (3, 3)] {
        for na in (0..i * o).chain([99]) {
            for nb in (0..o).chain([99]) {
                steps.push(vec![i, o, na, nb]);
            }
        }
    }
    let mut rows = vec![];
    for (n, i, o) in [(2, 2, 2), (3, 1, 2), (2, 3, 1), (4, 2, 3), (3, 3, 3)] {
        for at in 0..n * i {
            rows.push(vec![n, i, o, at]);
        }
    }
    let grads: Vec<Vec<i64>> = small.iter().flat_map(|s| (1..=3).map(move |n| enc(&[s], &[n]))).collect();
    vec![
        scen_floats!("carried", "construction, clones, slices, reshaping of elements that are finite, infinite or NaN", of(&moved), carried),
        scen_floats!("pointwise", "negation, abs, relu, tanh, user functions of such elements", of(&small), pointwise),
        scen_floats!("combined", "addition, subtraction, multiplication of such elements, with broadcasting", pairs.iter().map(|(s, t)| enc(&[s, t], &[])).collect(), combined),
        scen_floats!("products", "batched products and dot with one such element in each operand, at every position", mats, products),
        scen_floats!("sums", "sums of such elements", of(&long), sums),
        scen_floats!("equality", "equality of tensors of such elements", of(&[vec![], vec![1], vec![2], vec![1, 2], vec![3], vec![2, 2], vec![6], vec![2, 1, 4]]), equality),
        scen_floats!("gradients", "gradient contributions of such elements", grads, gradients),
        scen_floats!("step", "an SGD step with one such element in each gradient, at every position", steps, step),
        scen_floats!("batch", "a layer applied to a batch with one such element, at every position", rows, batch),
        scen_floats!("saturation", "tanh and its derivative at finite arguments of any size, where the exponential overflows beyond 709", of(&[vec![], vec![1], vec![2], vec![2, 2], vec![1, 3], vec![3, 2], vec![7]]), saturation),
    ]
}

// ------------------------------------------------------------------ C29
/// which elements are negative, where the type has negative numbers: none, all, every other one, all but every other one
fn octets<T: Octet>(name: &str, shape: &[usize], sign: i64) -> Nd<T> {
    let neg = |i: usize| match sign {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        _ => i % 2 == 1,
    };
    Nd::new(shape, (0..size(shape)).map(|i| T::octet(&format!("{name}{i}"), neg(i))).collect())
}
/// `want` at each index as a sum of products
fn sums_of<T: Octet>(shape: &[usize], f: impl Fn(&[usize]) -> Vec<Vec<T>>) -> Nd<T> {
    Nd::from_fn(shape, |i| {
        let terms = f(i);
        T::fits(&terms);
        T::total(&terms)
    })
}
/// params: operation, signs, shape, shape
fn whole_pairs<T: Octet>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (op, g) = (r.int(), r.int());
    let (s, t) = (r.shape(), r.shape());
    let (a, b) = (octets::<T>("a", &s, g % 4), octets::<T>("b", &t, g / 4));
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let out = bshape(&s, &t).unwrap();
    match op {
        0 => {
            let w = sums_of(&out, |i| vec![vec![a.at_b(i)], vec![b.at_b(i)]]);
            chk!(e, "a + b", &ac + &bc, &w);
            chk!(e, "a + b by value", ac.clone() + bc.clone(), &w);
            chk!(e, "raw a + b", &ar + &br, &w);
        }
        1 => {
            // a - b, where the negative of b is a number of the type as well
            let w = sums_of(&out, |i| vec![vec![a.at_b(i)], vec![b.at_b(i)]]);
            let w = Nd::from_fn(&out, |i| {
                let _ = w.at(i);
                T::total(&[vec![a.at_b(i)], vec![T::k(-1), b.at_b(i)]])
            });
            chk!(e, "a - b", &ac - &bc, &w);
            chk!(e, "a - b by value", ac.clone() - bc.clone(), &w);
            chk!(e, "raw a - b", &ar - &br, &w);
        }
        _ => {
            let w = sums_of(&out, |i| vec![vec![a.at_b(i), b.at_b(i)]]);
            chk!(e, "a * b", &ac * &bc, &w);
            chk!(e, "raw a * b", &ar * &br, &w);
        }
    }
}
/// params: operation, signs, shape, shape
fn whole_products<T: Octet>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (op, g) = (r.int(), r.int());
    let (s, t) = (r.shape(), r.shape());
    let (a, b) = (octets::<T>("a", &s, g % 4), octets::<T>("b", &t, g / 4));
    let first = |e: &mut Env<T>, l: &str, x: Option<RcTensor<T>>, w: T| {
        if let Some(x) = x {
            if let Some(v) = e.ok(format!("the element of {l}"), || *x.get_first_elem()) {
                e.val(l, v, w);
            }
        }
    };
    match op {
        0 => {
            let mut o = s.clone();
            o[s.len() - 1] = t[1];
            let w = sums_of(&o, |i| {
                (0..t[0])
                    .map(|k| {
                        let mut l = i.to_vec();
                        l[s.len() - 1] = k;
                        vec![a.at(&l), b.at(&[k, i[s.len() - 1]])]
                    })
                    .collect()
            });
            chk!(e, "a.bmm(b)", a.rc().bmm(&b.rc()), &w);
            chk!(e, "raw a.bmm(b)", a.raw().bmm(&b.raw()), &w);
        }
        1 => {
            let terms: Vec<Vec<T>> = a.data.iter().zip(&b.data).map(|(&x, &y)| vec![x, y]).collect();
            T::fits(&terms);
            let x = e.ok("dot", || F::dot(&a.rc(), &b.rc()));
            first(e, "dot", x, T::total(&terms));
        }
        _ => {
            let terms: Vec<Vec<T>> = a.data.iter().map(|&x| vec![x]).collect();
            T::fits(&terms);
            let x = e.ok("sum", || a.rc().sum());
            first(e, "sum", x, T::total(&terms));
            let whole: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
            let v = a.rc().slice(ranges(&whole));
            if let Some(x) = e.ok("sum of a slice", || v.sum()) {
                if let Some(y) = e.ok("its element", || *x.get_first_elem()) {
                    e.val("sum of a slice", y, T::total(&terms));
                }
            }
        }
    }
}
/// no operation on the elements is needed to compare or move them. params: signs, shape
fn whole_moves<T: Octet>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let g = r.int();
    let s = r.shape();
    let (a, b) = (octets::<T>("a", &s, g % 4), octets::<T>("b", &s, g / 4));
    let want = a.data.iter().zip(&b.data).fold(T::b_lit(true), |w, (&x, &y)| T::b_and(w, T::b_eq(x, y)));
    let (ac, bc) = (a.rc(), b.rc());
    let whole: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    if let Some(r) = e.ok("a == b", || ac == bc) {
        e.iff("a == b", r, want);
    }
    if let Some(r) = e.ok("slice == b", || ac.slice(ranges(&whole)) == bc) {
        e.iff("slice == b", r, want);
    }
    same(e, "a", &ac, &a);
    same(e, "a slice", &ac.slice(ranges(&whole)), &a);
    chk!(e, "a deep clone", ac.deep_clone(), &a);
    chk!(e, "a slice as a tensor", ac.slice(ranges(&whole)).to_tensor(), &a);
    // contributions to a gradient are added
    let x = bc.deep_clone();
    if e.ok("update_grad", || x.update_grad(a.rc())).is_some() {
        same_grad(e, "x", &x, &s, &a.data, &[]);
        let w = sums_of(&s, |i| vec![vec![a.at(i)], vec![b.at(i)]]);
        if e.ok("update_grad", || x.update_grad(b.rc())).is_some() {
            same_grad(e, "x with two contributions", &x, &s, &w.data, &[]);
        }
    }
}
pub fn c29(t: bool) -> Vec<Scenario> {
    let mut pairs: Vec<(&[usize], &[usize])> = vec![(&[2, 2], &[2, 2]), (&[2], &[2, 2]), (&[2, 1], &[1, 2]), (&[], &[]), (&[3], &[1]), (&[2, 3], &[3]), (&[2, 1, 2], &[3, 1]), (&[], &[4])];
    let mut mats: Vec<(&[usize], &[usize])> = vec![(&[1, 2], &[2, 1]), (&[1, 1], &[1, 2]), (&[2, 1, 2], &[2, 1]), (&[2, 2], &[2, 2]), (&[1, 3], &[3, 1])];
    let mut vecs: Vec<&[usize]> = vec![&[1], &[2], &[1, 2], &[3], &[2, 2]];
    let mut lists: Vec<&[usize]> = vec![&[], &[1], &[3], &[2, 2], &[5], &[2, 1, 3], &[9], &[3, 3, 2]];
    if t {
        pairs.extend([(&[3, 4][..], &[3, 1][..]), (&[2, 2, 2], &[2])]);
        mats.extend([(&[2, 3][..], &[3, 2][..]), (&[1, 4], &[4, 1])]);
        vecs.extend([&[5][..], &[2, 3]]);
        lists.extend([&[17][..], &[3, 3, 3]]);
    }
    let signs = |u: bool| if u { vec![0i64] } else { (0..16).collect() };
    let two = |u: bool| {
        let mut v = vec![];
        for g in signs(u) {
            for (s, q) in &pairs {
                // unsigned subtraction is left out: the library subtracts by adding the negative
                for op in if u { vec![0, 2] } else { vec![0, 1, 2] } {
                    if op < 2 || s == q || s.is_empty() {
                        v.push([vec![op, g], enc(&[s, q], &[])].concat());
                    }
                }
            }
        }
        v
    };
    let prods = |u: bool| {
        let mut v = vec![];
        for g in signs(u) {
            for (s, q) in &mats {
                v.push([vec![0, g], enc(&[s, q], &[])].concat());
            }
            for s in &vecs {
                v.push([vec![1, g], enc(&[s, s], &[])].concat());
            }
            for s in &lists {
                v.push([vec![2, g], enc(&[s, &[]], &[])].concat());
            }
        }
        v
    };
    let moves = |u: bool| {
        let mut v = vec![];
        for g in signs(u) {
            for s in &lists {
                v.push([vec![g], enc(&[s], &[])].concat());
            }
        }
        v
    };
    vec![
        scen_ints!("pairs_unsigned", "addition and multiplication of unsigned integers that fit", two(true), whole_pairs, true),
        scen_ints!("pairs_signed", "addition, subtraction, multiplication of signed integers that fit", two(false), whole_pairs, false),
        scen_ints!("products_unsigned", "batched products, dot, sum of unsigned integers that fit", prods(true), whole_products, true),
        scen_ints!("products_signed", "batched products, dot, sum of signed integers that fit", prods(false), whole_products, false),
        scen_ints!("moves_unsigned", "equality, clones, slices, gradient contributions of unsigned integers", moves(true), whole_moves, true),
        scen_ints!("moves_signed", "equality, clones, slices, gradient contributions of signed integers", moves(false), whole_moves, false),
    ]
}
