//! C30: rounding errors. A value observed here is compared by its error: `want` is direct evaluation of the definition.
use crate::engine::Scenario;
use crate::env::*;
use crate::refmodel::*;
use crate::scen_rounded;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

macro_rules! chk {
    ($e:expr, $l:expr, $f:expr, $w:expr) => {{
        let l = $l.to_string();
        if let Some(x) = $e.ok(l.clone(), || $f) {
            same($e, &l, &x, $w);
        }
    }};
}
fn one<T: Elem, V: TensorLike<Elem = T>>(e: &mut Env<T>, l: &str, x: Option<V>, w: T) {
    if let Some(x) = x {
        if let Some(v) = e.ok(format!("the element of {l}"), || *x.get_first_elem()) {
            e.val(l, v, w);
        }
    }
}
/// a slice of a larger tensor
fn part<T: Elem>(e: &mut Env<T>, name: &str, s: &[usize]) -> (RcTensor<T>, TensorView<T>, Nd<T>) {
    let bs: Vec<usize> = s.iter().map(|d| d + 1).collect();
    let base = fresh(e, name, &bs);
    let r: Vec<(usize, usize)> = s.iter().map(|&d| (1, d + 1)).collect();
    let rc = base.rc();
    let v = rc.slice(ranges(&r));
    (rc, v, base.window(&r))
}
/// summed down to `shape`, as the gradient of broadcasting is
fn reduce<T: Elem>(g: &Nd<T>, shape: &[usize]) -> Nd<T> {
    let mut out = Nd::fill(shape, T::k(0));
    for i in indices(&g.shape) {
        let j: Vec<usize> = i[i.len() - shape.len()..].iter().zip(shape).map(|(&i, &d)| if d == 1 { 0 } else { i }).collect();
        let at = flat(shape, &j);
        out.data[at] = out.data[at] + g.at(&i);
    }
    out
}
fn transposed<T: Elem>(a: &Nd<T>) -> Nd<T> {
    Nd::from_fn(&[a.shape[1], a.shape[0]], |i| a.at(&[i[1], i[0]]))
}

/// params: shape, shape
fn combined<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (s, t) = (r.shape(), r.shape());
    let (a, b) = (fresh(e, "a", &s), fresh(e, "b", &t));
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    chk!(e, "a + b", &ac + &bc, &a.add(&b));
    chk!(e, "a + b by value", ac.clone() + bc.clone(), &a.add(&b));
    chk!(e, "raw a + b", &ar + &br, &a.add(&b));
    chk!(e, "a - b", &ac - &bc, &a.sub(&b));
    chk!(e, "a - b by value", ac.clone() - bc.clone(), &a.sub(&b));
    chk!(e, "raw a - b", &ar - &br, &a.sub(&b));
    if s == t || s.is_empty() || t.is_empty() {
        let m = a.zip_b(&b);
        chk!(e, "a * b", &ac * &bc, &m);
        chk!(e, "raw a * b", &ar * &br, &m);
    }
    if s == t {
        chk!(e, "element_wise_multiplication", F::element_wise_multiplication(&ac, &bc), &a.zip_b(&b));
    }
    let c = e.var("c");
    chk!(e, "c a", ac.left_scalar_multiplication(&c), &a.map(|x| c * x));
    chk!(e, "a c", ac.right_scalar_multiplication(&c), &a.map(|x| x * c));
    let (_k, v, n) = part(e, "v", &t);
    chk!(e, "a + slice", &*ac + &v, &a.add(&n));
    chk!(e, "a slice as a tensor", v.to_tensor(), &n);
    chk!(e, "a deep clone", ac.deep_clone(), &a);
    chk!(e, "the negative", -&ac, &a.neg());
    chk!(e, "tanh", F::tanh(ac.clone()), &a.tanh());
}
trait ZipB<T> {
    fn zip_b(&self, o: &Self) -> Self;
}
impl<T: Elem> ZipB<T> for Nd<T> {
    fn zip_b(&self, o: &Nd<T>) -> Nd<T> {
        let s = if self.shape.len() >= o.shape.len() { &self.shape } else { &o.shape };
        Nd::from_fn(s, |i| self.at_b(i) * o.at_b(i))
    }
}

/// params: shape, shape
fn products<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (s, t) = (r.shape(), r.shape());
    let (a, b) = (fresh(e, "a", &s), fresh(e, "b", &t));
    let m = a.matmul(&b);
    chk!(e, "a.bmm(b)", a.rc().bmm(&b.rc()), &m);
    chk!(e, "raw a.bmm(b)", a.raw().bmm(&b.raw()), &m);
    let (_k, v, n) = part(e, "v", &t);
    chk!(e, "a.bmm(slice)", a.rc().bmm(&v), &a.matmul(&n));
}
/// params: shape
fn reductions<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let (a, b) = (fresh(e, "a", &s), fresh(e, "b", &s));
    let x = e.ok("sum", || a.rc().sum());
    one(e, "sum", x, a.sum());
    let x = e.ok("sum of a raw tensor", || a.raw().sum());
    one(e, "sum of a raw tensor", x, a.sum());
    let x = e.ok("dot", || F::dot(&a.rc(), &b.rc()));
    one(e, "dot", x, a.dot(&b));
    let (_k, v, n) = part(e, "v", &s);
    let x = e.ok("sum of a slice", || v.sum());
    one(e, "sum of a slice", x, n.sum());
    let ac = a.rc();
    let x = e.ok("dot with a slice", || F::dot_no_derivative(&ac, &v));
    one(e, "dot with a slice", x, a.dot(&n));
}
/// params: shape, contributions
fn contributions<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let s = r.shape();
    let n = r.us();
    let x = fresh(e, "x", &s).rc();
    let mut want = Nd::fill(&s, T::k(0));
    for k in 0..n {
        let g = fresh(e, &format!("g{k}_"), &s);
        want = want.add(&g);
        if e.ok("update_grad", || x.update_grad(g.rc())).is_none() {
            return;
        }
    }
    chk!(e, "the gradient", x.grad(), &want);
}
/// loss: the weighted sum of one operation's result. params: operation, shape, shape
fn derivatives<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let op = r.int();
    let (s, t) = (r.shape(), r.shape());
    let (a, b) = (fresh(e, "a", &s), fresh(e, "b", &t));
    let (ac, bc) = (a.rc(), b.rc());
    let out = match op {
        0 | 1 => bshape(&s, &t).unwrap(),
        2 => vec![s[0], t[1]],
        5 => vec![1],
        _ => s.clone(),
    };
    let u = fresh(e, "u", &out);
    let uc = u.rc();
    let Some(y) = e.ok("the operation", || match op {
        0 => &ac + &bc,
        1 => &ac - &bc,
        2 => ac.bmm(&bc),
        3 => F::tanh(ac.clone()),
        4 => -&ac,
        5 => F::dot(&ac, &bc),
        6 => F::tanh(&ac + &ac),
        _ => &ac - &(&ac + &ac),
    }) else {
        return;
    };
    if e.ok("backward", || F::dot(&y, &uc).backward()).is_none() {
        return;
    }
    let two = T::k(2);
    let slope = |x: T| T::k(1) - x.tanh() * x.tanh();
    let (da, db) = match op {
        0 => (reduce(&u, &s), Some(reduce(&u, &t))),
        1 => (reduce(&u, &s), Some(reduce(&u, &t).neg())),
        2 => (u.matmul(&transposed(&b)), Some(transposed(&a).matmul(&u))),
        3 => (a.zip(&u, |x, u| u * slope(x)), None),
        4 => (u.neg(), None),
        5 => (b.map(|x| x * u.data[0]), Some(a.map(|x| x * u.data[0]))),
        6 => (a.zip(&u, |x, u| (u * slope(x + x)) * two), None),
        _ => (u.neg(), None),
    };
    chk!(e, "the gradient of the left operand", ac.grad(), &da);
    if let Some(db) = db {
        chk!(e, "the gradient of the right operand", bc.grad(), &db);
    }
}
/// params: in, out, batch, activation
fn layer<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (i, o, n, act) = (r.us(), r.us(), r.us(), r.int());
    let (w, b, x) = (fresh(e, "w", &[i, o]), fresh(e, "b", &[1, o]), fresh(e, "x", &[n, i]));
    let (w2, b2) = (fresh(e, "q", &[o, 1]), fresh(e, "d", &[1, 1]));
    let first = || Linear::new(w.rc(), b.rc(), if act == 1 { Some(F::tanh as fn(_) -> _) } else { None });
    let f = |x: &Nd<T>| {
        let y = x.matmul(&w).add(&b);
        if act == 1 { y.tanh() } else { y }
    };
    let m = first();
    chk!(e, "the output of a layer", m.forward(x.rc()), &f(&x));
    let m = Mlp::new([first(), Linear::new(w2.rc(), b2.rc(), None)]);
    chk!(e, "the output of two layers", m.forward(x.rc()), &f(&x).matmul(&w2).add(&b2));
}
/// params: in, out
fn step<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (i, o) = (r.us(), r.us());
    let (w, b, gw, gb) = (fresh(e, "w", &[i, o]), fresh(e, "b", &[o]), fresh(e, "gw", &[i, o]), fresh(e, "gb", &[o]));
    let lr = e.var("lr");
    let mut m = Linear::new(w.rc(), b.rc(), None);
    for (q, g) in m.params().into_iter().zip([&gw, &gb]) {
        q.update_grad(g.rc());
    }
    if e.ok("sgd_step", || sgd_step(&mut m, RcTensor::scalar(lr))).is_none() {
        return;
    }
    let after: Vec<RcTensor<T>> = m.params().into_iter().collect();
    e.flag("two parameters", after.len() == 2);
    for (q, (v, g)) in after.iter().zip([(&w, &gw), (&b, &gb)]) {
        same(e, "a parameter after the step", q, &v.zip(g, |v, g| v - lr * g));
    }
}
/// a network with one hidden layer of tanh, trained on a weighted sum of its outputs. params: in, hidden, out, batch, rounds
fn training<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (i, h, o, n, rounds) = (r.us(), r.us(), r.us(), r.us(), r.us());
    let (mut w, mut b, mut v, mut d) = (fresh(e, "w", &[i, h]), fresh(e, "b", &[1, h]), fresh(e, "v", &[h, o]), fresh(e, "d", &[1, o]));
    let mut m = Mlp::new([Linear::new(w.rc(), b.rc(), Some(F::tanh)), Linear::new(v.rc(), d.rc(), None)]);
    let lr = e.var("lr");
    for k in 0..rounds {
        let (x, u) = (fresh(e, &format!("x{k}_"), &[n, i]), fresh(e, &format!("u{k}_"), &[n, o]));
        let loss = e.ok("the loss", || F::dot(&m.forward(x.rc()), &u.rc()));
        let Some(loss) = loss else { return };
        if e.ok("backward", || loss.backward()).is_none() {
            return;
        }
        let pre = x.matmul(&w).add(&b);
        let y = pre.tanh();
        one(e, "the loss", Some(loss), y.matmul(&v).add(&d).dot(&u));
        let (gv, gd) = (transposed(&y).matmul(&u), reduce(&u, &[1, o]));
        let back = u.matmul(&transposed(&v));
        let inner = y.zip(&back, |y, g| g * (T::k(1) - y * y));
        let (gw, gb) = (transposed(&x).matmul(&inner), reduce(&inner, &[1, h]));
        let (ps, gs) = (m.params(), [gw, gb, gv, gd]);
        e.flag("four parameters", ps.len() == 4);
        for (q, g) in ps.iter().zip(&gs) {
            chk!(e, "a gradient", q.grad(), g);
        }
        if e.ok("sgd_step", || sgd_step(&mut m, RcTensor::scalar(lr))).is_none() {
            return;
        }
        for (p, g) in [&mut w, &mut b, &mut v, &mut d].into_iter().zip(&gs) {
            *p = p.zip(g, |v, g| v - lr * g);
        }
        for (q, v) in m.params().iter().zip([&w, &b, &v, &d]) {
            same(e, "a parameter after the step", q, v);
        }
    }
}

pub fn c30(t: bool) -> Vec<Scenario> {
    let pairs: Vec<(&[usize], &[usize])> = vec![
        (&[], &[]), (&[1], &[3]), (&[2, 2], &[2, 2]), (&[2], &[2, 2]), (&[2, 2], &[2, 1]), (&[1, 3], &[2, 1]), (&[], &[3]), (&[4], &[]), (&[2, 1, 2], &[3, 1]), (&[9], &[9]), (&[2, 2, 2], &[2, 2, 2]), (&[4, 5], &[5]), (&[70], &[70]), (&[9, 8], &[1, 8]), (&[2, 1, 2, 1], &[3, 1, 2]), (&[1, 1, 3], &[2, 4, 1]), (&[0, 2], &[2]), (&[130], &[]), (&[12, 11], &[12, 1]),
    ];
    let mut mats: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for m in 1..=3 {
        for k in 1..=4 {
            for n in 1..=3 {
                mats.push((vec![m, k], vec![k, n]));
            }
        }
    }
    mats.extend([(vec![2, 2, 3], vec![3, 2]), (vec![3, 1, 4], vec![4, 1]), (vec![4, 6], vec![6, 4]), (vec![1, 9], vec![9, 1]), (vec![1, 17], vec![17, 2]), (vec![1, 33], vec![33, 1]), (vec![8, 8], vec![8, 8]), (vec![9, 2], vec![2, 9]), (vec![1, 65], vec![65, 1]), (vec![6, 4], vec![4, 6]), (vec![2, 2, 2], vec![2, 2]), (vec![4, 4], vec![4, 4]), (vec![2, 0], vec![0, 2]), (vec![5, 8], vec![8, 3])]);
    let mut lists: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![3], vec![2, 2], vec![5], vec![8], vec![9], vec![3, 4], vec![2, 1, 3], vec![17], vec![40], vec![4], vec![2, 2, 2], vec![2, 2, 2, 2], vec![16], vec![65], vec![9, 9], vec![0, 3]];
    if t {
        mats.extend([(vec![2, 65], vec![65, 2]), (vec![12, 12], vec![12, 12]), (vec![17, 3], vec![3, 17]), (vec![1, 130], vec![130, 1]), (vec![33, 2], vec![2, 33])]);
        lists.extend([vec![130], vec![257], vec![17, 17]]);
    }
    let two: Vec<Vec<i64>> = pairs.iter().map(|(a, b)| enc(&[a, b], &[])).collect();
    let mut ders = vec![];
    for op in [0i64, 1] {
        for (a, b) in &pairs {
            // more than two dimensions cannot be differentiated through a weighted sum of one row
            if bshape(a, b).unwrap().len() <= 2 {
                ders.push([vec![op], enc(&[a, b], &[])].concat());
            }
        }
    }
    for (a, b) in &mats {
        if a.len() == 2 && size(a) <= 40 && size(b) <= 40 {
            ders.push([vec![2], enc(&[a, b], &[])].concat());
        }
    }
    for op in [3i64, 4, 5, 6, 7] {
        for s in [&[1usize][..], &[3], &[2, 2], &[1, 4], &[3, 2], &[9], &[2, 1, 2], &[17], &[5, 5]] {
            ders.push([vec![op], enc(&[s, s], &[])].concat());
        }
    }
    let acc = lists.iter().filter(|s| size(s) <= 9).flat_map(|s| [1i64, 2, 3, 7, 12, 33].map(|n| enc(&[s], &[n]))).collect();
    let mut nets = vec![];
    for (i, o, n) in [(1i64, 1i64, 1i64), (2, 2, 2), (3, 1, 2), (1, 3, 1), (4, 4, 1), (2, 3, 4), (5, 2, 3), (9, 1, 1), (17, 2, 1)] {
        for act in 0..2 {
            nets.push(vec![i, o, n, act]);
        }
    }
    let mut train: Vec<Vec<i64>> = vec![vec![1, 1, 1, 1, 1], vec![2, 2, 1, 2, 1], vec![1, 3, 2, 1, 1], vec![2, 2, 2, 3, 1], vec![3, 4, 1, 1, 1], vec![1, 1, 1, 1, 2]];
    if t {
        train.extend([vec![2, 2, 1, 1, 2], vec![1, 2, 1, 2, 2], vec![2, 3, 2, 3, 1], vec![3, 2, 1, 4, 1]]);
    }
    vec![
        scen_rounded!("combined", "addition, subtraction, multiplication with broadcasting, scaling, copying, tanh", two, combined),
        scen_rounded!("products", "batched products", mats.iter().map(|(a, b)| enc(&[a, b], &[])).collect(), products),
        scen_rounded!("reductions", "sum and dot of tensors and slices", lists.iter().map(|s| enc(&[s], &[])).collect(), reductions),
        scen_rounded!("contributions", "gradients added up", acc, contributions),
        scen_rounded!("derivatives", "gradients of each operation under a weighted sum", ders, derivatives),
        scen_rounded!("layer", "layers and two-layer networks", nets, layer),
        scen_rounded!("training", "losses, gradients and parameters of a network with a hidden layer", train, training),
        scen_rounded!("step", "an SGD step", vec![vec![1, 1], vec![2, 2], vec![3, 4], vec![9, 1], vec![17, 5]], step),
    ]
}
