//! C24: operations that fail leave everything as it was, and usable.
use super::net::{enc_net, net, rd_net, M};
use crate::chk::{counted, with_fault};
use crate::engine::Scenario;
use crate::env::*;
use crate::refmodel::*;
use crate::scen;
use rust_light::nn::{Linear, Module};
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

struct World<T: Elem> {
    x: Nd<T>,
    y: Nd<T>,
    gx: Option<Nd<T>>,
    gy: Option<Nd<T>>,
    xc: RcTensor<T>,
    yc: RcTensor<T>,
    /// clones of the same tensors
    xd: RcTensor<T>,
    yd: RcTensor<T>,
}
/// two tensors; `state` 0 without gradients, 1 with gradients, 2 the first with two contributions
fn world<T: Elem>(e: &mut Env<T>, state: i64, s: &[usize]) -> World<T> {
    let (x, y) = (fresh(e, "x", s), fresh(e, "y", s));
    let (xc, yc) = (x.rc(), y.rc());
    let (mut gx, mut gy) = (None, None);
    if state > 0 {
        let (g, h) = (fresh(e, "gx", s), fresh(e, "gy", s));
        xc.update_grad(g.rc());
        yc.update_grad(h.rc());
        gx = Some(g.clone());
        gy = Some(h);
        if state == 2 {
            let g2 = fresh(e, "gz", s);
            xc.update_grad(g2.rc());
            gx = Some(g.add(&g2));
        }
    }
    let (xd, yd) = (xc.clone(), yc.clone());
    World { x, y, gx, gy, xc, yc, xd, yd }
}
fn grad_is<T: Elem>(e: &mut Env<T>, label: &str, t: &RcTensor<T>, g: &Option<Nd<T>>) {
    match g {
        None => no_grad(e, label, t),
        Some(g) => same_grad(e, label, t, &g.shape, &g.data, &[]),
    }
}
fn untouched<T: Elem>(e: &mut Env<T>, w: &World<T>) {
    same(e, "x", &w.xc, &w.x);
    same(e, "y", &w.yc, &w.y);
    grad_is(e, "x", &w.xc, &w.gx);
    grad_is(e, "y", &w.yc, &w.gy);
    grad_is(e, "a clone of x", &w.xd, &w.gx);
    grad_is(e, "a clone of y", &w.yd, &w.gy);
}
/// the tensors take part in everything as before
fn usable<T: Elem>(e: &mut Env<T>, w: &World<T>, gx: &Option<Nd<T>>) {
    let s = w.x.shape.clone();
    if let Some(r) = e.ok("x + y", || &w.xc + &w.yc) {
        same(e, "x + y", &r, &w.x.add(&w.y));
    }
    if let Some(r) = e.ok("deep clone", || w.xd.deep_clone()) {
        same(e, "a deep clone of x", &r, &w.x);
        no_grad(e, "a deep clone of x", &r);
    }
    let h = fresh(e, "h", &s);
    if e.ok("x.update_grad", || w.xc.update_grad(h.rc())).is_some() {
        let want = match gx {
            None => h.clone(),
            Some(g) => g.add(&h),
        };
        same_grad(e, "x after another contribution", &w.xd, &s, &want.data, &[]);
    }
    for (n, t, u) in [("x", &w.xc, &w.xd), ("y", &w.yc, &w.yd)] {
        if e.ok(format!("{n}.zero_grad"), || t.zero_grad()).is_some() {
            no_grad(e, &format!("{n} after clearing"), t);
            no_grad(e, &format!("a clone of {n} after clearing"), u);
        }
    }
    if e.ok("backward", || F::dot(&w.xc, &w.yc).backward()).is_some() {
        same_grad(e, "x after a later backward", &w.xc, &s, &w.y.data, &[]);
        same_grad(e, "y after a later backward", &w.yc, &s, &w.x.data, &[]);
    }
}

// ------------------------------------------------------------------ refused operations
const REFUSALS: i64 = 20;
/// every way of using x and y that must be refused; `bad` has a shape that fits neither
fn refuse<T: Elem>(k: i64, w: &World<T>, bad: &RcTensor<T>) {
    let (x, y) = (&w.xc, &w.yc);
    let rank = w.x.shape.len();
    match k {
        0 => drop(x + bad),
        1 => drop(x.clone() - bad.clone()),
        2 => drop(bad * x),
        3 => drop(F::dot(x, bad)),
        4 => drop((x + y).bmm(bad)),
        5 => drop(bad.bmm(x)),
        6 => drop(x.tensor() + bad.tensor()),
        7 => drop(x.slice(ranges(&vec![(0, 99); rank]))),
        8 => drop(x.view(ranges(&vec![(0, 1); rank + 1]))),
        9 => drop(x.slice(ranges(&w.x.shape.iter().map(|&d| (0, d)).collect::<Vec<_>>())).reshape(vec![97])),
        10 => drop(x[&vec![98; rank]] + T::k(0)),
        11 => (x + y).backward(),
        12 => x.backward(),
        13 => x.update_grad(bad.clone()),
        14 => bad.update_grad(x.clone()),
        15 => x.deep_clone().backward(),
        16 => drop(&**x + &bad.slice(ranges(&[(0, 5), (0, 7)]))),
        17 => drop(F::generic_unary_op(x, |_| panic!("refused by the function"))),
        18 => drop(Linear::new(bad.clone(), y.clone(), None).forward(x.clone())),
        _ => drop(RcTensor::new(vec![x.sum().elem()], vec![2, 3])),
    }
}
/// whether the operation is one that must be refused, for this shape and state
fn applies(k: i64, state: i64, s: &[usize]) -> bool {
    let misfit = bshape(s, &[5, 7]).is_none();
    match k {
        0 | 1 | 2 | 6 | 14 | 16 => misfit,
        3 | 7 => !s.is_empty(),
        10 => s.iter().any(|&d| d > 1),
        11 | 15 => size(s) > 1,
        // there must be a gradient to combine with
        13 => misfit && state > 0,
        17 => size(s) > 0,
        _ => true,
    }
}
/// params: refused operation, second refused operation, state, shape
fn refused<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (k1, k2, state) = (r.int(), r.int(), r.int());
    let s = r.shape();
    let w = world(e, state, &s);
    let bv = fresh(e, "bad", &[5, 7]);
    let bad = bv.rc();
    let gb = fresh(e, "gbad", &[5, 7]);
    bad.update_grad(gb.rc());
    for k in [k1, k2] {
        if k >= 0 {
            e.ctx = format!("operation {k}");
            if k == 12 && size(&s) == 1 {
                // whether backward on a one-element leaf is refused is not part of this
                if catch(|| refuse(k, &w, &bad)).is_some() {
                    return;
                }
            } else {
                e.rejects("it", || refuse(k, &w, &bad));
            }
        }
    }
    e.ctx = format!("after refused operation {k1} {k2}");
    untouched(e, &w);
    same(e, "the misfit", &bad, &bv);
    same_grad(e, "the misfit", &bad, &[5, 7], &gb.data, &[]);
    usable(e, &w, &w.gx);
}

// ------------------------------------------------------------------ faults in the element arithmetic
const ACTIONS: i64 = 15;
fn act<T: Elem>(k: i64, w: &World<T>, c: &RcTensor<T>) {
    let (x, y) = (&w.xc, &w.yc);
    match k {
        0 => drop(x + y),
        1 => drop(x.clone() - y.clone()),
        2 => drop(x * y),
        3 => drop(-x),
        4 => drop(&RcTensor::scalar(T::k(3)) * x),
        5 => drop(x.sum()),
        6 => drop(F::dot(x, y)),
        7 => drop(x.bmm(y)),
        8 => drop(x.tensor() + y.tensor()),
        9 => drop(x.slice(ranges(&w.x.shape.iter().map(|&d| (0, d)).collect::<Vec<_>>())).sum()),
        10 => x.update_grad(c.clone()),
        11 => w.xd.update_grad(c.clone()),
        12 => drop(F::generic_unary_op(x, |v| v + v)),
        13 => drop(Linear::new(y.clone(), y.clone(), Some(|t| &t + &t)).forward(x.clone())),
        _ => drop(F::element_wise_multiplication(x, y)),
    }
}
/// params: operation, state, shape
fn faulty<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (k, state) = (r.int(), r.int());
    let s = r.shape();
    let dry = world(e, state, &s);
    let c = fresh(e, "c", &s);
    let n = counted(|| act(k, &dry, &c.rc()));
    let w = world(e, state, &s);
    let cc = c.rc();
    if n > 0 {
        let at = T::choose("fault", n as usize);
        let failed = with_fault(at as u64, || act(k, &w, &cc));
        e.flag("the fault is reported", failed);
        e.ctx = format!("after operation {k} failed");
        untouched(e, &w);
        same(e, "the contribution", &cc, &c);
        no_grad(e, "the contribution", &cc);
    } else {
        act(k, &w, &cc);
        if k == 10 || k == 11 {
            e.ctx = "after a contribution".into();
            usable(e, &w, &Some(c));
            return;
        }
    }
    usable(e, &w, &w.gx);
}

const LOSSES: i64 = 8;
/// a loss in which each of x and y occurs once, with the derivatives; None where it does not apply
#[allow(clippy::type_complexity)]
fn a_loss<T: Elem>(k: i64, w: &World<T>) -> Option<(RcTensor<T>, Vec<RcTensor<T>>, Nd<T>, Nd<T>, Vec<Nd<T>>)> {
    let (x, y) = (&w.xc, &w.yc);
    let s = &w.x.shape;
    let ones = Nd::fill(s, T::k(1));
    Some(match k {
        0 => (F::dot(x, y), vec![], w.y.clone(), w.x.clone(), vec![]),
        1 => {
            let m = x + y;
            (m.sum(), vec![m], ones.clone(), ones.clone(), vec![ones])
        }
        2 => {
            let m = x - y;
            (m.sum(), vec![m], ones.clone(), ones.neg(), vec![ones])
        }
        3 => {
            let m = -x;
            (F::dot(&m, y), vec![m], w.y.neg(), w.x.neg(), vec![w.y.clone()])
        }
        4 => {
            if s.len() != 2 || s[0] != s[1] {
                return None;
            }
            let m = x.bmm(y);
            let n = s[0];
            let dx = Nd::from_fn(s, |i| (0..n).fold(T::k(0), |a, j| a + w.y.at(&[i[1], j])));
            let dy = Nd::from_fn(s, |i| (0..n).fold(T::k(0), |a, j| a + w.x.at(&[j, i[0]])));
            (m.sum(), vec![m], dx, dy, vec![ones])
        }
        5 => {
            let m = x + y;
            let m2 = -&m;
            (m2.sum(), vec![m, m2], ones.neg(), ones.neg(), vec![ones.neg(), ones])
        }
        6 => {
            if size(s) != 1 {
                return None;
            }
            (x + y, vec![], ones.clone(), ones, vec![])
        }
        _ => {
            let (m, n) = (-x, -y);
            (F::dot(&m, &n), vec![m, n], w.y.clone(), w.x.clone(), vec![w.y.neg(), w.x.neg()])
        }
    })
}
/// the gradient is the one before, or the one after the whole contribution: never anything between
fn either<T: Elem>(e: &mut Env<T>, label: &str, t: &RcTensor<T>, old: &Option<Nd<T>>, add: &Nd<T>) {
    let got = catch(|| t.grad());
    let new = match old {
        None => add.clone(),
        Some(o) => o.add(add),
    };
    let Some(g) = got else {
        e.flag(format!("{label} still has its gradient"), old.is_none());
        return;
    };
    let shape: Vec<usize> = g.shape().to_vec();
    e.flag(format!("{label}: gradient has shape {:?}", new.shape), shape == new.shape);
    if shape != new.shape {
        return;
    }
    let all = |want: &Nd<T>| indices(&shape).iter().fold(T::b_lit(true), |a, i| T::b_and(a, T::b_eq(g[i], want.at(i))));
    let mut ok = all(&new);
    if let Some(o) = old {
        ok = T::b_or(ok, all(o));
    }
    e.iff(format!("{label}: the gradient before or the gradient after the contribution"), true, ok);
}
/// params: loss, state, shape
fn faulty_backward<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (k, state) = (r.int(), r.int());
    let s = r.shape();
    let dry = world(e, state, &s);
    let Some((l, ..)) = a_loss(k, &dry) else { return };
    let n = counted(|| l.backward());
    let w = world(e, state, &s);
    let Some((l, mids, dx, dy, dm)) = a_loss(k, &w) else { return };
    if n > 0 {
        let at = T::choose("fault", n as usize);
        let failed = with_fault(at as u64, || l.backward());
        e.flag("the fault is reported", failed);
        e.ctx = "after a backward that failed".into();
        same(e, "x", &w.xc, &w.x);
        same(e, "y", &w.yc, &w.y);
        either(e, "x", &w.xc, &w.gx, &dx);
        either(e, "y", &w.yc, &w.gy, &dy);
        for (m, d) in mids.iter().zip(&dm) {
            either(e, "an intermediate result", m, &None, d);
        }
        // starting over
        for t in mids.iter().chain([&w.xc, &w.yc]) {
            e.ok("zero_grad", || t.zero_grad());
        }
        e.ctx = "after clearing and running it again".into();
        if e.ok("backward", || l.backward()).is_some() {
            same_grad(e, "x", &w.xc, &s, &dx.data, &[]);
            same_grad(e, "y", &w.yc, &s, &dy.data, &[]);
            for (m, d) in mids.iter().zip(&dm) {
                same_grad(e, "an intermediate result", m, &d.shape, &d.data, &[]);
            }
        }
        e.ctx = "later".into();
        usable(e, &w, &Some(dx));
    }
}

// ------------------------------------------------------------------ modules
/// params: failing operation, module kind, network
fn modules<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (k, how) = (r.int(), r.int());
    let (sizes, acts, bias) = rd_net(&mut r);
    let n = net(e, &sizes, &acts, &bias);
    let depth = acts.len();
    let np = 2 * depth;
    let mut m = if how == 0 { M::L(n.layer(0)) } else { n.module() };
    let st = e.var("s");
    let x = fresh(e, "x", &[2, sizes[0]]);
    let xc = x.rc();
    let pv: Vec<Nd<T>> = (0..depth).flat_map(|l| [n.w[l].clone(), n.b[l].clone()]).collect();
    let pc: Vec<RcTensor<T>> = (0..depth).flat_map(|l| [n.wc[l].clone(), n.bc[l].clone()]).collect();
    let g: Vec<Nd<T>> = pv.iter().enumerate().map(|(i, v)| fresh(e, &format!("g{i}_"), &v.shape)).collect();
    // which parameter lacks a gradient, or has one that does not fit
    let lacking = if k < np as i64 { Some(k as usize) } else { None };
    for i in 0..np {
        if lacking != Some(i) {
            pc[i].update_grad(g[i].rc());
        }
    }
    let mut has: Vec<bool> = (0..np).map(|i| lacking != Some(i)).collect();
    let step = |m: &mut M<T>| m.step(RcTensor::scalar(st));
    if lacking.is_some() {
        e.rejects("a step without one of the gradients", || step(&mut m));
    } else {
        let k = k - np as i64;
        let short = |len: usize| pc.iter().take(len).map(|t| t.deep_clone()).collect::<Vec<_>>();
        match k {
            0 => {
                // a fault anywhere in the step
                let mut dry = if how == 0 { M::L(n.layer(0)) } else { n.module() };
                let c = counted(|| step(&mut dry));
                let at = T::choose("fault", c as usize);
                let failed = with_fault(at as u64, || step(&mut m));
                e.flag("the fault is reported", failed);
            }
            1 => e.rejects("a parameter list that is one short", || m.update(short(np - 1))),
            2 => e.rejects("an empty parameter list", || m.update(vec![])),
            3 => e.rejects("half a parameter list", || m.update(short(np / 2))),
            4 => {
                let bad = fresh(e, "z", &[2, sizes[0] + 1]);
                e.rejects("an input that does not fit", || m.forward(bad.rc()));
            }
            _ => {
                // a fault anywhere in the forward pass
                let c = counted(|| drop(m.forward(xc.clone())));
                let at = T::choose("fault", c as usize);
                let mut failed = false;
                if c > 0 {
                    failed = with_fault(at as u64, || drop(m.forward(xc.clone())));
                }
                e.flag("the fault is reported", failed);
            }
        }
    }
    e.ctx = "afterwards".into();
    let now = m.params();
    e.flag("as many parameters as before", now.len() == np);
    if now.len() != np {
        return;
    }
    for i in 0..np {
        same(e, &format!("parameter {i}"), &now[i], &pv[i]);
        same(e, &format!("parameter {i} as the caller holds it"), &pc[i], &pv[i]);
        for t in [&now[i], &pc[i]] {
            if has[i] {
                same_grad(e, &format!("parameter {i}"), t, &g[i].shape, &g[i].data, &[]);
            } else {
                no_grad(e, &format!("parameter {i}"), t);
            }
        }
    }
    if let Some(y) = e.ok("forward", || m.forward(xc.clone())) {
        same(e, "output", &y, &n.spec(&x));
    }
    same(e, "input", &xc, &x);
    // and a step that works
    if let Some(i) = lacking {
        now[i].update_grad(g[i].rc());
        has[i] = true;
    }
    if e.ok("a step", || step(&mut m)).is_some() {
        let new = m.params();
        for i in 0..np.min(new.len()) {
            let want = Nd::new(&pv[i].shape, pv[i].data.iter().zip(&g[i].data).map(|(&p, &g)| p - st * g).collect());
            same(e, &format!("parameter {i} after a step"), &new[i], &want);
        }
    }
}

pub fn c24(t: bool) -> Vec<Scenario> {
    let mut sh = vec![vec![], vec![2], vec![2, 2], vec![1, 1], vec![3, 2]];
    sh.extend([vec![1], vec![3], vec![2, 1, 2], vec![1, 2]]);
    if t {
        sh.extend([vec![3, 3], vec![4], vec![2, 2, 2], vec![1, 1, 1]]);
    }
    let (mut a, mut b, mut c, mut d) = (vec![], vec![], vec![], vec![]);
    for s in &sh {
        for state in 0..3i64 {
            for k in 0..REFUSALS {
                if !applies(k, state, s) {
                    continue;
                }
                a.push(enc(&[], &[k, -1, state]).into_iter().chain(enc(&[s], &[])).collect());
                for k2 in 0..REFUSALS {
                    if applies(k2, state, s) && (t || (state == 2 && s.len() == 1)) {
                        a.push(enc(&[], &[k, k2, state]).into_iter().chain(enc(&[s], &[])).collect());
                    }
                }
            }
            for k in 0..ACTIONS {
                let square = s.len() == 2 && s[0] == s[1];
                if (k == 7 || k == 13) && !square {
                    continue;
                }
                b.push(enc(&[], &[k, state]).into_iter().chain(enc(&[s], &[])).collect());
            }
            for k in 0..LOSSES {
                c.push(enc(&[], &[k, state]).into_iter().chain(enc(&[s], &[])).collect());
            }
        }
    }
    let mut nets = vec![
        (vec![2, 1], vec![(0, 1)]),
        (vec![1, 2], vec![(3, 0)]),
        (vec![1, 2, 1], vec![(4, 0), (0, 1)]),
        (vec![1, 1, 1, 1], vec![(0, 0), (3, 1), (0, 2)]),
    ];
    nets.extend([
        (vec![2, 2], vec![(0, 1)]),
        (vec![2, 2, 2], vec![(0, 0), (3, 1)]),
        (vec![2, 1, 2, 1], vec![(0, 0), (3, 1), (4, 0)]),
        (vec![1, 1, 1, 1, 1], vec![(0, 0), (3, 1), (4, 0), (0, 0)]),
    ]);
    if t {
        nets.extend([
            (vec![3, 3], vec![(2, 1)]),
            (vec![2, 3, 2], vec![(2, 0), (3, 1)]),
            (vec![1, 1, 1, 1, 1, 1], vec![(0, 0), (3, 1), (4, 0), (0, 0), (2, 2)]),
        ]);
    }
    for (s, l) in &nets {
        for k in 0..2 * l.len() as i64 + 6 {
            for how in 0..2i64 {
                if how == 0 && l.len() > 1 {
                    continue;
                }
                // half of a single layer's list is the list that is one short
                d.push([k, how].into_iter().chain(enc_net(s, l)).collect());
            }
        }
    }
    vec![
        scen!("refused", "every refused operation, and pairs of them, on two tensors in each gradient state: values, gradients and every later use", a, refused),
        scen_faults!("faulty", "a fault in the element arithmetic at a symbolically chosen operation of each library operation", b, faulty),
        scen_faults!("faulty_backward", "a fault at a symbolically chosen element operation of a backward pass", c, faulty_backward),
        scen_faults!("modules", "parameter lists that are too short, steps without a gradient, misfitting inputs, faults at a symbolically chosen element operation of a step or forward pass", d, modules),
    ]
}
