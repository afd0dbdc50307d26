//! C10–C13, C20: gradients, histories of gradient updates, purity.
use crate::engine::Scenario;
use crate::env::*;
use crate::refmodel::*;
use crate::scen;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

/// how a result becomes a one-element loss
/// 0 sum, 1 dot with symbolic weights, 2 the result itself (one element), 3 -sum, 4 sum + dot,
/// 5 sum of the dot with weights, 6 (1,n)x(n,1) matrix product with symbolic weights (rank 2 only)
fn loss<T: Elem>(
    e: &mut Env<T>,
    r: &RcTensor<T>,
    n: &Nd<T>,
    mode: i64,
) -> Option<(RcTensor<T>, T, Vec<(String, RcTensor<T>, Nd<T>)>)> {
    let w = fresh(e, "w", &n.shape);
    let wc = w.rc();
    Some(match mode {
        0 => (e.ok("sum", || r.sum())?, n.sum(), vec![]),
        1 => (e.ok("dot", || F::dot(r, &wc))?, n.dot(&w), vec![("w".into(), wc, w)]),
        2 => (r.clone(), n.data[0], vec![]),
        3 => (e.ok("-sum", || -&r.sum())?, -n.sum(), vec![]),
        4 => (
            e.ok("sum + dot", || &r.sum() + &F::dot(r, &wc))?,
            n.sum() + n.dot(&w),
            vec![("w".into(), wc, w)],
        ),
        5 => (e.ok("dot.sum", || F::dot(&wc, r).sum())?, n.dot(&w), vec![("w".into(), wc, w)]),
        6 => {
            // u^T r w for a matrix r
            let (m, k) = (n.shape[0], n.shape[1]);
            let u = fresh(e, "u", &[1, m]);
            let v = fresh(e, "v", &[k, 1]);
            let (uc, vc) = (u.rc(), v.rc());
            let l = e.ok("u r v", || uc.bmm(r).bmm(&vc))?;
            (
                l,
                u.matmul(n).matmul(&v).data[0],
                vec![("u".into(), uc, u), ("v".into(), vc, v)],
            )
        }
        _ => unreachable!(),
    })
}

fn check_grads<T: Elem>(
    e: &mut Env<T>,
    spec: T,
    leaves: &[(String, RcTensor<T>, Nd<T>)],
) {
    let all: Vec<T> = leaves.iter().flat_map(|l| l.2.data.iter().cloned()).collect();
    let (g, kinks) = T::grads(spec, &all);
    let mut k = 0;
    for (name, rc, n) in leaves {
        let m = n.data.len();
        same_grad(e, name, rc, &n.shape, &g[k..k + m], &kinks);
        same(e, &format!("{name} afterwards"), rc, n);
        k += m;
    }
}

// ---------------------------------------------------------------- C10
/// params: op, lossmode, shape a, shape b
fn one_op<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (op, mode) = (r.int(), r.int());
    let sa = r.shape();
    let a = fresh(e, "a", &sa);
    let ac = a.rc();
    let mut leaves = vec![("a".to_string(), ac.clone(), a.clone())];
    let (b, bc) = if r.more() {
        let sb = r.shape();
        let b = fresh(e, "b", &sb);
        let bc = b.rc();
        leaves.push(("b".to_string(), bc.clone(), b.clone()));
        (b, bc)
    } else {
        (a.clone(), ac.clone())
    };
    let name = ["&a + &b", "a + b", "&a - &b", "a - b", "a - &b", "-a", "abs", "relu", "tanh", "a + a", "a - a"][op as usize];
    let made = e.ok(format!("{name} on {:?} {:?}", a.shape, b.shape), || match op {
        0 => &ac + &bc,
        1 => ac.clone() + bc.clone(),
        2 => &ac - &bc,
        3 => ac.clone() - bc.clone(),
        4 => ac.clone() - &bc,
        5 => -&ac,
        6 => ac.abs(),
        7 => F::relu(ac.clone()),
        8 => F::tanh(ac.clone()),
        9 => &ac + &ac,
        _ => &ac - &ac,
    });
    let Some(res) = made else { return };
    let rn = match op {
        0 | 1 => a.add(&b),
        2..=4 => a.sub(&b),
        5 => a.neg(),
        6 => a.abs(),
        7 => a.relu(),
        8 => a.tanh(),
        9 => a.add(&a),
        _ => a.sub(&a),
    };
    // the result is an intermediate of the loss; its own derivative is checked as well
    let rn = Nd::new(&rn.shape, rn.data.iter().enumerate().map(|(k, &x)| T::tag(x, k as u64)).collect());
    same(e, "result", &res, &rn);
    if res.shape() != &rn.shape {
        return;
    }
    let Some((l, spec, more)) = loss(e, &res, &rn, mode) else { return };
    leaves.extend(more);
    if e.ok(format!("backward through {name}, loss {mode}"), || l.backward()).is_none() {
        return;
    }
    if mode != 2 {
        leaves.push(("the result".to_string(), res.clone(), rn));
    }
    check_grads(e, spec, &leaves);
}

/// kinks: the gradient lies between the one-sided derivatives (also exactly at zero)
fn kinks<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let op = r.int();
    let sa = r.shape();
    let a = fresh(e, "a", &sa);
    let ac = a.rc();
    let res = if op == 0 { e.ok("abs", || ac.abs()) } else { e.ok("relu", || F::relu(ac.clone())) };
    let Some(res) = res else { return };
    if e.ok("backward", || res.sum().backward()).is_none() {
        return;
    }
    let Some(g) = e.ok("grad", || ac.grad()) else { return };
    e.flag("gradient shape", g.shape() == &sa);
    if g.shape() != &sa {
        return;
    }
    let (z, o, m) = (T::k(0), T::k(1), T::k(-1));
    for (k, i) in indices(&sa).iter().enumerate() {
        let x = a.data[k];
        let neg = if op == 0 { m } else { z };
        // below zero: neg, above zero: one, at zero: anything between
        let lo = T::ite_lt(z, x, o, neg);
        let hi = T::ite_lt(x, z, neg, o);
        e.between(format!("gradient at {i:?}"), *g.get(i).unwrap(), lo, hi);
    }
}

pub fn c10(t: bool) -> Vec<Scenario> {
    let sh: Vec<Vec<usize>> = vec![
        vec![], vec![1], vec![2], vec![3], vec![1, 1], vec![1, 2], vec![2, 1], vec![2, 2], vec![1, 3], vec![3, 1],
        vec![2, 3], vec![2, 1, 2], vec![1, 2, 1], vec![2, 2, 1], vec![2, 2, 2], vec![0], vec![1, 0], vec![2, 0], vec![1, 1, 1],
        vec![1, 2, 2], vec![2, 1, 1], vec![1, 1, 2], vec![3, 2], vec![2, 3, 1], vec![1, 3, 2], vec![2, 1, 1, 2], vec![1, 2, 1, 2], vec![2, 2, 1, 1],
    ];
    let mut a = vec![];
    for x in &sh {
        for y in &sh {
            let Some(s) = bshape(x, y) else { continue };
            let same = x == y;
            for op in 0..5i64 {
                // every overload on every pair for the weighted loss; the other losses on one overload
                a.push(enc(&[], &[op, 1]).into_iter().chain(enc(&[x, y], &[])).collect::<Vec<_>>());
                if op == 0 || op == 2 {
                    for mode in [0, 3, 4] {
                        if same || size(&s) <= 4 || t {
                            a.push([op, mode].into_iter().chain(enc(&[x, y], &[])).collect());
                        }
                    }
                }
                if size(&s) == 1 {
                    a.push([op, 2].into_iter().chain(enc(&[x, y], &[])).collect());
                }
                if s.len() == 2 && (op == 1 || op == 3) {
                    a.push([op, 6].into_iter().chain(enc(&[x, y], &[])).collect());
                }
            }
        }
        for op in [5i64, 6, 7, 8, 9, 10] {
            let modes: &[i64] = if size(x) == 1 { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 3, 4, 5] };
            for &m in modes {
                if op == 7 && size(x) > 4 && m != 1 {
                    continue;
                }
                a.push([op, m].into_iter().chain(enc(&[x], &[])).collect());
            }
            if x.len() == 2 {
                a.push([op, 6].into_iter().chain(enc(&[x], &[])).collect());
            }
        }
    }
    let mut pairs = vec![(vec![3usize, 1, 2], vec![2usize, 1]), (vec![4, 1], vec![1, 4]), (vec![2, 3, 2], vec![3, 1]), (vec![1, 2, 1, 2], vec![2, 1, 2, 1]), (vec![33], vec![1]), (vec![6, 6], vec![6]), (vec![5, 7], vec![5, 1]),
        (vec![70], vec![70]), (vec![70], vec![]), (vec![2, 1, 1, 2, 1], vec![2, 1, 2]), (vec![9, 1], vec![1, 9])];
    if t {
        pairs.extend([(vec![300], vec![1]), (vec![2, 2, 2, 2, 2], vec![2, 1, 2, 1]), (vec![17, 1], vec![1, 17]), (vec![3, 1, 3, 1], vec![1, 3, 1, 3]), (vec![4, 4, 4], vec![4, 1])]);
    }
    {
        for (x, y) in &pairs {
            for op in [0, 3] {
                a.push([op, 1].into_iter().chain(enc(&[&x, &y], &[])).collect());
                a.push([op, 1].into_iter().chain(enc(&[&y, &x], &[])).collect());
            }
        }
        let mut one = vec![vec![6usize], vec![2, 1, 2, 1]];
        if t {
            one.extend([vec![3, 3], vec![2, 2, 3], vec![9]]);
        }
        for x in one.iter() {
            for op in [5, 6, 7, 8] {
                a.push([op, 1].into_iter().chain(enc(&[&x], &[])).collect());
            }
        }
        // no case split on the elements' signs
        for x in [vec![33usize], vec![70], vec![5, 7]].iter() {
            for op in [5, 9, 10] {
                a.push([op, 1].into_iter().chain(enc(&[&x], &[])).collect());
            }
        }
    }
    let mut k = vec![];
    for op in 0..2i64 {
        for s in [vec![], vec![1usize], vec![3], vec![2, 2], vec![1, 2, 1]] {
            k.push([op].into_iter().chain(enc(&[&s], &[])).collect());
        }
    }
    vec![
        scen!("one_op", "one pointwise or broadcast operation under a symbolically weighted loss; all values, weights and signs symbolic", a, one_op),
        scen!("kinks", "abs and relu gradients including exactly at zero", k, kinks),
    ]
}

// ---------------------------------------------------------------- C11
/// params: kind, mode, shapes
fn matrix<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (kind, mode) = (r.int(), r.int());
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc) = (a.rc(), b.rc());
    let mut leaves = vec![("a".to_string(), ac.clone(), a.clone())];
    let two = |l: &mut Vec<(String, RcTensor<T>, Nd<T>)>| l.push(("b".to_string(), bc.clone(), b.clone()));
    let what = ["bmm", "dot", "sum", "bmm with itself", "dot with itself", "bmm_rc", "bmm with a slice", "sum twice"][kind as usize];
    let (res, rn) = match kind {
        0 => {
            two(&mut leaves);
            (e.ok(what, || ac.bmm(&bc)), a.matmul(&b))
        }
        1 => {
            two(&mut leaves);
            (e.ok(what, || F::dot(&ac, &bc)), Nd::new(&[1], vec![a.dot(&b)]))
        }
        2 => (e.ok(what, || ac.sum()), Nd::new(&[], vec![a.sum()])),
        3 => (e.ok(what, || ac.bmm(&ac)), a.matmul(&a)),
        4 => (e.ok(what, || F::dot(&ac, &ac)), Nd::new(&[1], vec![a.dot(&a)])),
        5 => {
            two(&mut leaves);
            (e.ok(what, || ac.bmm_rc(&bc)), a.matmul(&b))
        }
        6 => {
            let (_k, v, n) = fresh_view(e, "v", &sb, 1, 1);
            (e.ok(what, || ac.bmm(&v)), a.matmul(&n))
        }
        _ => (e.ok(what, || &ac.sum() + &ac.sum()), Nd::new(&[], vec![a.sum() + a.sum()])),
    };
    let Some(res) = res else { return };
    let rn = Nd::new(&rn.shape, rn.data.iter().enumerate().map(|(k, &x)| T::tag(x, k as u64)).collect());
    same(e, "result", &res, &rn);
    if res.shape() != &rn.shape {
        return;
    }
    let Some((l, spec, more)) = loss(e, &res, &rn, mode) else { return };
    leaves.extend(more);
    if e.ok(format!("backward through {what}, loss {mode}"), || l.backward()).is_none() {
        return;
    }
    if mode != 2 {
        leaves.push(("the result".to_string(), res.clone(), rn));
    }
    check_grads(e, spec, &leaves);
}

/// a batched product: backward either refuses and stores nothing, or the gradients are exact
fn batched<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let (a, b) = (fresh(e, "a", &sa), fresh(e, "b", &sb));
    let (ac, bc) = (a.rc(), b.rc());
    let Some(l) = e.ok("forward", || ac.bmm(&bc).sum()) else { return };
    if catch(|| l.backward()).is_some() {
        check_grads(e, a.matmul(&b).sum(), &[("a".into(), ac, a), ("b".into(), bc, b)]);
    } else {
        no_grad(e, "left operand", &ac);
        no_grad(e, "right operand", &bc);
    }
}

pub fn c11(t: bool) -> Vec<Scenario> {
    let mut a: Vec<Vec<i64>> = vec![];
    let mut add = |k: i64, m: i64, x: &[usize], y: &[usize]| a.push([k, m].into_iter().chain(enc(&[x, y], &[])).collect());
    for m in 1..=3usize {
        for k in 1..=3usize {
            for n in 1..=3usize {
                for mode in [0, 1, 4, 6] {
                    add(0, mode, &[m, k], &[k, n]);
                }
                add(5, 1, &[m, k], &[k, n]);
                add(6, 1, &[m, k], &[k, n]);
                if m == 1 && n == 1 {
                    for mode in [2, 3, 5] {
                        add(0, mode, &[m, k], &[k, n]);
                    }
                }
            }
        }
        for mode in [0, 1, 4, 6] {
            add(3, mode, &[m, m], &[m, m]);
        }
    }
    // beyond any internal splitting width
    let mut big = vec![
        (6, 6, 6), (1, 8, 8), (8, 8, 1), (5, 7, 5), (1, 33, 1), (1, 40, 2), (2, 40, 1), (33, 1, 1), (1, 1, 33), (4, 8, 4), (4, 9, 4), (9, 4, 9), (3, 11, 3), (16, 2, 2), (2, 2, 16), (2, 17, 2), (7, 5, 3),
    ];
    big.extend([(8, 8, 8), (1, 64, 1), (1, 65, 1), (64, 1, 2), (2, 1, 65), (5, 31, 2)]);
    if t {
        big.extend([(1, 96, 1), (10, 10, 4), (3, 13, 13), (12, 6, 6), (6, 16, 6), (1, 130, 1), (1, 257, 1), (12, 12, 12), (33, 2, 33), (2, 65, 2)]);
    }
    for &(m, k, n) in &big {
        add(0, 1, &[m, k], &[k, n]);
        add(0, 6, &[m, k], &[k, n]);
        add(0, 0, &[m, k], &[k, n]);
    }
    add(3, 1, &[6, 6], &[6, 6]);
    for s in [vec![], vec![1], vec![2], vec![3], vec![1, 1], vec![2, 2], vec![1, 3], vec![2, 1, 2], vec![7], vec![33], vec![6, 6], vec![70], vec![2, 2, 2], vec![2, 1, 2, 1], vec![3, 5], vec![0], vec![2, 0]] {
        for mode in [0, 1, 2, 3, 4, 5] {
            add(1, mode, &s, &s);
            add(4, mode, &s, &s);
            add(2, mode, &s, &s);
            add(7, mode, &s, &s);
        }
    }
    for (x, y) in [((2, 0), (0, 3)), ((0, 2), (2, 2)), ((2, 2), (2, 0))] {
        add(0, 0, &[x.0, x.1], &[y.0, y.1]);
        add(0, 1, &[x.0, x.1], &[y.0, y.1]);
    }
    let mut b = vec![];
    for s in [[1usize, 2, 2], [2, 1, 1], [2, 2, 2], [2, 3, 3], [3, 2, 2], [1, 1, 1], [2, 2, 3]] {
        for n in 1..=2usize {
            b.push(enc(&[&s, &[s[2], n]], &[]));
        }
    }
    vec![
        scen!("matrix", "matrix product, dot and sum under symbolically weighted losses; all values and weights symbolic; operands up to 65 elements and beyond", a, matrix),
        scen!("batched", "a batched product either refuses backward and stores nothing, or stores exact gradients", b, batched),
    ]
}

// ---------------------------------------------------------------- C12
/// Straight-line programs. params: shape code, number of leaves, loss mode, then (op, x, y) per
/// instruction; operands index leaves first, then earlier results.
/// ops: 0 add 1 sub 2 neg 3 abs 4 relu 5 tanh 6 bmm 7 dot (one element) 8 sum (one element)
fn program<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (code, nl, mode) = (r.int(), r.us(), r.int());
    let leaf_shapes = bases(code, nl);
    let mut vals: Vec<(String, RcTensor<T>, Nd<T>)> = vec![];
    for (i, s) in leaf_shapes.iter().enumerate() {
        let n = fresh(e, &format!("x{i}_"), s);
        vals.push((format!("x{i}"), n.rc(), n));
    }
    let mut tagn = 0u64;
    let mut from: Vec<Vec<usize>> = vec![vec![]; nl];
    let mut text = String::new();
    while r.more() {
        let (code, x, y) = (r.int(), r.us(), r.us());
        let (op, form) = (code % 10, code / 10);
        let (xn, yn) = (vals[x].2.clone(), vals[y].2.clone());
        let (xc, yc) = (vals[x].1.clone(), vals[y].1.clone());
        let name = ["add", "sub", "neg", "abs", "relu", "tanh", "bmm", "dot", "sum"][op as usize];
        let by = ["", " (by value)", " (left by value)"][form as usize];
        text += &format!("v{} = {name}{by} {x} {y}; ", vals.len());
        let res = e.ok(format!("{text}"), || match (op, form) {
            (0, 0) => &xc + &yc,
            (0, _) => xc + yc,
            (1, 0) => &xc - &yc,
            (1, 1) => xc - yc,
            (1, _) => xc - &yc,
            (2, _) => -&xc,
            (3, _) => xc.abs(),
            (4, 0) => F::relu(xc.clone()),
            (4, _) => F::relu(xc),
            (5, 0) => F::tanh(xc.clone()),
            (5, _) => F::tanh(xc),
            (6, 0) => xc.bmm(&yc),
            (6, _) => xc.bmm_rc(&yc),
            (7, 0) => F::dot(&xc, &yc),
            (7, _) => F::dot(&xc.clone(), &yc.clone()),
            _ => xc.sum(),
        });
        let Some(res) = res else { return };
        let n = match op {
            0 => xn.add(&yn),
            1 => xn.sub(&yn),
            2 => xn.neg(),
            3 => xn.abs(),
            4 => xn.relu(),
            5 => xn.tanh(),
            6 => xn.matmul(&yn),
            7 => Nd::new(&[1], vec![xn.dot(&yn)]),
            _ => Nd::new(&[], vec![xn.sum()]),
        };
        let n = Nd::new(
            &n.shape,
            n.data
                .iter()
                .map(|&v| {
                    tagn += 1;
                    T::tag(v, tagn)
                })
                .collect(),
        );
        e.flag(format!("{text}: shape"), res.shape() == &n.shape);
        if res.shape() != &n.shape {
            return;
        }
        from.push(if matches!(op, 0 | 1 | 6 | 7) { vec![x, y] } else { vec![x] });
        vals.push((format!("v{}", vals.len()), res, n));
    }
    let last = vals.len() - 1;
    // what the last value depends on
    let mut used = vec![false; vals.len()];
    for i in (0..=last).rev() {
        if i == last || used[i] {
            from[i].iter().for_each(|&j| used[j] = true);
        }
    }
    e.ctx = text.clone();
    let (rc, rn) = (vals[last].1.clone(), vals[last].2.clone());
    let Some((l, spec, more)) = loss(e, &rc, &rn, mode) else { return };
    if e.ok(format!("backward, loss {mode}"), || l.backward()).is_none() {
        return;
    }
    let mut leaves: Vec<_> = vals
        .iter()
        .enumerate()
        .filter(|(i, _)| used[*i] || (*i == last && mode != 2))
        .map(|(_, v)| v.clone())
        .collect();
    leaves.extend(more);
    check_grads(e, spec, &leaves);
    for (i, v) in vals.iter().enumerate() {
        if !used[i] && i != last {
            no_grad(e, &format!("{} (not part of the loss)", v.0), &v.1);
        }
    }
}

fn shape_after(op: i64, x: &[usize], y: &[usize]) -> Option<Vec<usize>> {
    match op {
        0 | 1 => bshape(x, y),
        2..=5 => Some(x.to_vec()),
        6 => (x.len() == 2 && y.len() == 2 && x[1] == y[0]).then(|| vec![x[0], y[1]]),
        7 => (x == y).then(|| vec![1]),
        _ => Some(vec![]),
    }
}

fn bases(code: i64, nl: usize) -> Vec<Vec<usize>> {
    match code {
        0 => vec![vec![2, 2]; nl],
        1 => vec![vec![1, 1]; nl],
        2 => (0..nl).map(|i| if i == 0 { vec![2, 2] } else { vec![1, 2] }).collect(),
        3 => (0..nl).map(|i| if i == 0 { vec![1, 2] } else { vec![2, 1] }).collect(),
        4 => vec![vec![2]; nl],
        5 => (0..nl).map(|i| if i == 0 { vec![2, 2] } else { vec![] }).collect(),
        _ => (0..nl).map(|i| if i == 0 { vec![1, 3] } else { vec![3] }).collect(),
    }
}

/// every program of `depth` instructions over `ops` in which every intermediate is used
fn programs(code: i64, nl: usize, depth: usize, ops: &[i64], mode: i64, keep: &mut dyn FnMut(&[i64]) -> bool) -> Vec<Vec<i64>> {
    let base = bases(code, nl);
    let mut cur: Vec<(Vec<i64>, Vec<Vec<usize>>)> = vec![(vec![code, nl as i64, mode], base)];
    for _ in 0..depth {
        let mut next = vec![];
        for (prog, sh) in &cur {
            for &op in ops {
                for x in 0..sh.len() {
                    let ys = if matches!(op, 0 | 1 | 6 | 7) { 0..sh.len() } else { 0..1 };
                    for y in ys {
                        if let Some(s) = shape_after(op, &sh[x], &sh[y]) {
                            let mut q = prog.clone();
                            q.extend([op, x as i64, y as i64]);
                            let mut z = sh.clone();
                            z.push(s);
                            next.push((q, z));
                        }
                    }
                }
            }
        }
        cur = next;
    }
    cur.into_iter()
        .filter(|(q, sh)| {
            // all but the last intermediate used
            let ins = &q[3..];
            let mut used = vec![false; sh.len()];
            for c in ins.chunks(3) {
                used[c[1] as usize] = true;
                if matches!(c[0], 0 | 1 | 6 | 7) {
                    used[c[2] as usize] = true;
                }
            }
            let all = used[nl..sh.len() - 1].iter().all(|&u| u);
            let one = size(&sh[sh.len() - 1]) == 1;
            all && (mode != 2 || one) && (mode != 6 || sh[sh.len() - 1].len() == 2)
        })
        .map(|(q, _)| q)
        .flat_map(|q| [forms(&q, 1), forms(&q, 2), q])
        .filter(|q| keep(q))
        .collect()
}

/// the same program with operands passed by value (1), or mixed (2)
fn forms(q: &[i64], how: i64) -> Vec<i64> {
    let mut v = q.to_vec();
    for (k, c) in v[3..].chunks_mut(3).enumerate() {
        let form = if how == 1 { 1 } else if k % 2 == 0 { 2 } else { 0 };
        match (c[0], form) {
            (0 | 4 | 5 | 6, f) if f > 0 => c[0] += 10,
            (1, f) => c[0] += 10 * f,
            _ => {}
        }
    }
    v
}

/// a long program chosen by hash: mostly additions and subtractions that go on from a recent value,
/// a few other operations; operands may be values that nothing else depends on
fn long_program(code: i64, nl: usize, depth: usize, other: usize, n: u64) -> Vec<i64> {
    let mut sh: Vec<Vec<usize>> = bases(code, nl);
    let mut q = vec![code, nl as i64, 1];
    let mut x = hash(&[code, nl as i64, depth as i64, n as i64]);
    let mut draw = |m: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((x >> 11) % m as u64) as usize
    };
    let mut left = other;
    while q.len() < 3 + 3 * depth {
        let recent = sh.len() - 1 - draw(2).min(sh.len() - 1);
        let any = draw(sh.len());
        let op = match draw(8) {
            0 | 1 | 2 => 0,
            3 | 4 => 1,
            5 => 2,
            _ if left > 0 => [5, 6, 7, 8, 3][draw(5)],
            _ => 0,
        };
        let (a, b) = if draw(2) == 0 { (recent, any) } else { (any, recent) };
        let b = if matches!(op, 0 | 1 | 6 | 7) { b } else { 0 };
        if let Some(z) = shape_after(op, &sh[a], &sh[b]) {
            left -= (op > 2) as usize;
            q.extend([op, a as i64, b as i64]);
            sh.push(z);
        }
    }
    q
}

/// deterministic thinning
pub fn hash(q: &[i64]) -> u64 {
    let mut x: u64 = 0x9E3779B97F4A7C15 ^ crate::seed();
    for &v in q {
        x ^= (v as u64).wrapping_add(0x9E3779B97F4A7C15).wrapping_add(x << 6).wrapping_add(x >> 2);
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
    }
    x
}

pub fn c12(t: bool) -> Vec<Scenario> {
    let all: Vec<i64> = (0..9).collect();
    let smooth = [0i64, 1, 2, 3, 5, 6, 7, 8];
    let mut a = vec![];
    let mut yes = |_: &[i64]| true;
    for code in [0i64, 1, 2, 3, 4, 5, 6] {
        let nl = 2;
        a.extend(programs(code, nl, 1, &all, 1, &mut yes));
        a.extend(programs(code, nl, 2, &all, 1, &mut yes));
    }
    a.extend(programs(1, 2, 2, &all, 2, &mut yes));
    a.extend(programs(4, 1, 2, &all, 4, &mut yes));
    a.extend(programs(0, 2, 2, &smooth, 6, &mut yes));
    // three instructions: all on single-element matrices, a seeded selection on larger shapes
    let every = if t { 1 } else { 2 };
    let mut thin = |q: &[i64]| hash(q) % every == 0;
    a.extend(programs(1, 2, 3, &[0, 1, 2, 5, 6, 7, 8], 0, &mut thin));
    let every = if t { 1 } else { 8 };
    let mut thin = |q: &[i64]| hash(q) % every == 0;
    for code in [0i64, 2, 3, 4, 5] {
        a.extend(programs(code, 2, 3, &[0, 1, 2, 5, 6, 7, 8], 1, &mut thin));
    }
    let every = if t { 4 } else { 30 };
    let mut thin = |q: &[i64]| hash(q) % every == 0;
    for code in [1i64, 4] {
        a.extend(programs(code, 2, 3, &all, 1, &mut thin));
        a.extend(programs(code, 1, 4, &[0, 1, 2, 5, 6, 7, 8], 1, &mut |q: &[i64]| hash(q) % (every * 4) == 0));
    }
    // hand-picked sharing patterns
    for q in [
        // y = x + x; z = y + x; u = z - y  (one operand used at several depths)
        vec![0, 1, 1, 0, 0, 0, 0, 1, 0, 1, 2, 1],
        // y = tanh x; z = x y (bmm); u = z + y
        vec![0, 1, 1, 5, 0, 0, 6, 0, 1, 0, 2, 1],
        // repeated squaring
        vec![0, 1, 1, 6, 0, 0, 6, 1, 1, 0, 2, 0],
        // dot feeding an addition broadcast over a matrix
        vec![0, 2, 1, 7, 0, 1, 0, 0, 2, 5, 3, 0],
        // sum of sums
        vec![0, 2, 4, 8, 0, 0, 8, 1, 0, 1, 2, 3],
        // a diamond of five
        vec![4, 1, 1, 2, 0, 0, 5, 0, 0, 0, 1, 2, 1, 3, 0, 0, 4, 1],
    ] {
        a.push(q);
    }
    // longer ones: v = v + v; v = v + leaf; v = leaf - v; v_k = v_(k-1) + v_(k-2); powers of a matrix
    let mut chain = |code: i64, nl: i64, depth: i64, f: &dyn Fn(i64) -> [i64; 3]| {
        let mut q = vec![code, nl, 1];
        (0..depth).for_each(|k| q.extend(f(k + nl - 1)));
        a.push(q);
    };
    for code in [0, 1, 4] {
        chain(code, 1, 6, &|last| [0, last, last]);
        chain(code, 1, 12, &|last| [0, last, 0]);
        chain(code, 2, 20, &|last| [0, last, last % 2]);
        chain(code, 1, 9, &|last| [1, 0, last]);
        chain(code, 2, 9, &|last| [0, last, last - 1]);
        chain(code, 1, 16, &|_| [2, 0, 0]);
        chain(code, 1, 16, &|last| [2, last, 0]);
        chain(code, 1, 3, &|last| [5, last, 0]);
    }
    chain(0, 1, 3, &|last| [6, last, 0]);
    chain(0, 1, 2, &|last| [6, last, last]);
    chain(1, 2, 6, &|last| [6, last, last % 2]);
    for (code, nl) in [(0i64, 2usize), (1, 2), (1, 3), (2, 2), (4, 2), (4, 3), (5, 2), (6, 2)] {
        for n in 0..if t { 300 } else { 25 } {
            let other = if size(&bases(code, nl)[0]) > 2 { 1 } else { 2 };
            a.push(long_program(code, nl, 5 + n as usize % 6, other, n));
        }
    }
    a.sort();
    a.dedup();
    let mut s = scen!("program", "straight-line programs over all differentiable operations with arbitrary sharing; all leaf values and loss weights symbolic, signs forked", a, program);
    s.max_paths = 600;
    vec![s]
}

// ---------------------------------------------------------------- C13
/// params: sequence of event codes
fn history<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let x = fresh(e, "x", &[2]);
    let y = fresh(e, "y", &[2]);
    let w = fresh(e, "w", &[2]);
    let (xc, yc, wc) = (x.rc(), y.rc(), w.rc());
    let x2 = xc.clone();
    // a graph that is kept and differentiated repeatedly
    let Some(sc) = e.ok("kept intermediate", || &xc + &yc) else { return };
    let s2 = sc.clone();
    let Some(kept) = e.ok("kept graph", || F::dot(&sc, &wc)) else { return };
    let s_val: Vec<T> = x.data.iter().zip(&y.data).map(|(&a, &b)| a + b).collect();
    type G<T> = Option<Vec<T>>;
    fn plus<T: Elem>(g: &mut G<T>, d: &[T]) {
        *g = Some(match g.take() {
            None => d.to_vec(),
            Some(o) => o.iter().zip(d).map(|(&a, &b)| a + b).collect(),
        });
    }
    let (mut gx, mut gy, mut gs, mut gw): (G<T>, G<T>, G<T>, G<T>) = (None, None, None, None);
    let mut text = String::new();
    for (k, &ev) in p.iter().enumerate() {
        let done = match ev {
            0 => {
                text += "backward(kept); ";
                plus(&mut gx, &w.data);
                plus(&mut gy, &w.data);
                plus(&mut gs, &w.data);
                plus(&mut gw, &s_val);
                e.ok(text.clone(), || kept.backward())
            }
            1 => {
                text += "backward(dot(x,y)); ";
                plus(&mut gx, &y.data);
                plus(&mut gy, &x.data);
                e.ok(text.clone(), || F::dot(&xc, &yc).backward())
            }
            2 => {
                text += "x.update_grad; ";
                let g = fresh(e, &format!("g{k}_"), &[2]);
                plus(&mut gx, &g.data);
                e.ok(text.clone(), || xc.update_grad(g.rc()))
            }
            3 => {
                text += "clone(x).update_grad; ";
                let g = fresh(e, &format!("g{k}_"), &[2]);
                plus(&mut gx, &g.data);
                e.ok(text.clone(), || x2.update_grad(g.rc()))
            }
            4 => {
                text += "x.zero_grad; ";
                gx = None;
                e.ok(text.clone(), || xc.zero_grad())
            }
            5 => {
                text += "clone(x).zero_grad; ";
                gx = None;
                e.ok(text.clone(), || x2.zero_grad())
            }
            6 => {
                text += "y.zero_grad; ";
                gy = None;
                e.ok(text.clone(), || yc.zero_grad())
            }
            7 => {
                text += "backward(x-y+x summed); ";
                plus(&mut gx, &[T::k(2), T::k(2)]);
                plus(&mut gy, &[T::k(-1), T::k(-1)]);
                e.ok(text.clone(), || (&(&xc - &yc) + &xc).sum().backward())
            }
            9 => {
                text += "(x+y).zero_grad; ";
                gs = None;
                e.ok(text.clone(), || sc.zero_grad())
            }
            10 => {
                text += "w.zero_grad; ";
                gw = None;
                e.ok(text.clone(), || wc.zero_grad())
            }
            11 => {
                text += "clone(x+y).update_grad; ";
                let g = fresh(e, &format!("g{k}_"), &[2]);
                plus(&mut gs, &g.data);
                e.ok(text.clone(), || s2.update_grad(g.rc()))
            }
            12 => {
                text += "kept.zero_grad; ";
                e.ok(text.clone(), || kept.zero_grad())
            }
            _ => {
                text += "x+y, no backward; ";
                e.ok(text.clone(), || {
                    let s = (&xc + &yc).sum();
                    s.elem();
                    xc.bmm_free()
                })
            }
        };
        if done.is_none() {
            return;
        }
    }
    e.ctx = text;
    for (name, t, g) in [
        ("x", &xc, &gx),
        ("a clone of x", &x2, &gx),
        ("y", &yc, &gy),
        ("x+y", &sc, &gs),
        ("a clone of x+y", &s2, &gs),
        ("w", &wc, &gw),
    ] {
        match g {
            None => no_grad(e, name, t),
            Some(g) => same_grad(e, name, t, &[2], g, &[]),
        }
    }
}

/// keeps `history` readable
trait Nop {
    fn bmm_free(&self) {}
}
impl<T: rust_light::tensor::Numeric> Nop for RcTensor<T> {}

/// fresh results carry no gradient
fn fresh_results<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let s = r.shape();
    let (x, y) = (fresh(e, "x", &s), fresh(e, "y", &s));
    let (xc, yc) = (x.rc(), y.rc());
    let g = RcTensor::new_with_filler(s.clone(), T::k(1));
    xc.update_grad(g.clone());
    yc.update_grad(g);
    let mut all: Vec<(&str, RcTensor<T>)> = vec![
        ("x + y", &xc + &yc),
        ("x - y", &xc - &yc),
        ("-x", -&xc),
        ("x * y", &xc * &yc),
        ("abs", xc.abs()),
        ("tanh", F::tanh(xc.clone())),
        ("sum", xc.sum()),
        ("dot", F::dot(&xc, &yc)),
        ("deep_clone", xc.deep_clone()),
        ("new_with_filler", RcTensor::new_with_filler(s.clone(), T::k(0))),
    ];
    if s.len() == 2 && s[0] == s[1] {
        all.push(("bmm", xc.bmm(&yc)));
    }
    for (n, t) in &all {
        no_grad(e, n, t);
    }
}

/// a gradient that was added up has no history: differentiating something computed from it gives the
/// contributions nothing. params: source (0 update_grad, 1 backward, 2 both), contributions, shape
fn accumulated<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (source, n) = (r.int(), r.us());
    let s = r.shape();
    let x = fresh(e, "x", &s);
    let w = fresh(e, "w", &s);
    let (xc, wc) = (x.rc(), w.rc());
    let mut total = Nd::fill(&s, T::k(0));
    let mut given = vec![];
    let mut read = vec![];
    for k in 0..n {
        if source == 0 || (source == 2 && k % 2 == 0) {
            let c = fresh(e, &format!("c{k}_"), &s);
            let cc = c.rc();
            if e.ok("update_grad", || xc.update_grad(cc.clone())).is_none() {
                return;
            }
            total = total.add(&c);
            given.push(cc);
        } else {
            if e.ok("backward", || F::dot(&xc, &wc).backward()).is_none() {
                return;
            }
            total = total.add(&w);
        }
        if let Some(g) = e.ok("grad", || xc.grad()) {
            read.push(g);
        }
    }
    same_grad(e, "x", &xc, &s, &total.data, &[]);
    let Some(g) = e.ok("grad", || xc.grad()) else { return };
    let Some(l) = e.ok("a function of the gradient", || (&g + &xc).sum()) else { return };
    xc.zero_grad();
    if e.ok("its backward", || l.backward()).is_none() {
        return;
    }
    e.ctx = "after differentiating a function of the accumulated gradient".into();
    let ones = vec![T::k(1); size(&s)];
    same_grad(e, "the gradient that was read", &g, &s, &ones, &[]);
    same_grad(e, "x", &xc, &s, &ones, &[]);
    for c in &given {
        if n > 1 {
            no_grad(e, "a contribution", c);
        }
    }
    for (k, h) in read.iter().enumerate() {
        if k + 1 < n {
            no_grad(e, &format!("the gradient as it was after {} contributions", k + 1), h);
        }
    }
    if size(&s) == 1 && n > 1 {
        g.zero_grad();
        e.rejects("backward on the accumulated gradient itself", || g.backward());
        for c in given.iter().chain(&read[..n - 1]) {
            no_grad(e, "a contribution", c);
        }
    }
}

pub fn c13(t: bool) -> Vec<Scenario> {
    let mut a: Vec<Vec<i64>> = vec![vec![]];
    let mut cur: Vec<Vec<i64>> = vec![vec![]];
    let alpha: i64 = 13;
    let mut acc = vec![];
    for source in 0..3i64 {
        for n in 1..=(if t { 9 } else { 6 }) {
            for sh in [vec![], vec![1], vec![2], vec![1, 1], vec![2, 2], vec![2, 1, 2]] {
                acc.push([source, n].into_iter().chain(enc(&[&sh], &[])).collect());
            }
        }
    }
    for source in 0..3i64 {
        for n in [10i64, 20, 40] {
            for sh in [vec![], vec![2], vec![1, 1]] {
                acc.push([source, n].into_iter().chain(enc(&[&sh], &[])).collect());
            }
        }
        for sh in [vec![9, 8], vec![70], vec![2, 2, 3]] {
            acc.push([source, 3].into_iter().chain(enc(&[&sh], &[])).collect());
        }
    }
    for d in 1..=4 {
        let mut next = vec![];
        for q in &cur {
            for ev in 0..alpha {
                let mut z = q.clone();
                z.push(ev);
                next.push(z);
            }
        }
        cur = next;
        let keep = if t { 1 } else { 2 };
        a.extend(cur.iter().filter(|q| d < 4 || hash(q) % keep == 0).cloned());
    }
    if t {
        // length five: a seeded selection
        for q in &cur {
            for ev in 0..alpha {
                let mut z = q.clone();
                z.push(ev);
                if hash(&z) % 4 == 0 {
                    a.push(z);
                }
            }
        }
    }
    vec![
        scen!("history", "all sequences of backward, update and clear events on two tensors and a clone up to the stated length; all values symbolic", a, history),
        scen!("accumulated", "gradients added up from update_grad and backward, then used in a further differentiation", acc, accumulated),
        scen!("fresh_results", "results of every operation start without a gradient", vec![enc(&[&[]], &[]), enc(&[&[1]], &[]), enc(&[&[2]], &[]), enc(&[&[2, 2]], &[]), enc(&[&[1, 1]], &[]), enc(&[&[2, 1, 2]], &[])], fresh_results),
    ]
}

// ---------------------------------------------------------------- C20
/// params: op, aliased, shape
fn purity<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (op, alias) = (r.int(), r.int() == 1);
    let s = r.shape();
    let x = fresh(e, "x", &s);
    let y = if alias { x.clone() } else { fresh(e, "y", &s) };
    let g = fresh(e, "g", &s);
    let h = fresh(e, "h", &s);
    let xc = x.rc();
    let yc = if alias { xc.clone() } else { y.rc() };
    xc.update_grad(g.rc());
    if !alias {
        yc.update_grad(h.rc());
    }
    let yg = if alias { g.clone() } else { h.clone() };
    let raw = x.raw();
    let full: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    let part: Vec<(usize, usize)> = s.iter().map(|&d| (if d > 1 { 1 } else { 0 }, d)).collect();
    let vx = xc.slice(ranges(&part));
    let vy = yc.slice(ranges(&full));
    let st = e.var("s");
    let sc = RcTensor::scalar(st);
    let mut grads_change = false;
    let name = ["add", "sub", "mul", "neg", "abs", "tanh", "relu", "sum", "dot", "bmm", "scalar mul", "slice and reshape", "to_tensor / deep_clone", "raw ops", "slice ops", "compare and iterate", "backward of a product", "backward of a mixed expression"][op as usize];
    let f = || match op {
        0 => drop((&xc + &yc, xc.clone() + yc.clone())),
        1 => drop((&xc - &yc, xc.clone() - yc.clone(), xc.clone() - &yc)),
        2 => drop((&xc * &yc, xc.clone() * yc.clone(), F::element_wise_multiplication(&xc, &yc))),
        3 => drop(-&xc),
        4 => drop(xc.abs()),
        5 => drop(F::tanh(xc.clone())),
        6 => drop(F::relu(xc.clone())),
        7 => drop((xc.sum(), raw.sum(), vx.sum())),
        8 => drop((F::dot(&xc, &yc), F::dot_no_derivative(&xc, &vy), raw.dot(&yc))),
        9 => {
            if s.len() == 2 && s[0] == s[1] {
                drop((xc.bmm(&yc), vy.bmm(&xc), raw.bmm(&xc)))
            }
        }
        10 => drop((&xc * &sc, &sc * &xc, xc.left_scalar_multiplication(&st), xc.right_scalar_multiplication(&st))),
        11 => {
            let v = vx.reshape(vec![vx.count()]);
            drop((v.slice(vec![SliceRange::new(0, v.count())]), v))
        }
        12 => drop((xc.to_tensor(), xc.deep_clone(), vx.to_tensor(), vx.deep_clone(), raw.to_tensor(), raw.deep_clone())),
        13 => drop((&raw + &xc, &raw - &xc, &raw * &xc, -&raw)),
        14 => drop((&raw + &vy, F::element_wise_multiplication(&vy, &xc), vy.left_scalar_multiplication(&st))),
        15 => drop((xc.iter_indices().count(), vx.iter_indices().count(), vx == vx.to_tensor())),
        16 => F::dot(&xc, &yc).backward(),
        _ => (&F::tanh(&xc + &yc) - &(-&yc)).sum().backward(),
    };
    if op >= 16 {
        grads_change = true;
    }
    if e.ok(name, f).is_none() {
        return;
    }
    e.ctx = name.to_string();
    same(e, "x", &xc, &x);
    same(e, "y", &yc, &y);
    same(e, "the raw tensor", &raw, &x);
    same(e, "a slice of x", &vx, &x.window(&part));
    same(e, "a slice of y", &vy, &y);
    if !grads_change {
        same_grad(e, "x", &xc, &s, &g.data, &[]);
        same_grad(e, "y", &yc, &s, &yg.data, &[]);
    } else {
        no_grad(e, "the raw tensor as a tensor", &raw.to_tensor());
    }
}

/// a deep clone shares nothing; a to_tensor of a tensor is the same tensor
fn deep<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let s = r.shape();
    let x = fresh(e, "x", &s);
    let w = fresh(e, "w", &s);
    let g = fresh(e, "g", &s);
    let xc = x.rc();
    let wc = w.rc();
    let y = -&xc;
    y.update_grad(g.rc());
    let d = y.deep_clone();
    same(e, "the deep clone", &d, &x.neg());
    no_grad(e, "the deep clone", &d);
    // no recorded history: differentiating through it stops there
    if e.ok("backward through the deep clone", || F::dot(&d, &wc).backward()).is_none() {
        return;
    }
    no_grad(e, "the original's operand", &xc);
    same_grad(e, "the deep clone", &d, &s, &w.data, &[]);
    same_grad(e, "the original", &y, &s, &g.data, &[]);
    // nothing shared in the other direction either
    y.update_grad(g.rc());
    d.zero_grad();
    no_grad(e, "the cleared deep clone", &d);
    let two: Vec<T> = g.data.iter().map(|&v| v + v).collect();
    same_grad(e, "the original updated again", &y, &s, &two, &[]);
    if size(&s) == 1 {
        e.rejects("backward on a deep clone itself (no recorded operation)", || y.deep_clone().backward());
    }
    // the same for a plain tensor, which has neither gradient nor history
    let pc = x.rc();
    let pd = pc.deep_clone();
    same(e, "the deep clone of a plain tensor", &pd, &x);
    pd.update_grad(g.rc());
    no_grad(e, "the plain original of an updated deep clone", &pc);
    pc.update_grad(w.rc());
    same_grad(e, "the deep clone of a plain tensor", &pd, &s, &g.data, &[]);
    let pd2 = pc.deep_clone();
    no_grad(e, "the deep clone of a plain tensor with a gradient", &pd2);
    same_grad(e, "the plain original", &pc, &s, &w.data, &[]);
    // deep clones of raw tensors and slices
    let raw = x.raw();
    let rd = raw.deep_clone();
    rd.update_grad(g.rc());
    same(e, "deep clone of a raw tensor", &rd, &x);
    no_grad(e, "the raw tensor", &raw.to_tensor());
    let full: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    let v = xc.slice(ranges(&full));
    let vd = v.deep_clone();
    vd.update_grad(g.rc());
    no_grad(e, "the tensor under the slice", &xc);
    let vt = v.to_tensor();
    vt.update_grad(g.rc());
    no_grad(e, "the tensor under the copied slice", &xc);
    // a clone of a raw tensor that carries a gradient has its own gradient
    raw.update_grad(g.rc());
    let rc2 = raw.clone();
    raw.zero_grad();
    same_grad(e, "a clone of a raw tensor", &rc2.to_tensor(), &s, &g.data, &[]);
    no_grad(e, "the cleared raw tensor", &raw.to_tensor());
}

/// contributions handed to `update_grad` are operands too. params: kind of contribution, shape
fn contributions<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let kind = r.int();
    let s = r.shape();
    let x = fresh(e, "x", &s);
    let (a, b) = (fresh(e, "a", &s), fresh(e, "b", &s));
    let (xc, ac, bc) = (x.rc(), a.rc(), b.rc());
    // 0 plain, 1 the result of an operation, 2 with a gradient of its own, 3 both
    let (cc, c) = if kind % 2 == 1 { (&ac + &bc, a.add(&b)) } else { (ac.clone(), a.clone()) };
    let (dc, d) = if kind % 2 == 1 { (-&bc, b.neg()) } else { (bc.clone(), b.clone()) };
    let g = fresh(e, "g", &s);
    let own = kind >= 2;
    if own {
        cc.update_grad(g.rc());
        dc.update_grad(g.rc());
    }
    let mut total = c.clone();
    for round in 0..3 {
        let done = e.ok("update_grad", || match round {
            0 => xc.update_grad(cc.clone()),
            1 => xc.update_grad(dc.clone()),
            _ => xc.update_grad(cc.clone()),
        });
        if done.is_none() {
            return;
        }
        total = match round {
            0 => total,
            1 => total.add(&d),
            _ => total.add(&c),
        };
        e.ctx = format!("after {} contributions", round + 1);
        same(e, "x", &xc, &x);
        same_grad(e, "x", &xc, &s, &total.data, &[]);
        for (n, t, v) in [("the first contribution", &cc, &c), ("the second contribution", &dc, &d)] {
            same(e, n, t, v);
            if own {
                same_grad(e, n, t, &s, &g.data, &[]);
            } else {
                no_grad(e, n, t);
            }
        }
        if kind % 2 == 1 {
            no_grad(e, "what the contribution was computed from", &ac);
            no_grad(e, "what the contributions were computed from", &bc);
        }
        same(e, "a", &ac, &a);
        same(e, "b", &bc, &b);
    }
    // a gradient that was read before is a value of its own
    e.ctx = "reading".into();
    let Some(read) = e.ok("grad", || xc.grad()) else { return };
    xc.update_grad(cc.clone());
    same(e, "the gradient read before another contribution", &read, &total);
    let Some(read) = e.ok("grad", || xc.grad()) else { return };
    let now = total.add(&c);
    xc.zero_grad();
    same(e, "the gradient read before clearing", &read, &now);
}

/// backward leaves the values of everything it does not differentiate alone, and gives gradients only to
/// what the loss was computed from. params: op, shape
fn bystanders<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let op = r.int();
    let s = r.shape();
    let (x, y) = (fresh(e, "x", &s), fresh(e, "y", &s));
    let (xc, yc) = (x.rc(), y.rc());
    let full: Vec<(usize, usize)> = s.iter().map(|&d| (0, d)).collect();
    // consumers of x and y that are not part of the loss
    let side = &xc + &yc;
    let side2 = (-&side).sum();
    let copy = xc.deep_clone();
    let view = xc.slice(ranges(&full));
    let moved = view.to_tensor();
    let raw = xc.tensor().deref_clone();
    let res = e.ok("forward", || match op {
        0 => &xc + &yc,
        1 => &xc - &yc,
        2 => -&xc,
        3 => xc.abs(),
        4 => F::tanh(xc.clone()),
        5 => F::dot(&xc, &yc),
        _ => xc.sum(),
    });
    let Some(res) = res else { return };
    if e.ok("backward", || res.sum().backward()).is_none() {
        return;
    }
    e.ctx = "after backward".into();
    no_grad(e, "a sum that is not part of the loss", &side);
    no_grad(e, "a result that is not part of the loss", &side2);
    no_grad(e, "a deep clone", &copy);
    no_grad(e, "a copied slice", &moved);
    same(e, "x", &xc, &x);
    same(e, "y", &yc, &y);
    same(e, "a sum", &side, &x.add(&y));
    same(e, "a deep clone", &copy, &x);
    same(e, "a slice", &view, &x);
    same(e, "a copied slice", &moved, &x);
    same(e, "a raw clone", &raw, &x);
    no_grad(e, "a raw clone as a tensor", &raw.to_tensor());
    if matches!(op, 2 | 3 | 4 | 6) {
        no_grad(e, "y, which the loss does not depend on", &yc);
    }
    let Some(g1) = e.ok("gradient of x", || xc.grad()) else { return };
    no_grad(e, "a gradient that backward stored", &g1);
}
trait DerefClone<T: rust_light::tensor::Numeric> {
    fn deref_clone(&self) -> RawTensor<T>;
}
impl<T: rust_light::tensor::Numeric> DerefClone<T> for RcTensor<T> {
    fn deref_clone(&self) -> RawTensor<T> {
        (**self).clone()
    }
}

pub fn c20(t: bool) -> Vec<Scenario> {
    let mut sh = vec![vec![], vec![2], vec![2, 2], vec![1, 2], vec![1, 1], vec![3], vec![2, 1, 2], vec![2, 3], vec![1], vec![0]];
    if t {
        sh.extend([vec![3, 3], vec![5], vec![2, 2, 2], vec![1, 2, 1, 2]]);
    }
    let mut a = vec![];
    for op in 0..18i64 {
        for al in 0..2i64 {
            for s in &sh {
                a.push([op, al].into_iter().chain(enc(&[s], &[])).collect());
            }
        }
    }
    vec![
        scen!("purity", "every operation on operands that already carry symbolic gradients, with and without aliased operands: values, shapes and gradients before and after", a, purity),
        scen!("contributions", "tensors handed to update_grad, with and without history and gradients of their own", (0..4i64).flat_map(|k| sh.iter().map(move |s| [k].into_iter().chain(enc(&[s], &[])).collect::<Vec<i64>>())).collect(), contributions),
        scen!("bystanders", "results, clones and slices that are not part of the differentiated loss", (0..7i64).flat_map(|k| sh.iter().map(move |s| [k].into_iter().chain(enc(&[s], &[])).collect::<Vec<i64>>())).collect(), bystanders),
        scen!("deep", "deep clones against originals in both directions", sh.iter().map(|s| enc(&[s], &[])).collect(), deep),
    ]
}
