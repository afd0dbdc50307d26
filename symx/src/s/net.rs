//! C16–C19: layers, parameter lists, SGD steps, training histories.
use crate::engine::Scenario;
use crate::env::*;
use crate::refmodel::*;
use crate::scen;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

type Act<T> = Option<fn(RcTensor<T>) -> RcTensor<T>>;

/// 0 none, 1 relu, 2 tanh, 3 doubling (a custom function), 4 negation (a custom function)
fn act<T: Elem>(k: i64) -> Act<T> {
    match k {
        0 => None,
        1 => Some(F::relu),
        2 => Some(F::tanh),
        3 => Some(|t| &t + &t),
        _ => Some(|t| -&t),
    }
}
fn act_n<T: Elem>(k: i64, n: &Nd<T>) -> Nd<T> {
    match k {
        0 => n.clone(),
        1 => n.relu(),
        2 => n.tanh(),
        3 => n.add(n),
        _ => n.neg(),
    }
}

/// A network described by sizes n0, n1, .. and per layer (activation, bias form).
/// bias forms: 0 [1,out], 1 [out], 2 rank zero, 3 [1] , 4 [1,1], 5 [2,out], 6 [2,1], 7 [3,1], 8 [2,1,out]
pub struct Net<T: Elem> {
    pub acts: Vec<i64>,
    pub w: Vec<Nd<T>>,
    pub b: Vec<Nd<T>>,
    pub wc: Vec<RcTensor<T>>,
    pub bc: Vec<RcTensor<T>>,
}
fn bias_shape(form: i64, out: usize) -> Vec<usize> {
    match form {
        0 => vec![1, out],
        1 => vec![out],
        2 => vec![],
        3 => vec![1],
        4 => vec![1, 1],
        5 => vec![2, out],
        6 => vec![2, 1],
        7 => vec![3, 1],
        _ => vec![2, 1, out],
    }
}
pub fn net<T: Elem>(e: &mut Env<T>, sizes: &[usize], acts: &[i64], bias: &[i64]) -> Net<T> {
    let mut n = Net { acts: acts.to_vec(), w: vec![], b: vec![], wc: vec![], bc: vec![] };
    for l in 0..acts.len() {
        let w = fresh(e, &format!("w{l}_"), &[sizes[l], sizes[l + 1]]);
        let b = fresh(e, &format!("b{l}_"), &bias_shape(bias[l], sizes[l + 1]));
        n.wc.push(w.rc());
        n.bc.push(b.rc());
        n.w.push(w);
        n.b.push(b);
    }
    n
}
impl<T: Elem> Net<T> {
    pub fn layer(&self, l: usize) -> Linear<T> {
        Linear::new(self.wc[l].clone(), self.bc[l].clone(), act(self.acts[l]))
    }
    pub fn module(&self) -> M<T> {
        match self.acts.len() {
            0 => M::M0(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            1 => M::M1(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            2 => M::M2(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            3 => M::M3(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            4 => M::M4(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            5 => M::M5(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            6 => M::M6(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            7 => M::M7(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            8 => M::M8(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            9 => M::M9(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            10 => M::M10(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            11 => M::M11(Mlp::new(std::array::from_fn(|l| self.layer(l)))),
            _ => panic!("symx: depth"),
        }
    }
    pub fn spec(&self, x: &Nd<T>) -> Nd<T> {
        forward(&self.acts, &self.w, &self.b, x)
    }
}
pub fn forward<T: Elem>(acts: &[i64], w: &[Nd<T>], b: &[Nd<T>], x: &Nd<T>) -> Nd<T> {
    let mut v = x.clone();
    for l in 0..acts.len() {
        v = act_n(acts[l], &v.matmul(&w[l]).add(&b[l]));
    }
    v
}

pub enum M<T: Numeric> {
    L(Linear<T>),
    M0(Mlp<T, 0>),
    M1(Mlp<T, 1>),
    M2(Mlp<T, 2>),
    M3(Mlp<T, 3>),
    M4(Mlp<T, 4>),
    M5(Mlp<T, 5>),
    M6(Mlp<T, 6>),
    M7(Mlp<T, 7>),
    M8(Mlp<T, 8>),
    M9(Mlp<T, 9>),
    M10(Mlp<T, 10>),
    M11(Mlp<T, 11>),
}
macro_rules! each {
    ($m:expr, $x:ident => $b:expr) => {
        match $m {
            M::L($x) => $b,
            M::M0($x) => $b,
            M::M1($x) => $b,
            M::M2($x) => $b,
            M::M3($x) => $b,
            M::M4($x) => $b,
            M::M5($x) => $b,
            M::M6($x) => $b,
            M::M7($x) => $b,
            M::M8($x) => $b,
            M::M9($x) => $b,
            M::M10($x) => $b,
            M::M11($x) => $b,
        }
    };
}
impl<T: Elem> M<T> {
    pub fn forward(&self, x: RcTensor<T>) -> RcTensor<T> {
        each!(self, m => m.forward(x))
    }
    pub fn params(&self) -> Vec<RcTensor<T>> {
        each!(self, m => Module::params(m))
    }
    pub fn update(&mut self, p: Vec<RcTensor<T>>) {
        each!(self, m => m.update_params(p))
    }
    pub fn step(&mut self, s: RcTensor<T>) {
        each!(self, m => sgd_step(m, s))
    }
}

pub fn rd_net(r: &mut Rd) -> (Vec<usize>, Vec<i64>, Vec<i64>) {
    let sizes = r.shape();
    let d = sizes.len() - 1;
    let mut acts = vec![];
    let mut bias = vec![];
    for _ in 0..d {
        acts.push(r.int());
        bias.push(r.int());
    }
    (sizes, acts, bias)
}
/// sizes, then (activation, bias form) per layer
pub fn enc_net(sizes: &[usize], layers: &[(i64, i64)]) -> Vec<i64> {
    let mut v = enc(&[sizes], &[]);
    for (a, b) in layers {
        v.extend([*a, *b]);
    }
    v
}

fn check_params<T: Elem>(e: &mut Env<T>, label: &str, got: &[RcTensor<T>], w: &[Nd<T>], b: &[Nd<T>]) -> bool {
    e.flag(format!("{label}: {} parameters", 2 * w.len()), got.len() == 2 * w.len());
    if got.len() != 2 * w.len() {
        return false;
    }
    for l in 0..w.len() {
        same(e, &format!("{label}: weights {l}"), &got[2 * l], &w[l]);
        same(e, &format!("{label}: bias {l}"), &got[2 * l + 1], &b[l]);
    }
    true
}

// ---------------------------------------------------------------- C16
/// params: as a layer (0) or an MLP (1), network, input shape
fn layers<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let how = r.int();
    let (sizes, acts, bias) = rd_net(&mut r);
    let xs = r.shape();
    let n = net(e, &sizes, &acts, &bias);
    let x = fresh(e, "x", &xs);
    let xc = x.rc();
    let m = if how == 0 { M::L(n.layer(0)) } else { n.module() };
    let want = n.spec(&x);
    let Some(got) = e.ok("forward", || m.forward(xc.clone())) else { return };
    same(e, "output", &got, &want);
    // a second pass with the same module gives the same; the input is untouched
    let Some(again) = e.ok("forward again", || m.forward(xc.clone())) else { return };
    same(e, "second output", &again, &want);
    same(e, "input", &xc, &x);
    check_params(e, "after forward", &m.params(), &n.w, &n.b);
}

/// an input whose feature count does not match is refused
fn misfit<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sizes, acts, bias) = rd_net(&mut r);
    let xs = r.shape();
    let n = net(e, &sizes, &acts, &bias);
    let xc = fresh(e, "x", &xs).rc();
    let m = n.module();
    e.rejects(format!("input {xs:?} to sizes {sizes:?}"), || m.forward(xc));
}

pub fn c16(t: bool) -> Vec<Scenario> {
    let mut a = vec![];
    let d = if t { 6 } else { 4 };
    let push = |a: &mut Vec<Vec<i64>>, how: i64, n: Vec<i64>, x: &[usize]| {
        a.push([how].into_iter().chain(n).chain(enc(&[x], &[])).collect())
    };
    for i in 1..=d {
        for o in 1..=d {
            for b in 1..=d {
                for ac in [0i64, 2, 3, 4] {
                    let forms: &[i64] = if ac == 0 { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 5] };
                    for &f in forms {
                        // a bias with rows of its own
                        let rows = match f { 5 | 6 => 2, 7 => 3, _ => 1 };
                        if rows > 1 && b > 1 && b != rows {
                            continue;
                        }
                        push(&mut a, 0, enc_net(&[i, o], &[(ac, f)]), &[b, i]);
                    }
                }
                if o * b <= 4 {
                    push(&mut a, 0, enc_net(&[i, o], &[(1, 1)]), &[b, i]);
                    push(&mut a, 0, enc_net(&[i, o], &[(1, 0)]), &[b, i]);
                }
                push(&mut a, 1, enc_net(&[i, o], &[(2, 0)]), &[b, i]);
            }
            // a batch of matrices
            for (b, q) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (3, 2)] {
                for ac in [0i64, 2] {
                    for f in [0i64, 1] {
                        push(&mut a, 0, enc_net(&[i, o], &[(ac, f)]), &[b, q, i]);
                        push(&mut a, 1, enc_net(&[i, o], &[(ac, f)]), &[b, q, i]);
                    }
                }
            }
        }
    }
    // zero-sized batch
    push(&mut a, 0, enc_net(&[2, 2], &[(0, 0)]), &[0, 2]);
    push(&mut a, 1, enc_net(&[2, 3], &[(0, 0)]), &[0, 2]);
    // depth two and three: every pair / triple of activations
    let mut sizes2 = vec![[1, 1, 1], [1, 2, 1], [2, 1, 2], [2, 2, 2], [2, 3, 1]];
    if t {
        sizes2.extend([[3, 2, 3], [1, 4, 2]]);
    }
    for s in sizes2 {
        for a1 in 0..5i64 {
            for a2 in 0..5i64 {
                for b in [1usize, 2] {
                    // relu outputs fork per element
                    let forks = if a1 == 1 { b * s[1] } else { 0 } + if a2 == 1 { b * s[2] } else { 0 };
                    if forks > 4 {
                        continue;
                    }
                    push(&mut a, 1, enc_net(&s, &[(a1, (a1 + a2) % 2), (a2, a1 % 2)]), &[b, s[0]]);
                }
            }
        }
    }
    for s in [[1usize, 1, 1, 1], [2, 1, 2, 1], [1, 2, 1, 2], [2, 2, 2, 2]] {
        for a1 in 0..5i64 {
            for a2 in 0..5i64 {
                for a3 in 0..5i64 {
                    let b = 1;
                    let forks = [a1, a2, a3].iter().enumerate().map(|(k, &a)| if a == 1 { b * s[k + 1] } else { 0 }).sum::<usize>();
                    if forks > 4 || (s[1] * s[2] > 2 && (a1 * 7 + a2 * 3 + a3) % 4 != 0 && !t) {
                        continue;
                    }
                    push(&mut a, 1, enc_net(&s, &[(a1, 0), (a2, 1), (a3, 0)]), &[b, s[0]]);
                }
            }
        }
    }
    if t {
        push(&mut a, 0, enc_net(&[9, 7], &[(2, 0)]), &[5, 9]);
        push(&mut a, 1, enc_net(&[6, 8, 5], &[(2, 0), (0, 1)]), &[7, 6]);
        push(&mut a, 1, enc_net(&[2, 2, 2, 2, 2], &[(2, 0), (0, 1), (3, 0), (4, 0)]), &[2, 2]);
        push(&mut a, 1, enc_net(&[1, 1, 1, 1, 1], &[(1, 0), (1, 1), (1, 0), (1, 0)]), &[1, 1]);
    }
    push(&mut a, 0, enc_net(&[6, 6], &[(0, 0)]), &[6, 6]);
    push(&mut a, 1, enc_net(&[5, 7, 2], &[(2, 0), (0, 1)]), &[3, 5]);
    // sizes beyond the usual block sizes, one at a time
    for (i, o, b) in [(1usize, 1usize, 17usize), (2, 2, 9), (1, 17, 1), (17, 1, 2), (2, 33, 2), (33, 2, 2), (1, 65, 1), (65, 1, 1), (1, 1, 65), (2, 1, 33), (9, 7, 5), (8, 8, 8), (5, 16, 4)] {
        push(&mut a, 0, enc_net(&[i, o], &[(0, 0)]), &[b, i]);
        push(&mut a, 1, enc_net(&[i, o], &[(2, 1)]), &[b, i]);
    }
    for (q, r) in [(5usize, 2usize), (9, 1), (17, 2), (2, 9)] {
        push(&mut a, 0, enc_net(&[2, 2], &[(2, 0)]), &[q, r, 2]);
    }
    push(&mut a, 1, enc_net(&[2, 2, 2, 2, 2], &[(3, 0), (0, 1), (3, 0), (4, 0)]), &[2, 2]);
    push(&mut a, 1, enc_net(&[1; 7], &[(0, 0), (2, 0), (0, 1), (4, 0), (0, 0), (2, 0)]), &[2, 1]);
    push(&mut a, 1, enc_net(&[1; 10], &[(0, 0); 9]), &[1, 1]);
    // no layers at all
    push(&mut a, 1, enc_net(&[2], &[]), &[3, 2]);
    let mut m = vec![];
    for (s, x) in [(vec![2usize, 2], vec![1usize, 3]), (vec![2, 3], vec![2, 1]), (vec![1, 2, 2], vec![1, 2]), (vec![3, 2], vec![2, 2]), (vec![2, 2], vec![3])] {
        let l: Vec<(i64, i64)> = s[1..].iter().map(|_| (0, 0)).collect();
        m.push(enc_net(&s, &l).into_iter().chain(enc(&[&x], &[])).collect());
    }
    // layers that do not fit each other: a wrong spec would need them, so only refusal is checked
    vec![
        scen!("layers", "Linear and Mlp forward passes: all weights, biases and inputs symbolic, every activation combination up to depth 3", a, layers),
        scen!("misfit", "inputs of the wrong width are refused", m, misfit),
    ]
}

// ---------------------------------------------------------------- C17
/// params: as a layer or MLP, network, batch
fn roundtrip<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let how = r.int();
    let (sizes, acts, bias) = rd_net(&mut r);
    let n = net(e, &sizes, &acts, &bias);
    let x = fresh(e, "x", &[2, sizes[0]]);
    let xc = x.rc();
    let mut m = if how == 0 { M::L(n.layer(0)) } else { n.module() };
    let list = m.params();
    if !check_params(e, "initial list", &list, &n.w, &n.b) {
        return;
    }
    // the very same tensors: gradients are visible through both
    for l in 0..acts.len() {
        let gw = fresh(e, &format!("gw{l}_"), &n.w[l].shape);
        let gb = fresh(e, &format!("gb{l}_"), &n.b[l].shape);
        list[2 * l].update_grad(gw.rc());
        n.bc[l].update_grad(gb.rc());
        same_grad(e, &format!("weights {l} through the original handle"), &n.wc[l], &gw.shape, &gw.data, &[]);
        same_grad(e, &format!("bias {l} through the list"), &list[2 * l + 1], &gb.shape, &gb.data, &[]);
    }
    // reading and writing back changes nothing
    if e.ok("write back", || m.update(list.clone())).is_none() {
        return;
    }
    let back = m.params();
    if !check_params(e, "after writing back", &back, &n.w, &n.b) {
        return;
    }
    for l in 0..acts.len() {
        for (k, t) in [(2 * l, &n.wc[l]), (2 * l + 1, &n.bc[l])] {
            let (a, b) = (back[k].grad(), t.grad());
            let b = Nd::new(b.shape(), indices(b.shape()).iter().map(|i| b[i]).collect());
            same(e, &format!("gradient of parameter {k} after writing back"), &a, &b);
        }
    }
    if let Some(y) = e.ok("forward after writing back", || m.forward(xc.clone())) {
        same(e, "output after writing back", &y, &n.spec(&x));
    }
    // replacing
    let mut nw = vec![];
    let mut nb = vec![];
    let mut repl = vec![];
    for l in 0..acts.len() {
        let w = fresh(e, &format!("nw{l}_"), &n.w[l].shape);
        let b = fresh(e, &format!("nb{l}_"), &n.b[l].shape);
        repl.extend([w.rc(), b.rc()]);
        nw.push(w);
        nb.push(b);
    }
    if e.ok("replace", || m.update(repl.clone())).is_none() {
        return;
    }
    let now = m.params();
    if !check_params(e, "after replacing", &now, &nw, &nb) {
        return;
    }
    if let Some(y) = e.ok("forward after replacing", || m.forward(xc.clone())) {
        same(e, "output after replacing", &y, &forward(&acts, &nw, &nb, &x));
    }
    // exactly those tensors, not copies
    for (k, t) in repl.iter().enumerate() {
        no_grad(e, &format!("replaced parameter {k}"), &now[k]);
        let g = fresh(e, &format!("h{k}_"), &t.shape().to_vec());
        t.update_grad(g.rc());
        same_grad(e, &format!("parameter {k} shares its gradient with the tensor put in"), &m.params()[k], &g.shape, &g.data, &[]);
    }
    // the old ones are only let go
    for l in 0..acts.len() {
        same(e, &format!("old weights {l}"), &n.wc[l], &n.w[l]);
        same(e, &format!("old bias {l}"), &n.bc[l], &n.b[l]);
    }
}

/// fields of a layer and its other accessor
fn fields<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sizes, acts, bias) = rd_net(&mut r);
    let n = net(e, &sizes, &acts, &bias);
    let mut l = n.layer(0);
    same(e, "weights field", &l.weights, &n.w[0]);
    same(e, "bias field", &l.bias, &n.b[0]);
    let it: Vec<RcTensor<T>> = Linear::params(&mut l).into_iter().collect();
    check_params(e, "params of a layer", &it, &n.w, &n.b);
    let m = net(e, &sizes, &acts, &bias);
    let _ = m;
    let nw = fresh(e, "nw", &n.w[0].shape);
    let nb = fresh(e, "nb", &n.b[0].shape);
    l.update_params(vec![nw.rc(), nb.rc()]);
    same(e, "weights field after update", &l.weights, &nw);
    same(e, "bias field after update", &l.bias, &nb);
    let it: Vec<RcTensor<T>> = Linear::params(&mut l).into_iter().collect();
    check_params(e, "params of an updated layer", &it, &[nw], &[nb]);
}

/// a network whose weights may be square, so that a swapped or shifted list still fits
fn nets(t: bool) -> Vec<(Vec<usize>, Vec<(i64, i64)>)> {
    let mut v = vec![
        (vec![1, 1], vec![(0, 0)]),
        (vec![1, 1], vec![(2, 4)]),
        (vec![2, 2], vec![(2, 1)]),
        (vec![2, 3], vec![(0, 0)]),
        (vec![1, 2], vec![(3, 0)]),
        (vec![1, 1, 1], vec![(0, 0), (2, 0)]),
        (vec![2, 2, 2], vec![(3, 1), (0, 0)]),
        (vec![2, 1, 3], vec![(4, 0), (2, 1)]),
        (vec![1, 1, 1, 1], vec![(3, 0), (4, 0), (0, 0)]),
        (vec![1, 1, 1, 1], vec![(0, 0), (2, 1), (4, 3)]),
        (vec![2, 2, 2, 2], vec![(0, 0), (4, 1), (3, 0)]),
        (vec![1, 2, 1, 2], vec![(4, 0), (0, 1), (2, 0)]),
        (vec![1, 1, 1, 1, 1], vec![(0, 0), (3, 0), (4, 0), (0, 0)]),
        // a bias with as many rows as the batch, or the shape of the weights
        (vec![1, 1], vec![(0, 5)]),
        (vec![2, 2], vec![(2, 5)]),
        (vec![1, 3], vec![(0, 6)]),
        (vec![1, 2, 1], vec![(0, 5), (2, 6)]),
        (vec![2, 2, 2], vec![(0, 6), (3, 5)]),
        (vec![1, 1, 2, 2], vec![(3, 6), (0, 0), (2, 5)]),
        (vec![3, 3], vec![(0, 0)]),
        (vec![6, 6], vec![(2, 1)]),
        (vec![9, 8], vec![(0, 0)]),
        (vec![1, 70], vec![(0, 0)]),
        (vec![70, 1], vec![(2, 0)]),
        (vec![3, 2, 4], vec![(2, 0), (0, 1)]),
        (vec![1; 7], vec![(0, 0), (3, 0), (0, 1), (4, 0), (0, 0), (2, 0)]),
        (vec![1; 12], vec![(0, 0); 11]),
        (vec![2], vec![]),
    ];
    if t {
        v.extend([
            (vec![2, 2, 2, 2, 2], vec![(3, 0), (0, 1), (4, 0), (0, 0)]),
            (vec![2, 3, 2, 3], vec![(2, 0), (4, 1), (2, 0)]),
            (vec![33, 33], vec![(0, 0)]),
            (vec![2; 9], vec![(0, 0); 8]),
        ]);
    }
    v
}

pub fn c17(t: bool) -> Vec<Scenario> {
    let mut a = vec![];
    let mut f = vec![];
    for (s, l) in nets(t) {
        let n = enc_net(&s, &l);
        if l.len() == 1 {
            a.push([0].into_iter().chain(n.clone()).collect());
            f.push(n.clone());
        }
        a.push([1].into_iter().chain(n).collect());
    }
    vec![
        scen!("roundtrip", "parameter lists of layers and MLPs up to depth 4: order, sharing, write-back, replacement; all values symbolic", a, roundtrip),
        scen!("fields", "a layer's fields against its list", f, fields),
    ]
}

// ---------------------------------------------------------------- C18
/// params: layer or MLP, gradient source (0 update_grad, 1 two updates, 2 parameters that are
/// themselves results of operations, 3 shared between layers), network
fn step<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (how, src) = (r.int(), r.int());
    let (sizes, acts, bias) = rd_net(&mut r);
    let mut n = net(e, &sizes, &acts, &bias);
    let depth = acts.len();
    let mut origin = vec![];
    if src == 2 {
        // a parameter with a history
        for l in 0..depth {
            let o = n.w[l].rc();
            n.wc[l] = -&o;
            n.w[l] = n.w[l].neg();
            origin.push(o);
        }
    }
    if src == 3 && depth > 1 {
        n.wc[1] = n.wc[0].clone();
        n.w[1] = n.w[0].clone();
    }
    let st = e.var("s");
    let sc = RcTensor::scalar(st);
    let x = fresh(e, "x", &[1, sizes[0]]);
    let xc = x.rc();
    let mut m = if how == 0 { M::L(n.layer(0)) } else { n.module() };
    let mut gw: Vec<Nd<T>> = vec![];
    let mut gb: Vec<Nd<T>> = vec![];
    for l in 0..depth {
        let mut a = fresh(e, &format!("gw{l}_"), &n.w[l].shape);
        let b = fresh(e, &format!("gb{l}_"), &n.b[l].shape);
        n.bc[l].update_grad(b.rc());
        if src == 3 && l == 1 {
            a = gw[0].clone();
        } else {
            n.wc[l].update_grad(a.rc());
        }
        if src == 1 {
            let a2 = fresh(e, &format!("gx{l}_"), &n.w[l].shape);
            n.wc[l].update_grad(a2.rc());
            a = a.add(&a2);
        }
        gw.push(a);
        gb.push(b);
    }
    if e.ok("sgd_step", || m.step(sc.clone())).is_none() {
        return;
    }
    let upd = |p: &Nd<T>, g: &Nd<T>| Nd::new(&p.shape, p.data.iter().zip(&g.data).map(|(&p, &g)| p - st * g).collect());
    let nw: Vec<Nd<T>> = (0..depth).map(|l| upd(&n.w[l], &gw[l])).collect();
    let nb: Vec<Nd<T>> = (0..depth).map(|l| upd(&n.b[l], &gb[l])).collect();
    let now = m.params();
    if !check_params(e, "after the step", &now, &nw, &nb) {
        return;
    }
    for (k, t) in now.iter().enumerate() {
        no_grad(e, &format!("new parameter {k}"), t);
    }
    for l in 0..depth {
        same(e, &format!("old weights {l}"), &n.wc[l], &n.w[l]);
        same(e, &format!("old bias {l}"), &n.bc[l], &n.b[l]);
        same_grad(e, &format!("old weights {l}"), &n.wc[l], &gw[l].shape, &gw[l].data, &[]);
        same_grad(e, &format!("old bias {l}"), &n.bc[l], &gb[l].shape, &gb[l].data, &[]);
    }
    same(e, "the step size", &sc, &Nd::new(&[], vec![st]));
    no_grad(e, "the step size", &sc);
    for o in &origin {
        no_grad(e, "what an old parameter was computed from", o);
    }
    // the module computes with the new parameters and still the same structure
    if let Some(y) = e.ok("forward after the step", || m.forward(xc.clone())) {
        same(e, "output after the step", &y, &forward(&acts, &nw, &nb, &x));
    }
    same(e, "the input", &xc, &x);
}

/// gradients that come from backward rather than from the caller
fn trained<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let how = r.int();
    let (sizes, acts, bias) = rd_net(&mut r);
    let n = net(e, &sizes, &acts, &bias);
    let st = e.var("s");
    let x = fresh(e, "x", &[2, sizes[0]]);
    let xc = x.rc();
    let u = fresh(e, "u", &[2, sizes[acts.len()]]);
    let uc = u.rc();
    let mut m = if how == 0 { M::L(n.layer(0)) } else { n.module() };
    if e.ok("forward and backward", || F::dot(&m.forward(xc.clone()), &uc).backward()).is_none() {
        return;
    }
    let read = |t: &RcTensor<T>| {
        let g = t.grad();
        Nd::new(g.shape(), indices(g.shape()).iter().map(|i| g[i]).collect())
    };
    let Some(gs) = e.ok("every parameter has a gradient", || m.params().iter().map(read).collect::<Vec<_>>()) else { return };
    if e.ok("sgd_step", || m.step(RcTensor::scalar(st))).is_none() {
        return;
    }
    let now = m.params();
    let all: Vec<&Nd<T>> = (0..acts.len()).flat_map(|l| [&n.w[l], &n.b[l]]).collect();
    e.flag("as many parameters as before", now.len() == all.len());
    for (k, (t, old)) in now.iter().zip(all).enumerate() {
        if gs[k].shape != old.shape {
            e.flag(format!("gradient {k} has the parameter's shape"), false);
            return;
        }
        let want = Nd::new(&old.shape, old.data.iter().zip(&gs[k].data).map(|(&p, &g)| p - st * g).collect());
        same(e, &format!("parameter {k}"), t, &want);
        no_grad(e, &format!("parameter {k}"), t);
    }
    same(e, "input", &xc, &x);
    same(e, "loss weights", &uc, &u);
}

pub fn c18(t: bool) -> Vec<Scenario> {
    let mut a = vec![];
    let mut b = vec![];
    for (s, l) in nets(t) {
        let n = enc_net(&s, &l);
        for src in 0..4i64 {
            if src == 1 && l.len() > 6 || src == 3 && (l.len() < 2 || s[0] != s[1] || s[1] != s[2]) {
                continue;
            }
            if l.len() == 1 {
                a.push([0, src].into_iter().chain(n.clone()).collect());
            }
            a.push([1, src].into_iter().chain(n.clone()).collect());
        }
        if l.len() == 1 {
            b.push([0].into_iter().chain(n.clone()).collect());
        }
        b.push([1].into_iter().chain(n).collect());
    }
    vec![
        scen!("step", "one SGD step on layers and MLPs: parameters, gradients and step size symbolic", a, step),
        scen!("trained", "one SGD step after a real backward pass", b, trained),
    ]
}

// ---------------------------------------------------------------- C19
/// params: rounds, loss (0 sum of absolute errors, 1 squared error through dot, 2 plain sum), fresh
/// data per round or the same, batch, network
fn training<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (rounds, lossk, again, batch) = (r.us(), r.int(), r.int() == 1, r.us());
    let (sizes, acts, bias) = rd_net(&mut r);
    let n = net(e, &sizes, &acts, &bias);
    let depth = acts.len();
    let mut m = n.module();
    let (mut w, mut b) = (n.w.clone(), n.b.clone());
    let x0 = fresh(e, "x", &[batch, sizes[0]]);
    let y0 = fresh(e, "y", &[batch, sizes[depth]]);
    let (x0c, y0c) = (x0.rc(), y0.rc());
    let mut old: Vec<(String, RcTensor<T>, Nd<T>, Vec<T>)> = vec![];
    let mut allk: Vec<T::Bool> = vec![];
    let mut tagn = 0u64;
    for k in 0..rounds {
        let (x, y, xc, yc) = if again || k == 0 {
            (x0.clone(), y0.clone(), x0c.clone(), y0c.clone())
        } else {
            let x = fresh(e, &format!("x{k}_"), &[batch, sizes[0]]);
            let y = fresh(e, &format!("y{k}_"), &[batch, sizes[depth]]);
            let (xc, yc) = (x.rc(), y.rc());
            (x, y, xc, yc)
        };
        let st = e.var(&format!("s{k}"));
        let held = m.params();
        if !check_params(e, &format!("before round {k}"), &held, &w, &b) {
            return;
        }
        // the written loss, as a function of this round's parameters
        let mut mark = |n: &Nd<T>| {
            let v = n.data.iter().map(|&q| { tagn += 1; T::tag(q, tagn) }).collect();
            Nd::new(&n.shape, v)
        };
        let tw: Vec<Nd<T>> = w.iter().map(&mut mark).collect();
        let tb: Vec<Nd<T>> = b.iter().map(&mut mark).collect();
        let out = forward(&acts, &tw, &tb, &x);
        let diff = out.sub(&y);
        let spec = match lossk {
            0 => diff.abs().sum(),
            1 => diff.dot(&diff),
            _ => out.sum(),
        };
        let wrt: Vec<T> = (0..depth).flat_map(|l| tw[l].data.iter().chain(&tb[l].data).cloned().collect::<Vec<_>>()).collect();
        let (g, kinks) = T::grads(spec, &wrt);
        allk.extend(kinks);
        // the real round
        let done = e.ok(format!("round {k}"), || {
            let res = m.forward(xc.clone());
            let d = &res - &yc;
            let loss = match lossk {
                0 => d.abs().sum(),
                1 => F::dot(&d, &d),
                _ => res.sum(),
            };
            loss.backward();
            m.step(RcTensor::scalar(st));
            *loss.get(&vec![0; loss.shape().len()]).unwrap()
        });
        let Some(l) = done else { return };
        e.gval(format!("loss of round {k}"), l, spec, &allk);
        let mut q = 0;
        for l in 0..depth {
            for (name, list, hold) in [("weights", &mut w, 2 * l), ("bias", &mut b, 2 * l + 1)] {
                let p = list[l].clone();
                let m = p.data.len();
                let gs = g[q..q + m].to_vec();
                q += m;
                list[l] = Nd::new(&p.shape, p.data.iter().zip(&gs).map(|(&p, &g)| p - st * g).collect());
                old.push((format!("round {k} {name} {l}"), held[hold].clone(), p, gs));
            }
        }
        // the parameters after this round (outside the kinks met so far)
        let now = m.params();
        e.flag("parameter count", now.len() == 2 * depth);
        if now.len() != 2 * depth {
            return;
        }
        let mut obs = vec![];
        for l in 0..depth {
            for (name, t, want) in [("weights", &now[2 * l], &mut w[l]), ("bias", &now[2 * l + 1], &mut b[l])] {
                let ok = t.shape() == &want.shape;
                e.flag(format!("round {k}: {name} {l} keeps its shape"), ok);
                if !ok {
                    return;
                }
                for (j, i) in indices(&want.shape).iter().enumerate() {
                    let got = t[i];
                    e.gval(format!("round {k}: {name} {l} {i:?}"), got, want.data[j], &allk);
                    obs.push(got);
                }
                // step by step: the next round starts from what was just shown equal
                want.data = obs.drain(..).collect();
                no_grad(e, &format!("round {k}: new {name} {l}"), t);
            }
        }
        if !again {
            xc.zero_grad();
        }
        same(e, &format!("input of round {k}"), &xc, &x);
        same(e, &format!("target of round {k}"), &yc, &y);
    }
    // tensors of earlier rounds: values as they were, gradients those of their own round only
    for (name, t, v, g) in &old {
        same(e, name, t, v);
        same_grad(e, name, t, &v.shape, g, &allk);
    }
}

pub fn c19(t: bool) -> Vec<Scenario> {
    let mut a = vec![];
    let mut push = |k: usize, l: i64, same: i64, b: usize, s: &[usize], ly: &[(i64, i64)]| {
        a.push([k as i64, l, same, b as i64].into_iter().chain(enc_net(s, ly)).collect::<Vec<i64>>())
    };
    let one: Vec<(Vec<usize>, Vec<(i64, i64)>)> = vec![
        (vec![1, 1], vec![(0, 0)]),
        (vec![1, 1], vec![(2, 1)]),
        (vec![2, 1], vec![(0, 1)]),
        (vec![1, 2], vec![(3, 0)]),
        (vec![2, 2], vec![(0, 0)]),
        (vec![2, 2], vec![(4, 1)]),
    ];
    for (s, l) in &one {
        for same in 0..2i64 {
            for rounds in 1..=3usize {
                for lossk in 0..3i64 {
                    for b in 1..=2usize {
                        let forks = if lossk == 0 { b * s[1] * rounds } else { 0 };
                        if forks > if t { 6 } else { 4 } {
                            continue;
                        }
                        push(rounds, lossk, same, b, s, l);
                    }
                }
            }
        }
    }
    for rounds in 1..=2usize {
        for same in 0..2i64 {
            push(rounds, 2, same, 1, &[1, 1], &[(1, 0)]);
            push(rounds, 1, same, 1, &[1, 1], &[(1, 0)]);
            push(rounds, 1, same, 1, &[1, 1, 1], &[(0, 0), (0, 0)]);
            push(rounds, 1, same, 1, &[1, 1, 1], &[(2, 0), (0, 0)]);
            push(rounds, 2, same, 1, &[1, 2, 1], &[(2, 0), (2, 1)]);
            push(rounds, 2, same, 2, &[2, 2, 1], &[(0, 0), (0, 1)]);
            push(rounds, 0, same, 1, &[1, 1, 1], &[(1, 0), (2, 0)]);
            push(rounds, 0, same, 1, &[2, 1, 1], &[(2, 0), (2, 1)]);
            push(rounds, 2, same, 1, &[1, 1, 1, 1], &[(0, 0), (4, 0), (2, 0)]);
        }
    }
    push(3, 2, 0, 1, &[1, 1, 1], &[(0, 0), (2, 0)]);
    push(3, 2, 1, 1, &[1, 1, 1], &[(2, 0), (0, 0)]);
    push(5, 1, 0, 1, &[1, 1], &[(0, 0)]);
    push(5, 2, 1, 1, &[1, 1], &[(2, 0)]);
    push(1, 2, 0, 5, &[4, 3], &[(2, 0)]);
    push(1, 1, 0, 9, &[2, 2], &[(0, 0)]);
    push(1, 2, 0, 2, &[9, 8], &[(0, 0)]);
    push(2, 2, 0, 2, &[2, 3, 2], &[(2, 0), (0, 1)]);
    push(1, 2, 0, 1, &[1; 6], &[(0, 0), (2, 0), (0, 0), (2, 0), (0, 0)]);
    if t {
        for same in 0..2i64 {
            push(4, 2, same, 1, &[1, 1], &[(0, 0)]);
            push(4, 1, same, 1, &[1, 1], &[(0, 0)]);
            push(5, 2, same, 1, &[2, 2], &[(0, 0)]);
            push(1, 1, same, 2, &[2, 3, 2], &[(2, 0), (0, 1)]);
            push(2, 0, same, 1, &[1, 2, 1], &[(1, 0), (2, 0)]);
            push(3, 2, same, 1, &[1, 1, 1, 1], &[(0, 0), (2, 0), (4, 0)]);
            push(1, 2, same, 5, &[7, 6], &[(2, 0)]);
        }
    }
    let mut s = scen!("training", "whole training histories: parameters, data, targets and step sizes of every round symbolic; spec gradient by differentiating the written loss", a, training);
    s.max_paths = 400;
    vec![s]
}
