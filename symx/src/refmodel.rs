//! Independent reference model: an n-dimensional array in row-major order and the textbook
//! definitions of the operations. Nothing here calls the library except the builders at the end.
use crate::env::*;
use rust_light::tensor::*;
use std::ops::{Add, Sub};

#[derive(Clone, Debug)]
pub struct Nd<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>,
}

pub fn size(shape: &[usize]) -> usize {
    shape.iter().product()
}

/// all indices of a shape in row-major order
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &d in shape {
        let mut next = vec![];
        for p in &out {
            for i in 0..d {
                let mut q: Vec<usize> = p.clone();
                q.push(i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

pub fn flat(shape: &[usize], idx: &[usize]) -> usize {
    let mut r = 0;
    for (d, i) in shape.iter().zip(idx) {
        assert!(i < d);
        r = r * d + i;
    }
    r
}

/// numpy's broadcast of two shapes
pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut r = vec![0; n];
    for k in 0..n {
        // k counts from the right
        let x = if k < a.len() { a[a.len() - 1 - k] } else { 1 };
        let y = if k < b.len() { b[b.len() - 1 - k] } else { 1 };
        r[n - 1 - k] = if x == y {
            x
        } else if x == 1 {
            y
        } else if y == 1 {
            x
        } else {
            return None;
        };
    }
    Some(r)
}

impl<T: Elem> Nd<T> {
    pub fn new(shape: &[usize], data: Vec<T>) -> Nd<T> {
        assert_eq!(size(shape), data.len(), "reference model: size");
        Nd {
            shape: shape.to_vec(),
            data,
        }
    }
    pub fn from_fn(shape: &[usize], mut f: impl FnMut(&[usize]) -> T) -> Nd<T> {
        Nd::new(shape, indices(shape).iter().map(|i| f(i)).collect())
    }
    pub fn fill(shape: &[usize], v: T) -> Nd<T> {
        Nd::new(shape, vec![v; size(shape)])
    }
    pub fn at(&self, idx: &[usize]) -> T {
        self.data[flat(&self.shape, idx)]
    }
    /// element at the (possibly longer) index of a broadcast result
    pub fn at_b(&self, idx: &[usize]) -> T {
        let k = idx.len() - self.shape.len();
        let i: Vec<usize> = self
            .shape
            .iter()
            .zip(&idx[k..])
            .map(|(&d, &i)| if d == 1 { 0 } else { i })
            .collect();
        self.at(&i)
    }
    pub fn map(&self, f: impl Fn(T) -> T) -> Nd<T> {
        Nd::new(&self.shape, self.data.iter().map(|&x| f(x)).collect())
    }
    pub fn zip(&self, o: &Nd<T>, f: impl Fn(T, T) -> T) -> Nd<T> {
        let s = bshape(&self.shape, &o.shape).expect("reference model: shapes");
        Nd::from_fn(&s, |i| f(self.at_b(i), o.at_b(i)))
    }
    pub fn add(&self, o: &Nd<T>) -> Nd<T> {
        self.zip(o, |a, b| a + b)
    }
    pub fn sub(&self, o: &Nd<T>) -> Nd<T> {
        self.zip(o, |a, b| a - b)
    }
    pub fn neg(&self) -> Nd<T> {
        self.map(|a| -a)
    }
    pub fn relu(&self) -> Nd<T> {
        self.map(relu_e)
    }
    pub fn abs(&self) -> Nd<T> {
        self.map(abs_e)
    }
    pub fn tanh(&self) -> Nd<T> {
        self.map(|a| a.tanh())
    }
    pub fn window(&self, r: &[(usize, usize)]) -> Nd<T> {
        let s: Vec<usize> = r.iter().map(|x| x.1 - x.0).collect();
        Nd::from_fn(&s, |i| {
            let j: Vec<usize> = i.iter().zip(r).map(|(i, r)| i + r.0).collect();
            self.at(&j)
        })
    }
    pub fn reshape(&self, s: &[usize]) -> Nd<T> {
        Nd::new(s, self.data.clone())
    }
    pub fn sum(&self) -> T {
        self.data.iter().fold(T::k(0), |a, &b| a + b)
    }
    pub fn dot(&self, o: &Nd<T>) -> T {
        self.data
            .iter()
            .zip(&o.data)
            .fold(T::k(0), |a, (&x, &y)| a + x * y)
    }
    pub fn matmul(&self, o: &Nd<T>) -> Nd<T> {
        let r = self.shape.len();
        let kk = self.shape[r - 1];
        assert_eq!(kk, o.shape[0]);
        let mut s = self.shape.clone();
        s[r - 1] = o.shape[1];
        Nd::from_fn(&s, |i| {
            let mut acc = T::k(0);
            for k in 0..kk {
                let mut li = i.to_vec();
                let j = li[r - 1];
                li[r - 1] = k;
                acc = acc + self.at(&li) * o.at(&[k, j]);
            }
            acc
        })
    }
    pub fn rc(&self) -> RcTensor<T> {
        RcTensor::new(self.data.clone(), self.shape.clone())
    }
    pub fn raw(&self) -> RawTensor<T> {
        RawTensor::new(self.data.clone(), self.shape.clone())
    }
}

pub fn relu_e<T: Elem>(a: T) -> T {
    T::ite_lt(a, T::k(0), T::k(0), a)
}
pub fn abs_e<T: Elem>(a: T) -> T {
    T::ite_lt(a, T::k(0), -a, a)
}
#[allow(unused)]
pub fn lin<T: Elem>(a: T, b: T) -> T
where
    T: Add<Output = T> + Sub<Output = T>,
{
    a + b
}

// ------------------------------------------------------------------ builders and readers
pub fn ranges(r: &[(usize, usize)]) -> Vec<SliceRange> {
    r.iter().map(|x| SliceRange::new(x.0, x.1)).collect()
}

/// a tensor of fresh symbolic elements
pub fn fresh<T: Elem>(e: &mut Env<T>, name: &str, shape: &[usize]) -> Nd<T> {
    let d = e.vars(name, size(shape));
    Nd::new(shape, d)
}

/// a slice of the given shape out of a larger tensor, with `lo`/`hi` unselected positions before and
/// after the window in each dimension; every element of the larger tensor is symbolic
pub fn fresh_view<T: Elem>(
    e: &mut Env<T>,
    name: &str,
    shape: &[usize],
    lo: usize,
    hi: usize,
) -> (RcTensor<T>, TensorView<T>, Nd<T>) {
    fresh_view_m(e, name, shape, &vec![(lo, hi); shape.len()])
}
/// the same with margins of its own for each dimension
pub fn fresh_view_m<T: Elem>(
    e: &mut Env<T>,
    name: &str,
    shape: &[usize],
    m: &[(usize, usize)],
) -> (RcTensor<T>, TensorView<T>, Nd<T>) {
    let bs: Vec<usize> = shape.iter().zip(m).map(|(d, m)| d + m.0 + m.1).collect();
    let base = fresh(e, name, &bs);
    let r: Vec<(usize, usize)> = shape.iter().zip(m).map(|(d, m)| (m.0, m.0 + d)).collect();
    let rc = base.rc();
    let v = rc.slice(ranges(&r));
    (rc, v, base.window(&r))
}
/// margins for slices of a rank: the uniform ones given, then strict in one dimension only (either
/// side), then strict in all dimensions but one
pub fn margins(rank: usize, uniform: &[(usize, usize)]) -> Vec<Vec<(usize, usize)>> {
    let mut out: Vec<Vec<(usize, usize)>> = uniform.iter().map(|&m| vec![m; rank]).collect();
    if rank > 1 {
        for d in 0..rank {
            for m in [(0, 1), (1, 0)] {
                let mut v = vec![(0, 0); rank];
                v[d] = m;
                out.push(v);
            }
            if rank > 2 {
                let mut v = vec![(1, 1); rank];
                v[d] = (0, 0);
                out.push(v);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
pub fn swapped(m: &[(usize, usize)]) -> Vec<(usize, usize)> {
    m.iter().map(|x| (x.1, x.0)).collect()
}

/// shape, count and every element
pub fn same<T: Elem, V: TensorLike<Elem = T>>(e: &mut Env<T>, label: &str, got: &V, want: &Nd<T>) {
    let s: Vec<usize> = got.shape().to_vec();
    e.flag(
        format!("{label}: shape is {:?}", want.shape),
        s == want.shape,
    );
    e.flag(
        format!("{label}: count is {}", want.data.len()),
        got.count() == want.data.len(),
    );
    if s != want.shape {
        return;
    }
    for i in indices(&want.shape) {
        match catch(|| got.get(&i).map(|v| *v)) {
            Some(Ok(v)) => e.val(format!("{label}{i:?}"), v, want.at(&i)),
            _ => e.flag(format!("{label}{i:?} is readable"), false),
        }
    }
}

/// like `same`, for a gradient: values are compared outside the kinks
pub fn same_grad<T: Elem>(
    e: &mut Env<T>,
    label: &str,
    of: &RcTensor<T>,
    shape: &[usize],
    want: &[T],
    kinks: &[T::Bool],
) {
    let g = match catch(|| of.grad()) {
        Some(g) => g,
        None => {
            e.flag(format!("{label}: has a gradient"), false);
            return;
        }
    };
    let s: Vec<usize> = g.shape().to_vec();
    e.flag(
        format!("{label}: gradient has shape {shape:?}"),
        s == shape && g.count() == want.len(),
    );
    if s != shape || g.count() != want.len() {
        return;
    }
    for (k, i) in indices(shape).into_iter().enumerate() {
        match catch(|| *g.get(&i).unwrap()) {
            Some(v) => e.gval(format!("{label}.grad{i:?}"), v, want[k], kinks),
            None => e.flag(format!("{label}.grad{i:?} is readable"), false),
        }
    }
}

pub fn no_grad<T: Elem>(e: &mut Env<T>, label: &str, of: &RcTensor<T>) {
    let r = catch(|| of.grad()).is_none();
    e.flag(format!("{label} has no gradient"), r);
}

// ------------------------------------------------------------------ parameter encoding
pub fn enc(shapes: &[&[usize]], extra: &[i64]) -> Vec<i64> {
    let mut v = vec![];
    for s in shapes {
        v.push(s.len() as i64);
        v.extend(s.iter().map(|&d| d as i64));
    }
    v.extend_from_slice(extra);
    v
}
pub struct Rd<'a>(pub &'a [i64]);
impl<'a> Rd<'a> {
    pub fn shape(&mut self) -> Vec<usize> {
        let n = self.0[0] as usize;
        let s = self.0[1..=n].iter().map(|&d| d as usize).collect();
        self.0 = &self.0[n + 1..];
        s
    }
    pub fn int(&mut self) -> i64 {
        let v = self.0[0];
        self.0 = &self.0[1..];
        v
    }
    pub fn us(&mut self) -> usize {
        self.int() as usize
    }
    pub fn more(&self) -> bool {
        !self.0.is_empty()
    }
}

/// all shapes of ranks `lo..=hi` with dimensions from `dims`
pub fn shapes(lo: usize, hi: usize, dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for r in lo..=hi {
        let mut cur: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..r {
            cur = cur
                .into_iter()
                .flat_map(|p| {
                    dims.iter().map(move |&d| {
                        let mut q = p.clone();
                        q.push(d);
                        q
                    })
                })
                .collect();
        }
        out.extend(cur);
    }
    out
}
