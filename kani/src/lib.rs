//! Bit-precise harnesses: machine integers, the library as compiled by Kani, symbolic shapes and indices.
//! The bodies are shared with the native replay (src/main.rs), which feeds them a counterexample's values.
#![allow(dead_code)]
use rust_light::tensor::*;

#[cfg(kani)]
mod src {
    pub fn any() -> usize {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    macro_rules! seen {
        ($b:expr, $what:literal) => {
            kani::cover!($b, $what)
        };
    }
    pub(crate) use seen;
}
#[cfg(not(kani))]
mod src {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(pub static VALUES: RefCell<VecDeque<usize>> = RefCell::new(VecDeque::new()));
    pub const OUTSIDE: &str = "outside the assumptions";
    pub fn any() -> usize {
        match VALUES.with(|v| v.borrow_mut().pop_front()) {
            Some(x) => x,
            None => panic!("{}", OUTSIDE),
        }
    }
    pub fn assume(b: bool) {
        if !b {
            panic!("{}", OUTSIDE)
        }
    }
    macro_rules! seen {
        ($b:expr, $what:literal) => {
            let _ = ($b, $what);
        };
    }
    pub(crate) use seen;
}
#[cfg(not(kani))]
pub use src::{OUTSIDE, VALUES};
use src::{any, assume, seen};

fn anys<const R: usize>() -> [usize; R] {
    let mut a = [0; R];
    for x in a.iter_mut() {
        *x = any();
    }
    a
}

/// n distinct elements (at most N): position i holds i.
fn numbered<const N: usize>(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(N);
    for i in 0..N {
        v.push(i as u8);
    }
    v.truncate(n);
    v
}

/// a shape of rank R with every dimension in lo..=hi and at most N elements, and its number of elements
fn shape<const R: usize>(lo: usize, hi: usize, most: usize) -> ([usize; R], usize) {
    let d: [usize; R] = anys();
    let mut n = 1;
    for x in d {
        assume(x >= lo && x <= hi);
        n *= x;
    }
    assume(n <= most);
    (d, n)
}

/// what a lookup at `i` in shape `d` gives: None is an error, otherwise the position
fn position(d: &[usize], i: &[usize]) -> Option<usize> {
    let mut p = 0;
    for k in 0..d.len() {
        let c = if d[k] == 1 { 0 } else { i[k] };
        if c >= d[k] {
            return None;
        }
        p = p * d[k] + c;
    }
    Some(p)
}

// ---------------------------------------------------------------- C01
fn access<const R: usize, const N: usize>(hi: usize) {
    let (d, n) = shape::<R>(1, hi, N);
    let t = RawTensor::new(numbered::<N>(n), d.to_vec());
    let i: [usize; R] = anys();
    let got = t.get(&i.to_vec());
    let want = position(&d, &i);
    match want {
        Some(p) => assert!(*got.unwrap() as usize == p, "row-major element"),
        None => assert!(got.is_err(), "outside is an error"),
    }
    seen!(matches!(want, Some(p) if p > 0), "an inner element");
    seen!(want.is_none(), "an index outside");
    std::mem::forget(t);
}
/// an index one component short or with one extra leading component
fn access_length<const R: usize, const N: usize>(hi: usize) {
    let (d, n) = shape::<R>(1, hi, N);
    let t = RawTensor::new(numbered::<N>(n), d.to_vec());
    let i: [usize; R] = anys();
    let x = any();
    let mut long = vec![x];
    long.extend_from_slice(&i);
    match position(&d, &i) {
        Some(p) => assert!(*t.get(&long).unwrap() as usize == p, "extra leading components are ignored"),
        None => assert!(t.get(&long).is_err(), "outside is an error"),
    }
    let short = i[1..].to_vec();
    let got = t.get(&short);
    let want = if d[0] == 1 { position(&d[1..], &i[1..]) } else { None };
    match want {
        Some(p) => assert!(*got.unwrap() as usize == p, "only size-one dimensions left out"),
        None => assert!(got.is_err(), "too short is an error"),
    }
    seen!(want.is_some(), "a short index accepted");
    seen!(want.is_none(), "a short index refused");
    std::mem::forget(t);
}

// ---------------------------------------------------------------- C03
fn slice_access<const R: usize, const N: usize>(hi: usize) {
    let (d, n) = shape::<R>(1, hi, N);
    let t = RcTensor::new(numbered::<N>(n), d.to_vec());
    let (lo, up): ([usize; R], [usize; R]) = (anys(), anys());
    let mut r = Vec::with_capacity(R);
    let mut e = [0; R];
    for k in 0..R {
        assume(lo[k] <= up[k] && up[k] <= d[k]);
        r.push(SliceRange::new(lo[k], up[k]));
        e[k] = up[k] - lo[k];
    }
    let v = t.slice(r);
    for k in 0..R {
        assert!(v.shape()[k] == e[k], "extent");
    }
    let i: [usize; R] = anys();
    let got = v.get(&i.to_vec());
    let mut p = Some(0);
    for k in 0..R {
        let c = if e[k] == 1 { 0 } else { i[k] };
        p = match p {
            Some(q) if c < e[k] => Some(q * d[k] + lo[k] + c),
            _ => None,
        };
    }
    match p {
        Some(p) => assert!(*got.unwrap() as usize == p, "element of the window"),
        None => assert!(got.is_err(), "outside is an error"),
    }
    seen!(matches!(p, Some(q) if q > 1), "an inner element");
    seen!(p.is_none(), "an index outside");
    std::mem::forget(v);
    std::mem::forget(t);
}
fn slice_of_slice<const N: usize>() {
    let n = any();
    assume(n <= N);
    let t = RcTensor::new(numbered::<N>(n), vec![n]);
    let (a, b, c, d) = (any(), any(), any(), any());
    assume(a <= b && b <= n && c <= d && d <= b - a);
    let v = t.slice(vec![SliceRange::new(a, b)]);
    let w = v.slice(vec![SliceRange::new(c, d)]);
    assert!(w.shape()[0] == d - c, "extent");
    let i = any();
    let got = w.get(&vec![i]);
    let k = if d - c == 1 { 0 } else { i };
    if k < d - c {
        assert!(*got.unwrap() as usize == a + c + k, "element of the inner window");
    } else {
        assert!(got.is_err(), "outside is an error");
    }
    seen!(k < d - c && a > 0 && c > 0 && k > 0, "an inner element");
    std::mem::forget((t, v, w));
}
/// a range that leaves the tensor, or runs backwards, is refused whatever its magnitude
fn slice_refused<const R: usize, const N: usize>(hi: usize) {
    let (d, n) = shape::<R>(1, hi, N);
    let t = RcTensor::new(numbered::<N>(n), d.to_vec());
    let (lo, up): ([usize; R], [usize; R]) = (anys(), anys());
    let mut bad = false;
    let mut r = Vec::with_capacity(R);
    for k in 0..R {
        bad |= lo[k] > up[k] || up[k] > d[k];
        r.push(SliceRange::new(lo[k], up[k]));
    }
    assume(bad);
    let v = t.slice(r);
    seen!(true, "RETURNED");
    std::mem::forget(v);
    std::mem::forget(t);
}

// ---------------------------------------------------------------- C02
/// is the exact product of the dimensions n? (wide factors; at most three of them)
fn product_is(n: usize, d: &[usize]) -> bool {
    let mut p: u128 = 1;
    for &x in d {
        if p > u64::MAX as u128 {
            // too large unless a later dimension is zero
            return n == 0 && d.contains(&0);
        }
        p *= x as u128;
    }
    p == n as u128
}
/// dimensions of every magnitude: three significant bits anywhere in the word
fn wide<const R: usize>() -> [usize; R] {
    let mut d = [0usize; R];
    for x in d.iter_mut() {
        let m = any();
        let s = any();
        assume(m <= 7 && s <= 61);
        *x = m << s;
    }
    d
}
fn accepted<const R: usize>() {
    let n = any();
    assume(n <= 8);
    let d = wide::<R>();
    // an overflowing prefix before a zero dimension is out of scope: it may be refused
    assume(product_is(n, &d) && (R < 3 || (d[0] as u128) * (d[1] as u128) <= u64::MAX as u128));
    let t = RawTensor::new(numbered::<8>(n), d.to_vec());
    assert!(t.count() == n, "count");
    for k in 0..R {
        assert!(t.shape()[k] == d[k], "shape");
    }
    seen!(n > 1, "several elements");
    std::mem::forget(t);
}
fn refused<const R: usize>() {
    let n = any();
    assume(n <= 8);
    let d = wide::<R>();
    assume(!product_is(n, &d));
    let t = RawTensor::new(numbered::<8>(n), d.to_vec());
    seen!(true, "RETURNED");
    std::mem::forget(t);
}

// ---------------------------------------------------------------- C22
fn iterate<const R: usize, const N: usize>(hi: usize) {
    let (d, n) = shape::<R>(0, hi, N);
    let t = RawTensor::new(numbered::<N>(n), d.to_vec());
    let mut it = t.iter_indices();
    let mut want = [0usize; R];
    for _ in 0..n {
        let got = it.next().unwrap();
        assert!(got.len() == R, "rank");
        for k in 0..R {
            assert!(got[k] == want[k], "row-major order");
        }
        // successor in row-major order
        let mut k = R;
        while k > 0 {
            k -= 1;
            want[k] += 1;
            if want[k] < d[k] {
                break;
            }
            want[k] = 0;
        }
        std::mem::forget(got);
    }
    assert!(it.next().is_none(), "stops");
    assert!(it.next().is_none(), "stays stopped");
    seen!(n > 3, "several indices");
    seen!(n == 0, "none");
    std::mem::forget(t);
}

// ---------------------------------------------------------------- C21
fn equal<const P: usize, const Q: usize, const N: usize>(hi: usize) {
    let (d, n) = shape::<P>(0, hi, N);
    let (e, m) = shape::<Q>(0, hi, N);
    let (mut x, mut y): (Vec<u8>, Vec<u8>) = (Vec::with_capacity(N), Vec::with_capacity(N));
    for _ in 0..N {
        let (p, q) = (any(), any());
        assume(p <= 255 && q <= 255);
        x.push(p as u8);
        y.push(q as u8);
    }
    x.truncate(n);
    y.truncate(m);
    let mut same = P == Q && n == m;
    for k in 0..P {
        same = same && d[k] == e[if k < Q { k } else { 0 }];
    }
    for k in 0..N {
        same = same && (k >= n || x[k] == y[k]);
    }
    let a = RawTensor::new(x, d.to_vec());
    let b = RawTensor::new(y, e.to_vec());
    assert!((a == b) == same, "equal exactly when shapes and elements agree");
    assert!((b == a) == same, "symmetric");
    seen!(same && n > 1, "equal tensors");
    seen!(!same && n == m && n > 1, "different tensors with the same number of elements");
    std::mem::forget((a, b));
}

// ---------------------------------------------------------------- C25
/// a tensor of rank P against any shape of rank Q, whose dimensions are any machine words
fn broadcasts<const P: usize, const Q: usize>(hi: usize) {
    let (d, n) = shape::<P>(0, hi, 12);
    let t = RawTensor::new(numbered::<12>(n), d.to_vec());
    let b: [usize; Q] = anys();
    let mut want = true;
    for k in 1..=(if P < Q { P } else { Q }) {
        let (x, y) = (d[P - k], b[Q - k]);
        want = want && (x == y || x == 1 || y == 1);
    }
    assert!(t.broadcastable(&b.to_vec()) == want, "broadcastable exactly when each trailing pair is equal or has a one");
    seen!(want, "compatible");
    seen!(!want, "incompatible");
    std::mem::forget(t);
}
fn shape_queries<const P: usize, const Q: usize>(hi: usize) {
    let (d, n) = shape::<P>(0, hi, 12);
    let (e, m) = shape::<Q>(0, hi, 12);
    let a = RawTensor::new(numbered::<12>(n), d.to_vec());
    let b = RawTensor::new(numbered::<12>(m), e.to_vec());
    let mut same = P == Q;
    for k in 0..P {
        same = same && d[k] == e[if k < Q { k } else { 0 }];
    }
    assert!(a.same_shape(&&b) == same, "same_shape exactly when the shapes agree");
    assert!(a.count() == n, "count");
    assert!(a.is_scalar() == (P == 0), "is_scalar exactly at rank 0");
    if n > 0 {
        assert!(*a.get_first_elem() == 0, "the first element");
    }
    seen!(same == (P == Q), "same shape, where possible");
    seen!(!same, "different shapes");
    std::mem::forget((a, b));
}
fn range_accepted() {
    let (a, b) = (any(), any());
    assume(a <= b);
    let r = SliceRange::new(a, b);
    assert!(r == r.clone(), "equal to itself");
    seen!(a < b, "a range");
}
fn range_refused() {
    let (a, b) = (any(), any());
    assume(a > b);
    let r = SliceRange::new(a, b);
    seen!(true, "RETURNED");
    std::mem::forget(r);
}

/// Every harness: name, unwinding bound, whether the library has to refuse, body.
macro_rules! harnesses {
    ($($name:ident, $unwind:literal, $refuse:tt, $body:expr;)*) => {
        $(harnesses!(@one $name, $unwind, $refuse, $body);)*
        /// (name, the library has to refuse, body)
        pub const ALL: &[(&str, bool, fn())] = &[$((stringify!($name), $refuse, || { $body })),*];
    };
    (@one $name:ident, $unwind:literal, true, $body:expr) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::should_panic]
        #[kani::unwind($unwind)]
        #[kani::stub(std::fmt::format, no_text)]
        fn $name() { $body }
    };
    (@one $name:ident, $unwind:literal, false, $body:expr) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(std::fmt::format, no_text)]
        fn $name() { $body }
    };
}
fn no_text(_a: core::fmt::Arguments<'_>) -> String {
    String::new()
}

harnesses! {
    c01_get_rank1, 18, false, access::<1, 16>(16);
    c01_get_rank2, 18, false, access::<2, 16>(16);
    c01_get_rank3, 18, false, access::<3, 16>(16);
    c01_get_rank4, 26, false, access::<4, 24>(8);
    c01_get_rank2_deep, 50, false, access::<2, 48>(48);
    c01_get_rank3_deep, 50, false, access::<3, 48>(48);
    c01_get_rank5_deep, 50, false, access::<5, 48>(48);
    c01_length_rank1, 14, false, access_length::<1, 12>(12);
    c01_length_rank2, 14, false, access_length::<2, 12>(12);
    c01_length_rank3, 14, false, access_length::<3, 12>(12);
    c02_accepted_rank1, 10, false, accepted::<1>();
    c02_accepted_rank2, 10, false, accepted::<2>();
    c02_accepted_rank3, 10, false, accepted::<3>();
    c02_refused_rank1, 10, true, refused::<1>();
    c02_refused_rank2, 10, true, refused::<2>();
    c02_refused_rank3, 10, true, refused::<3>();
    c03_slice_rank1, 14, false, slice_access::<1, 12>(12);
    c03_slice_rank2, 10, false, slice_access::<2, 8>(8);
    c03_slice_rank3, 10, false, slice_access::<3, 8>(8);
    c03_slice_rank2_deep, 26, false, slice_access::<2, 24>(24);
    c03_slice_rank3_deep, 26, false, slice_access::<3, 24>(24);
    c03_slice_rank4_deep, 26, false, slice_access::<4, 24>(24);
    c03_slice_of_slice, 10, false, slice_of_slice::<8>();
    c03_slice_of_slice_deep, 18, false, slice_of_slice::<16>();
    c03_refused_rank1, 10, true, slice_refused::<1, 8>(8);
    c03_refused_rank2, 10, true, slice_refused::<2, 8>(8);
    c21_equal_1_1, 34, false, equal::<1, 1, 6>(6);
    c21_equal_2_1, 34, false, equal::<2, 1, 6>(6);
    c21_equal_2_2, 34, false, equal::<2, 2, 6>(6);
    c21_equal_3_3, 34, false, equal::<3, 3, 8>(8);
    c21_equal_3_2, 34, false, equal::<3, 2, 8>(8);
    c25_broadcasts_1_1, 14, false, broadcasts::<1, 1>(12);
    c25_broadcasts_2_1, 14, false, broadcasts::<2, 1>(12);
    c25_broadcasts_2_2, 14, false, broadcasts::<2, 2>(12);
    c25_broadcasts_1_3, 14, false, broadcasts::<1, 3>(12);
    c25_broadcasts_3_2, 14, false, broadcasts::<3, 2>(12);
    c25_broadcasts_3_3, 14, false, broadcasts::<3, 3>(12);
    c25_broadcasts_4_4, 14, false, broadcasts::<4, 4>(12);
    c25_broadcasts_4_5, 14, false, broadcasts::<4, 5>(12);
    c25_shapes_1_1, 14, false, shape_queries::<1, 1>(12);
    c25_shapes_2_2, 20, false, shape_queries::<2, 2>(12);
    c25_shapes_2_1, 14, false, shape_queries::<2, 1>(12);
    c25_shapes_0_1, 14, false, shape_queries::<0, 1>(12);
    c25_shapes_3_3, 28, false, shape_queries::<3, 3>(12);
    c25_range, 4, false, range_accepted();
    c25_refused_range, 4, true, range_refused();
    c22_iterate_rank1, 9, false, iterate::<1, 6>(6);
    c22_iterate_rank2, 9, false, iterate::<2, 6>(6);
    c22_iterate_rank3, 9, false, iterate::<3, 6>(6);
    c22_iterate_rank2_deep, 15, false, iterate::<2, 12>(12);
    c22_iterate_rank3_deep, 15, false, iterate::<3, 12>(12);
    c22_iterate_rank4_deep, 15, false, iterate::<4, 12>(12);
}
