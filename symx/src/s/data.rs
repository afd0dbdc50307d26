//! C01–C09, C21–C23: values of tensors, slices and forward operations.
use crate::engine::Scenario;
use crate::env::*;
use crate::refmodel::*;
use crate::scen;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

// ---------------------------------------------------------------- C01
/// what the documentation says a lookup does
fn expected_flat(shape: &[usize], idx: &[usize]) -> Option<usize> {
    let (r, n) = (shape.len(), idx.len());
    if n < r && shape[..r - n].iter().any(|&d| d != 1) {
        return None;
    }
    let mut f = 0;
    for d in 0..r {
        // position of dimension d counted from the right
        let from_right = r - d;
        let i = if shape[d] == 1 || from_right > n {
            0
        } else {
            idx[n - from_right]
        };
        if i >= shape[d] {
            return None;
        }
        f = f * shape[d] + i;
    }
    Some(f)
}

fn index_pool(shape: &[usize], len: usize, wide: bool) -> Vec<Vec<usize>> {
    let r = shape.len();
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for k in 0..len {
        let from_right = len - k;
        let c: Vec<usize> = if from_right > r {
            vec![0, 5, usize::MAX]
        } else {
            let d = shape[r - from_right];
            let mut c: Vec<usize> = (0..=d).collect();
            if wide {
                c.push(d + 1);
            }
            c.push(usize::MAX);
            c
        };
        out = out
            .into_iter()
            .flat_map(|p| {
                c.iter()
                    .map(|&i| {
                        let mut q = p.clone();
                        q.push(i);
                        q
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

fn look<T: Elem>(e: &mut Env<T>, what: &str, idx: &[usize], got: Option<Result<T, String>>, want: Option<T>) {
    match (got, want) {
        (Some(Ok(v)), Some(w)) => e.val(format!("{what}.get({idx:?})"), v, w),
        (Some(Err(_)), None) => e.flag(format!("{what}.get({idx:?}) is an error"), true),
        (g, w) => e.flag(
            format!(
                "{what}.get({idx:?}): expected {}, {}",
                if w.is_some() { "an element" } else { "an error" },
                match g {
                    None => "it panicked",
                    Some(Ok(_)) => "got an element",
                    Some(Err(_)) => "got an error",
                }
            ),
            false,
        ),
    }
}

fn access<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    let (rc, raw) = (n.rc(), n.raw());
    for len in 0..=shape.len() + 1 {
        for idx in index_pool(&shape, len, true) {
            let want = expected_flat(&shape, &idx).map(|f| n.data[f]);
            look(e, "rc", &idx, catch(|| TensorLike::get(&rc, &idx).map(|v| *v)), want);
            look(e, "raw", &idx, catch(|| TensorLike::get(&raw, &idx).map(|v| *v)), want);
            let ix = catch(|| raw[&idx]);
            match (ix, want) {
                (Some(v), Some(w)) => e.val(format!("raw[{idx:?}]"), v, w),
                (None, None) => {}
                _ => e.flag(format!("raw[{idx:?}] agrees with get"), false),
            }
            let ix = catch(|| rc[&idx]);
            match (ix, want) {
                (Some(v), Some(w)) => e.val(format!("rc[{idx:?}]"), v, w),
                (None, None) => {}
                _ => e.flag(format!("rc[{idx:?}] agrees with get"), false),
            }
        }
    }
    if size(&shape) > 0 {
        if let Some(v) = e.ok("get_first_elem", || *rc.get_first_elem()) {
            e.val("first element", v, n.data[0]);
        }
        if let Some(v) = e.ok("get_first_elem of a raw tensor", || *raw.get_first_elem()) {
            e.val("first element of a raw tensor", v, n.data[0]);
        }
    }
    if shape.is_empty() {
        if let Some(v) = e.ok("elem", || rc.elem()) {
            e.val("elem", v, n.data[0]);
        }
    }
}

/// the same for slices: the slice's own extents decide
fn access_view<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let m: Vec<(usize, usize)> = shape.iter().map(|_| (r.us(), r.us())).collect();
    let (_b, v, n) = fresh_view_m(e, "x", &shape, &m);
    for len in 0..=shape.len() + 1 {
        for idx in index_pool(&shape, len, false) {
            let want = expected_flat(&shape, &idx).map(|f| n.data[f]);
            look(e, "slice", &idx, catch(|| v.get(&idx).map(|v| *v)), want);
            let ix = catch(|| v[&idx]);
            match (ix, want) {
                (Some(v), Some(w)) => e.val(format!("slice[{idx:?}]"), v, w),
                (None, None) => {}
                _ => e.flag(format!("slice[{idx:?}] agrees with get"), false),
            }
        }
    }
}

pub fn c01(t: bool) -> Vec<Scenario> {
    let mut a: Vec<Vec<i64>> = shapes(0, 2, &[0, 1, 2, 3]).iter().map(|s| enc(&[s], &[])).collect();
    a.extend(shapes(3, 3, &[1, 2, 3]).iter().map(|s| enc(&[s], &[])));
    a.extend([vec![2usize, 1, 3, 2], vec![1, 2, 1, 3], vec![5, 7], vec![4, 5, 3], vec![11], vec![130]].iter().map(|s| enc(&[s], &[])));
    a.extend(shapes(4, 4, &[1, 2]).iter().map(|s| enc(&[s], &[])));
    a.extend([vec![2usize, 1, 2, 1, 2], vec![1, 2, 2, 1, 2], vec![2, 2, 1, 2, 2], vec![17, 19], vec![2, 33], vec![65, 2]].iter().map(|s| enc(&[s], &[])));
    a.extend(shapes(3, 3, &[0, 1, 2]).iter().filter(|s| s.contains(&0)).map(|s| enc(&[s], &[])));
    if t {
        a.extend(shapes(4, 4, &[1, 2, 3]).iter().map(|s| enc(&[s], &[])));
        a.extend(shapes(5, 5, &[1, 2]).iter().map(|s| enc(&[s], &[])));
        a.extend([vec![6usize, 5, 4], vec![1030], vec![33, 34]].iter().map(|s| enc(&[s], &[])));
    }
    let mut b = vec![];
    let deep = if t { shapes(4, 4, &[1, 2]) } else { vec![vec![2, 1, 1, 2]] };
    for s in shapes(1, 2, &[0, 1, 2, 3]).iter().chain(shapes(3, 3, &[1, 2]).iter()).chain(&deep) {
        for m in margins(s.len(), &[(0, 1), (1, 0), (1, 1), (2, 1)]) {
            b.push(enc(&[s], &m.iter().flat_map(|x| [x.0 as i64, x.1 as i64]).collect::<Vec<_>>()));
        }
    }
    vec![
        scen!("access", "every index over the stated pool on tensors, element values symbolic", a, access),
        scen!("access_view", "every index over the stated pool on strict sub-windows, element values symbolic", b, access_view),
    ]
}

// ---------------------------------------------------------------- C02
fn construct<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    if let Some(x) = e.ok("RcTensor::new", || n.rc()) {
        same(e, "RcTensor::new", &x, &n);
        e.flag("rank 0 exactly when scalar", x.is_scalar() == shape.is_empty());
        no_grad(e, "a new tensor", &x);
    }
    if let Some(x) = e.ok("RawTensor::new", || n.raw()) {
        same(e, "RawTensor::new", &x, &n);
        e.flag("rank 0 exactly when scalar (raw)", x.is_scalar() == shape.is_empty());
    }
    let f = e.var("f");
    let want = Nd::fill(&shape, f);
    if let Some(x) = e.ok("RcTensor::new_with_filler", || RcTensor::new_with_filler(shape.clone(), f)) {
        same(e, "RcTensor::new_with_filler", &x, &want);
    }
    if let Some(x) = e.ok("RawTensor::new_with_filler", || RawTensor::new_with_filler(shape.clone(), f)) {
        same(e, "RawTensor::new_with_filler", &x, &want);
    }
    // every other number of elements is refused
    let m = size(&shape);
    for k in 0..=m + 3 {
        if k != m {
            let d = e.vars("y", k);
            e.rejects(format!("RcTensor::new({k} elements, {shape:?})"), || {
                RcTensor::new(d.clone(), shape.clone())
            });
            e.rejects(format!("RawTensor::new({k} elements, {shape:?})"), || {
                RawTensor::new(d.clone(), shape.clone())
            });
        }
    }
}

fn construct_big<T: Elem>(e: &mut Env<T>, _p: &[i64]) {
    let x = e.var("x");
    for s in [
        vec![1usize << 32, 1 << 32],
        vec![usize::MAX, 2],
        vec![usize::MAX, usize::MAX],
        vec![1 << 63, 2],
        vec![3, 1 << 62, 8],
    ] {
        for d in [vec![], vec![x], vec![x; 2]] {
            e.rejects(format!("RcTensor::new({} elements, {s:?})", d.len()), || {
                RcTensor::new(d.clone(), s.clone())
            });
        }
    }
}

fn nested<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let x: Vec<T> = e.vars("x", 24);
    let nd = |s: &[usize]| Nd::new(s, x[..size(s)].to_vec());
    macro_rules! case {
        ($e:expr, $label:literal, $v:expr, $s:expr) => {{
            let (v, s): (_, &[usize]) = ($v, &$s);
            if let Some(t) = $e.ok(concat!("RcTensor::from ", $label), || RcTensor::<T>::from(v.clone())) {
                same($e, concat!("RcTensor::from ", $label), &t, &nd(s));
            }
            if let Some(t) = $e.ok(concat!("RawTensor::from ", $label), || RawTensor::<T>::from(v.clone())) {
                same($e, concat!("RawTensor::from ", $label), &t, &nd(s));
            }
        }};
    }
    macro_rules! bad {
        ($e:expr, $label:literal, $v:expr) => {{
            let v = $v;
            $e.rejects(concat!("RcTensor::from ", $label), || RcTensor::<T>::from(v.clone()));
            $e.rejects(concat!("RawTensor::from ", $label), || RawTensor::<T>::from(v.clone()));
        }};
    }
    match p[0] {
        0 => {
            case!(e, "an element", x[0], []);
            if let Some(t) = e.ok("RcTensor::scalar", || RcTensor::scalar(x[0])) {
                same(e, "RcTensor::scalar", &t, &nd(&[]));
                e.flag("scalar is scalar", t.is_scalar());
            }
            if let Some(t) = e.ok("RawTensor::scalar", || RawTensor::scalar(x[0])) {
                same(e, "RawTensor::scalar", &t, &nd(&[]));
                e.flag("raw scalar is scalar", t.is_scalar());
            }
            case!(e, "[T;1]", [x[0]], [1]);
            case!(e, "[T;3]", [x[0], x[1], x[2]], [3]);
            case!(e, "[[T;2];3]", [[x[0], x[1]], [x[2], x[3]], [x[4], x[5]]], [3, 2]);
            case!(e, "[[T;3];1]", [[x[0], x[1], x[2]]], [1, 3]);
            case!(e, "[[T;1];3]", [[x[0]], [x[1]], [x[2]]], [3, 1]);
            case!(
                e,
                "[[[T;2];1];3]",
                [[[x[0], x[1]]], [[x[2], x[3]]], [[x[4], x[5]]]],
                [3, 1, 2]
            );
            case!(
                e,
                "[[[[T;2];2];1];2]",
                [[[[x[0], x[1]], [x[2], x[3]]]], [[[x[4], x[5]], [x[6], x[7]]]]],
                [2, 1, 2, 2]
            );
            case!(e, "Vec<[T;2]>", vec![[x[0], x[1]], [x[2], x[3]]], [2, 2]);
            case!(e, "[Vec<T>;2]", [vec![x[0], x[1], x[2]], vec![x[3], x[4], x[5]]], [2, 3]);
        }
        1 => {
            for a in 1..=4usize {
                case!(e, "Vec<T>", x[..a].to_vec(), [a]);
                for b in 1..=3usize {
                    let v: Vec<Vec<T>> = (0..a).map(|i| x[i * b..(i + 1) * b].to_vec()).collect();
                    case!(e, "Vec<Vec<T>>", v.clone(), [a, b]);
                    for c in 1..=2usize {
                        let v: Vec<Vec<Vec<T>>> = (0..a)
                            .map(|i| {
                                (0..b)
                                    .map(|j| x[(i * b + j) * c..(i * b + j + 1) * c].to_vec())
                                    .collect()
                            })
                            .collect();
                        case!(e, "Vec<Vec<Vec<T>>>", v.clone(), [a, b, c]);
                    }
                }
            }
        }
        _ => {
            // ragged: all row-length combinations of 2 and 3 rows that are not constant
            for a in 1..=3usize {
                for b in 1..=3usize {
                    if a != b {
                        bad!(e, "ragged Vec<Vec<T>>", vec![x[..a].to_vec(), x[..b].to_vec()]);
                    }
                    for c in 1..=3usize {
                        if !(a == b && b == c) {
                            bad!(
                                e,
                                "ragged Vec<Vec<T>> of 3 rows",
                                vec![x[..a].to_vec(), x[..b].to_vec(), x[..c].to_vec()]
                            );
                        }
                    }
                }
            }
            // same element counts, different inner shapes
            bad!(
                e,
                "mixed inner shapes [1,2] and [2,1]",
                vec![vec![vec![x[0], x[1]]], vec![vec![x[2]], vec![x[3]]]]
            );
            bad!(
                e,
                "mixed inner shapes [2,3] and [3,2]",
                vec![
                    vec![x[0..3].to_vec(), x[3..6].to_vec()],
                    vec![x[0..2].to_vec(), x[2..4].to_vec(), x[4..6].to_vec()]
                ]
            );
        }
    }
}

pub fn c02(t: bool) -> Vec<Scenario> {
    let mut a: Vec<Vec<i64>> = shapes(0, 3, &[0, 1, 2, 3]).iter().map(|s| enc(&[s], &[])).collect();
    a.extend(shapes(4, 4, &[1, 2]).iter().map(|s| enc(&[s], &[])));
    a.extend(shapes(5, 5, &[1, 2]).iter().map(|s| enc(&[s], &[])));
    a.extend([vec![70usize], vec![1100], vec![33, 35], vec![3, 1, 3, 2]].iter().map(|s| enc(&[s], &[])));
    if t {
        a.extend(shapes(4, 4, &[1, 2, 3]).iter().map(|s| enc(&[s], &[])));
        a.extend(shapes(6, 6, &[1, 2]).iter().map(|s| enc(&[s], &[])));
        a.extend([vec![5000usize]].iter().map(|s| enc(&[s], &[])));
    }
    vec![
        scen!("construct", "all shapes of the list, symbolic elements, all wrong element counts up to count+3", a, construct),
        scen!("construct_big", "shapes whose element count overflows a machine word", vec![vec![0]], construct_big),
        scen!("nested", "nested arrays and vectors up to depth 4, ragged nestings", vec![vec![0], vec![1], vec![2]], nested),
    ]
}

// ---------------------------------------------------------------- C03
fn check_view<T: Elem>(e: &mut Env<T>, label: &str, v: &TensorView<T>, want: &Nd<T>) {
    same(e, label, v, want);
    // everything else a user can read a slice through
    for i in indices(&want.shape) {
        if let Some(x) = e.ok(format!("{label}: indexing"), || v[&i]) {
            e.val(format!("{label}: v[{i:?}]"), x, want.at(&i));
        }
    }
    if let Some(t) = e.ok(format!("{label}: to_tensor"), || v.to_tensor()) {
        same(e, &format!("{label}.to_tensor()"), &t, want);
    }
    if let Some(t) = e.ok(format!("{label}: deep_clone"), || v.deep_clone()) {
        same(e, &format!("{label}.deep_clone()"), &t, want);
    }
    if let Some(s) = e.ok(format!("{label}: sum"), || v.sum().elem()) {
        e.val(format!("{label}.sum()"), s, want.sum());
    }
    if let Some(ix) = e.ok(format!("{label}: iter_indices"), || v.iter_indices().take(1000).collect::<Vec<_>>()) {
        e.flag(format!("{label}: iterates its own indices"), ix == indices(&want.shape));
    }
    let w = want.rc();
    if let Some(b) = e.ok(format!("{label}: =="), || *v == w) {
        e.flag(format!("{label} == the tensor it shows"), b);
    }
    // outside the window in one dimension, in range elsewhere
    for d in 0..want.shape.len() {
        if want.shape[d] == 1 {
            continue;
        }
        for over in [want.shape[d], want.shape[d] + 1, usize::MAX, usize::MAX - 1] {
            let mut i = vec![0; want.shape.len()];
            i[d] = over;
            let r = catch(|| v.get(&i).map(|_| ()));
            e.flag(
                format!("{label}.get({i:?}) outside the slice is an error"),
                matches!(r, Some(Err(_))),
            );
        }
    }
}

fn all_windows(shape: &[usize], with_empty: bool) -> Vec<Vec<(usize, usize)>> {
    let mut out: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for &d in shape {
        let mut c = vec![];
        for a in 0..=d {
            for b in a..=d {
                if with_empty || b > a {
                    c.push((a, b));
                }
            }
        }
        out = out
            .into_iter()
            .flat_map(|p| {
                c.iter()
                    .map(|&w| {
                        let mut q = p.clone();
                        q.push(w);
                        q
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

fn windows<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    let w: Vec<(usize, usize)> = shape.iter().map(|_| (r.us(), r.us())).collect();
    let want = n.window(&w);
    let rc = n.rc();
    if let Some(v) = e.ok(format!("slice {w:?}"), || rc.slice(ranges(&w))) {
        check_view(e, &format!("rc.slice({w:?})"), &v, &want);
    }
    if let Some(v) = e.ok(format!("view {w:?}"), || rc.view(ranges(&w))) {
        same(e, &format!("rc.view({w:?})"), &v, &want);
    }
    let raw = n.raw();
    if let Some(v) = e.ok(format!("raw slice {w:?}"), || raw.slice(ranges(&w))) {
        same(e, &format!("raw.slice({w:?})"), &v, &want);
    }
    same(e, "the base", &rc, &n);
}

/// slice of a slice (of a slice): every second window of a first window
fn nested_windows<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    let w: Vec<(usize, usize)> = shape.iter().map(|_| (r.us(), r.us())).collect();
    let rc = n.rc();
    let n1 = n.window(&w);
    let Some(v1) = e.ok(format!("slice {w:?}"), || rc.slice(ranges(&w))) else {
        return;
    };
    for w2 in all_windows(&n1.shape, true) {
        let n2 = n1.window(&w2);
        let Some(v2) = e.ok(format!("slice {w:?} then {w2:?}"), || v1.slice(ranges(&w2))) else {
            continue;
        };
        check_view(e, &format!("slice {w:?} then {w2:?}"), &v2, &n2);
        // a third level: drop the first position of every dimension that has two
        let w3: Vec<(usize, usize)> =
            n2.shape.iter().map(|&d| if d > 1 { (1, d) } else { (0, d) }).collect();
        if let Some(v3) = e.ok(format!("slice {w:?} then {w2:?} then {w3:?}"), || v2.slice(ranges(&w3))) {
            same(e, &format!("slice {w:?} then {w2:?} then {w3:?}"), &v3, &n2.window(&w3));
        }
    }
    // beyond the slice, though perhaps inside the base
    for d in 0..shape.len() {
        for over in 1..=3 {
            let mut w2: Vec<(usize, usize)> = n1.shape.iter().map(|&x| (0, x)).collect();
            w2[d].1 += over;
            e.rejects(format!("slice {w:?} then {w2:?}"), || v1.slice(ranges(&w2)));
        }
    }
}

fn bad_windows<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    let (rc, raw) = (n.rc(), n.raw());
    let full: Vec<(usize, usize)> = shape.iter().map(|&d| (0, d)).collect();
    for d in 0..shape.len() {
        for (a, b) in [
            (0, shape[d] + 1),
            (shape[d], shape[d] + 1),
            (shape[d] + 1, shape[d] + 1),
            (shape[d] + 1, shape[d] + 3),
            (0, usize::MAX),
        ] {
            let mut w = full.clone();
            w[d] = (a, b);
            e.rejects(format!("rc.slice({w:?}) of {shape:?}"), || rc.slice(ranges(&w)));
            e.rejects(format!("rc.view({w:?}) of {shape:?}"), || rc.view(ranges(&w)));
            e.rejects(format!("raw.slice({w:?}) of {shape:?}"), || raw.slice(ranges(&w)));
        }
    }
    if !shape.is_empty() {
        let w = full[1..].to_vec();
        e.rejects(format!("rc.slice({w:?}) of {shape:?}: too few ranges"), || rc.slice(ranges(&w)));
        let v = rc.slice(ranges(&full));
        e.rejects(format!("slice.slice({w:?}): too few ranges"), || v.slice(ranges(&w)));
    }
    let mut w = full.clone();
    w.push((0, 1));
    e.rejects(format!("rc.slice({w:?}) of {shape:?}: too many ranges"), || rc.slice(ranges(&w)));
    e.rejects("SliceRange::new(2, 1)", || SliceRange::new(2, 1));
    e.rejects("SliceRange::new(MAX, 0)", || SliceRange::new(usize::MAX, 0));
}

pub fn c03(t: bool) -> Vec<Scenario> {
    let mut sh: Vec<Vec<usize>> = shapes(0, 2, &[1, 2, 3]);
    sh.extend([vec![4], vec![5], vec![0], vec![0, 2], vec![2, 0], vec![2, 2, 2], vec![2, 1, 3], vec![1, 3, 2], vec![3, 4], vec![4, 3]]);
    sh.extend([vec![3, 2, 3], vec![2, 1, 2, 2], vec![2, 2, 2, 2]]);
    if t {
        sh.extend([vec![2, 3, 3], vec![5, 4], vec![6], vec![1, 4, 4], vec![3, 3, 3], vec![2, 2, 3, 2], vec![2, 1, 2, 1, 2]]);
    }
    let (mut a, mut b) = (vec![], vec![]);
    for s in &sh {
        for w in all_windows(s, true) {
            let x: Vec<i64> = w.iter().flat_map(|p| [p.0 as i64, p.1 as i64]).collect();
            a.push(enc(&[s], &x));
            let quick = size(s) <= 6 || w.iter().all(|p| p.1 > p.0);
            if size(s) <= 12 && s.len() <= 3 && quick || t {
                b.push(enc(&[s], &x));
            }
        }
    }
    // larger tensors and more dimensions: some windows of each
    let wide: Vec<(Vec<usize>, Vec<Vec<(usize, usize)>>)> = vec![
        (vec![40], vec![vec![(5, 37)], vec![(33, 40)], vec![(0, 34)], vec![(20, 20)]]),
        (vec![9, 10], vec![vec![(2, 8), (3, 10)], vec![(0, 9), (1, 9)], vec![(8, 9), (9, 10)]]),
        (vec![70, 2], vec![vec![(3, 69), (1, 2)], vec![(66, 70), (0, 2)]]),
        (vec![2, 70], vec![vec![(1, 2), (3, 69)], vec![(0, 2), (66, 70)]]),
        (vec![5, 6, 7], vec![vec![(1, 5), (2, 5), (3, 7)], vec![(4, 5), (0, 6), (6, 7)]]),
        (vec![300], vec![vec![(1, 299)], vec![(257, 259)]]),
    ];
    for (s, ws) in &wide {
        for w in ws {
            let x: Vec<i64> = w.iter().flat_map(|p| [p.0 as i64, p.1 as i64]).collect();
            a.push(enc(&[s], &x));
        }
    }
    for s in [vec![2usize, 1, 2, 1, 2], vec![2, 2, 2, 2, 2], vec![1, 2, 2, 1, 3], vec![2, 1, 2, 2, 1, 2]] {
        for w in all_windows(&s, false) {
            let x: Vec<i64> = w.iter().flat_map(|p| [p.0 as i64, p.1 as i64]).collect();
            if t || super::grad::hash(&x) % 8 == 0 {
                a.push(enc(&[&s], &x));
            }
        }
    }
    let c = shapes(0, 3, &[1, 2, 3]).iter().map(|s| enc(&[s], &[])).collect();
    vec![
        scen!("windows", "all windows (empty ones included) of the listed shapes", a, windows),
        scen!("nested_windows", "all windows of all windows, then a third level; ranges beyond the slice", b, nested_windows),
        scen!("bad_windows", "ranges that leave the tensor, wrong number of ranges, reversed ranges", c, bad_windows),
    ]
}

// ---------------------------------------------------------------- C04
fn factorisations(n: usize, maxrank: usize) -> Vec<Vec<usize>> {
    if maxrank == 0 {
        return if n == 1 { vec![vec![]] } else { vec![] };
    }
    let mut out = vec![];
    if n == 1 {
        out.push(vec![]);
    }
    if n == 0 {
        return vec![vec![0], vec![0, 2], vec![2, 0], vec![1, 0, 3]].into_iter().filter(|v| v.len() <= maxrank).collect();
    }
    for d in 1..=n {
        if n % d == 0 {
            for mut f in factorisations(n / d, maxrank - 1) {
                let mut v = vec![d];
                v.append(&mut f);
                out.push(v);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn reshape<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    let w: Vec<(usize, usize)> = shape.iter().map(|_| (r.us(), r.us())).collect();
    let rc = n.rc();
    let n1 = n.window(&w);
    let v1 = rc.slice(ranges(&w));
    let count = n1.data.len();
    for s in factorisations(count, 3) {
        let n2 = n1.reshape(&s);
        let l = format!("slice {w:?} reshaped to {s:?}");
        let Some(v2) = e.ok(l.clone(), || v1.reshape(s.clone())) else {
            continue;
        };
        check_view(e, &l, &v2, &n2);
        // reshaped again, and sliced
        let mut back = n1.shape.clone();
        back.push(1);
        if let Some(v3) = e.ok(format!("{l} then to {back:?}"), || v2.reshape(back.clone())) {
            same(e, &format!("{l} then to {back:?}"), &v3, &n1.reshape(&back));
        }
        let w3: Vec<(usize, usize)> =
            s.iter().map(|&d| if d > 1 { (1, d) } else { (0, d) }).collect();
        if let Some(v3) = e.ok(format!("{l} then sliced {w3:?}"), || v2.slice(ranges(&w3))) {
            let n3 = n2.window(&w3);
            same(e, &format!("{l} then sliced {w3:?}"), &v3, &n3);
            let flat = vec![n3.data.len()];
            if let Some(v4) = e.ok(format!("{l} then sliced {w3:?} then flat"), || v3.reshape(flat.clone())) {
                same(e, &format!("{l} then sliced {w3:?} then flat"), &v4, &n3.reshape(&flat));
            }
        }
    }
    same(e, "the base", &rc, &n);
    same(e, "the first slice", &v1, &n1);
    for s in [vec![count + 1], vec![count, 2], vec![2, count + 1], vec![count + 1, 1]] {
        if size(&s) != count {
            e.rejects(format!("slice {w:?} reshaped to {s:?}"), || v1.reshape(s.clone()));
        }
    }
    if count != 1 {
        e.rejects(format!("slice {w:?} reshaped to rank 0"), || v1.reshape(vec![]));
    }
    if count > 1 {
        e.rejects(format!("slice {w:?} reshaped to one less"), || v1.reshape(vec![count - 1]));
    }
}

pub fn c04(t: bool) -> Vec<Scenario> {
    let mut a = vec![];
    let mut sh = vec![vec![], vec![1], vec![4], vec![6], vec![2, 3], vec![3, 3], vec![3, 4], vec![1, 4], vec![4, 1], vec![2, 2, 2], vec![2, 3, 2]];
    sh.extend([vec![4, 4], vec![3, 2, 3], vec![2, 2, 2, 2], vec![8]]);
    if t {
        sh.extend([vec![12], vec![4, 6], vec![3, 3, 3], vec![2, 3, 2, 2]]);
    }
    for s in &sh {
        for w in all_windows(s, s.len() < 2) {
            a.push(enc(&[s], &w.iter().flat_map(|p| [p.0 as i64, p.1 as i64]).collect::<Vec<_>>()));
        }
    }
    for (s, w) in [(vec![40usize], vec![(5usize, 37usize)]), (vec![9, 10], vec![(2, 8), (3, 10)]), (vec![70, 2], vec![(3, 69), (1, 2)]), (vec![5, 6, 7], vec![(1, 5), (2, 5), (3, 7)]), (vec![2, 2, 1, 2, 2], vec![(0, 2), (1, 2), (0, 1), (0, 2), (0, 2)]), (vec![100], vec![(0, 100)])] {
        a.push(enc(&[&s], &w.iter().flat_map(|p| [p.0 as i64, p.1 as i64]).collect::<Vec<_>>()));
    }
    vec![scen!("reshape", "all windows of the listed shapes, reshaped to every shape of rank <= 3 with the same count, then reshaped or sliced again", a, reshape)]
}

// ---------------------------------------------------------------- C05
fn addsub<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let (sum, dif) = (a.add(&b), a.sub(&b));
    let want = format!("{sa:?} and {sb:?}");
    macro_rules! chk {
        ($l:literal, $f:expr, $w:expr) => {{
            let l = format!("{} of {}", $l, want);
            if let Some(x) = e.ok(l.clone(), || $f) {
                same(e, &l, &x, $w);
            }
        }};
    }
    chk!("&Rc + &Rc", &ac + &bc, &sum);
    chk!("Rc + Rc", ac.clone() + bc.clone(), &sum);
    chk!("&Raw + &Raw", &ar + &br, &sum);
    chk!("&Raw + &Rc", &ar + &bc, &sum);
    chk!("&Rc - &Rc", &ac - &bc, &dif);
    chk!("Rc - Rc", ac.clone() - bc.clone(), &dif);
    chk!("Rc - &Rc", ac.clone() - &bc, &dif);
    chk!("&Raw - &Raw", &ar - &br, &dif);
    chk!("&Raw - &Rc", &ar - &bc, &dif);
    if sa == sb {
        let two = a.add(&a);
        chk!("&x + &x", &ac + &ac, &two);
        chk!("&x - &x", &ac - &ac, &a.sub(&a));
    }
    // a slice as the right operand
    for m in margins(sb.len(), &[(0, 0), (1, 0), (0, 1), (1, 1)]) {
        let (_base, v, n) = fresh_view_m(e, "v", &sb, &m);
        let s = a.add(&n);
        chk!("&Raw + &slice", &ar + &v, &s);
        // and its copy
        chk!("&Rc + &slice.to_tensor()", &ac + &v.to_tensor(), &s);
    }
}

fn addsub_dims<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let l = format!("{sa:?} and {sb:?}");
    if let Some(x) = e.ok(format!("+ of {l}"), || &a.rc() + &b.rc()) {
        same(e, &format!("+ of {l}"), &x, &a.add(&b));
    }
    if let Some(x) = e.ok(format!("- of {l}"), || &a.raw() - &b.raw()) {
        same(e, &format!("- of {l}"), &x, &a.sub(&b));
    }
}

pub fn c05(t: bool) -> Vec<Scenario> {
    let sh: Vec<Vec<usize>> = shapes(0, 2, &[1, 2, 3])
        .into_iter()
        .chain([vec![2, 1, 3], vec![2, 2, 1], vec![1, 2, 3], vec![2, 1, 1], vec![1, 1, 2], vec![0], vec![1, 0], vec![0, 2], vec![0, 1]])
        .collect();
    let big: Vec<Vec<usize>> = if t {
        shapes(0, 3, &[1, 2, 3]).into_iter().chain(shapes(4, 4, &[1, 2])).chain(shapes(5, 5, &[1, 2])).collect()
    } else {
        shapes(0, 4, &[1, 2]).into_iter().chain(shapes(3, 3, &[1, 3])).chain([vec![70], vec![1, 70], vec![9, 1, 8], vec![2, 1, 1, 2, 1], vec![1, 2, 1, 1, 2], vec![1100], vec![1100, 1],vec![3, 1, 2], vec![2, 3, 1], vec![1, 1, 3], vec![3, 2, 2], vec![1, 2, 1, 2], vec![2, 1, 2, 1], vec![5, 1], vec![1, 5], vec![4, 1, 1]]).collect()
    };
    let (mut a, mut b) = (vec![], vec![]);
    for x in &sh {
        for y in &sh {
            if bshape(x, y).is_some() {
                a.push(enc(&[x, y], &[]));
            }
        }
    }
    for x in &big {
        for y in &big {
            if bshape(x, y).is_some_and(|s| size(&s) <= 6000) {
                b.push(enc(&[x, y], &[]));
            }
        }
    }
    vec![
        scen!("addsub", "all operator overloads and operand kinds on all compatible shape pairs of the list", a, addsub),
        scen!("addsub_dims", "all compatible pairs of a larger shape list", b, addsub_dims),
    ]
}

// ---------------------------------------------------------------- C06
fn mul<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let a = fresh(e, "a", &shape);
    let b = fresh(e, "b", &shape);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let w = a.zip(&b, |x, y| x * y);
    macro_rules! chk {
        ($l:expr, $f:expr, $w:expr) => {{
            let l = format!("{} of shape {:?}", $l, shape);
            if let Some(x) = e.ok(l.clone(), || $f) {
                same(e, &l, &x, $w);
            }
        }};
    }
    chk!("&Rc * &Rc", &ac * &bc, &w);
    chk!("Rc * Rc", ac.clone() * bc.clone(), &w);
    chk!("Rc * &Rc", ac.clone() * &bc, &w);
    chk!("&Rc * Rc", &ac * bc.clone(), &w);
    chk!("&Raw * &Raw", &ar * &br, &w);
    chk!("&Raw * &Rc", &ar * &bc, &w);
    chk!("&Rc * &Raw", &ac * &br, &w);
    chk!("Rc * &Raw", ac.clone() * &br, &w);
    chk!("element_wise_multiplication", F::element_wise_multiplication(&ac, &bc), &w);
    chk!("element_wise_multiplication (raw)", F::element_wise_multiplication(&ar, &br), &w);
    chk!("&x * &x", &ac * &ac, &a.zip(&a, |x, y| x * y));
    // scaling by a plain element and by a rank-0 tensor, either side
    let s = e.var("s");
    let (sc, sr) = (RcTensor::scalar(s), RawTensor::scalar(s));
    let l = a.map(|x| s * x);
    chk!("rank-0 Rc * Rc", &sc * &ac, &l);
    chk!("rank-0 Raw * Raw", &sr * &ar, &l);
    chk!("rank-0 Rc by value * Rc", sc.clone() * ac.clone(), &l);
    chk!("Rc * rank-0 Rc", &ac * &sc, &l);
    chk!("Raw * rank-0 Raw", &ar * &sr, &l);
    chk!("Rc by value * rank-0 Rc by value", ac.clone() * sc.clone(), &l);
    chk!("left_scalar_multiplication", ac.left_scalar_multiplication(&s), &l);
    chk!("right_scalar_multiplication", ac.right_scalar_multiplication(&s), &l);
    chk!("raw.left_scalar_multiplication", ar.left_scalar_multiplication(&s), &l);
    chk!("raw.right_scalar_multiplication", ar.right_scalar_multiplication(&s), &l);
    // slices
    for mg in margins(shape.len(), &[(0, 0), (1, 0), (0, 1), (1, 2)]) {
        let (_k, v, n) = fresh_view_m(e, "v", &shape, &mg);
        let (_k2, u, m) = fresh_view_m(e, "u", &shape, &swapped(&mg));
        let ctx = format!("slice with margins {mg:?}");
        chk!(format!("&Rc * &{ctx}"), &ac * &v, &a.zip(&n, |x, y| x * y));
        chk!(format!("&Raw * &{ctx}"), &ar * &v, &a.zip(&n, |x, y| x * y));
        chk!(format!("element_wise_multiplication of {ctx} and Rc"), F::element_wise_multiplication(&v, &ac), &n.zip(&a, |x, y| x * y));
        chk!(format!("element_wise_multiplication of two slices, {ctx}"), F::element_wise_multiplication(&v, &u), &n.zip(&m, |x, y| x * y));
        chk!(format!("rank-0 Rc * {ctx}"), &sc * &v, &n.map(|x| s * x));
        chk!(format!("rank-0 Raw * {ctx}"), &sr * &v, &n.map(|x| s * x));
        chk!(format!("left_scalar_multiplication of {ctx}"), v.left_scalar_multiplication(&s), &n.map(|x| s * x));
        chk!(format!("right_scalar_multiplication of {ctx}"), v.right_scalar_multiplication(&s), &n.map(|x| s * x));
    }
    // a rank-0 slice
    let v0 = sc.slice(vec![]);
    chk!("Rc * rank-0 slice", &ac * &v0, &l);
    chk!("Raw * rank-0 slice", &ar * &v0, &l);
}

pub fn c06(t: bool) -> Vec<Scenario> {
    let mut sh = shapes(0, 2, &[0, 1, 2, 3]);
    sh.extend([vec![2, 2, 2], vec![1, 2, 3], vec![3, 1, 2], vec![7], vec![2, 1, 2, 2]]);
    sh.extend(shapes(3, 3, &[1, 2, 3]));
    sh.extend([vec![33], vec![6, 7], vec![2, 3, 2, 2], vec![70], vec![1100], vec![0, 2, 1]]);
    if t {
        sh.extend(shapes(4, 4, &[1, 2, 3]));
        sh.extend([vec![5000], vec![70, 70]]);
    }
    sh.sort();
    sh.dedup();
    vec![scen!("mul", "every multiplication overload, operand kind and scalar side on all listed shapes", sh.iter().map(|s| enc(&[s], &[])).collect(), mul)]
}

// ---------------------------------------------------------------- C07
fn bmm<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let full = r.int() == 1;
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let w = a.matmul(&b);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let l = format!("{sa:?} x {sb:?}");
    macro_rules! chk {
        ($l:expr, $f:expr, $w:expr) => {{
            let l = format!("{} {}", $l, l);
            if let Some(x) = e.ok(l.clone(), || $f) {
                same(e, &l, &x, $w);
            }
        }};
    }
    chk!("rc.bmm(rc)", ac.bmm(&bc), &w);
    if full {
        chk!("rc.bmm_rc(raw)", ac.bmm_rc(&br), &w);
        chk!("raw.bmm(rc)", ar.bmm(&bc), &w);
        chk!("raw.bmm(raw)", ar.bmm(&br), &w);
        chk!("raw.bmm_rc(raw)", ar.bmm_rc(&br), &w);
        for mg in margins(sa.len(), &[(0, 1), (1, 0), (1, 1)]) {
            let (_x, va, na) = fresh_view_m(e, "u", &sa, &mg);
            let (_y, vb, nb) = fresh_view_m(e, "v", &sb, &swapped(&mg[sa.len() - 2..]));
            chk!("slice.bmm(rc)", va.bmm(&bc), &na.matmul(&b));
            chk!("rc.bmm(slice)", ac.bmm(&vb), &a.matmul(&nb));
            chk!("raw.bmm(slice)", ar.bmm(&vb), &a.matmul(&nb));
            chk!("slice.bmm(slice)", va.bmm(&vb), &na.matmul(&nb));
            chk!("slice.bmm_rc(raw)", va.bmm_rc(&br), &na.matmul(&b));
        }
        if sa == sb {
            chk!("x.bmm(x)", ac.bmm(&ac), &a.matmul(&a));
        }
    }
    same(e, "left operand afterwards", &ac, &a);
    same(e, "right operand afterwards", &bc, &b);
}

fn bmm_bad<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let l = format!("{sa:?} x {sb:?}");
    e.rejects(format!("rc.bmm(rc) {l}"), || ac.bmm(&bc));
    e.rejects(format!("raw.bmm(raw) {l}"), || ar.bmm(&br));
    e.rejects(format!("rc.bmm_rc(raw) {l}"), || ac.bmm_rc(&br));
    let (_x, va, _) = fresh_view(e, "u", &sa, 0, 1);
    let (_y, vb, _) = fresh_view(e, "v", &sb, 1, 0);
    e.rejects(format!("slice.bmm(rc) {l}"), || va.bmm(&bc));
    e.rejects(format!("rc.bmm(slice) {l}"), || ac.bmm(&vb));
    e.rejects(format!("slice.bmm(slice) {l}"), || va.bmm(&vb));
}

fn bad_bmm_pairs() -> Vec<Vec<i64>> {
    let mut c = vec![];
    for m in 1..=3usize {
        for k in 1..=3usize {
            for k2 in 1..=3usize {
                for n in 1..=2usize {
                    if k != k2 {
                        c.push(enc(&[&[m, k], &[k2, n]], &[]));
                        c.push(enc(&[&[2, m, k], &[k2, n]], &[]));
                    }
                }
            }
        }
    }
    for (a, b) in [
        (vec![2usize], vec![2usize, 2]),
        (vec![], vec![1, 1]),
        (vec![2, 2], vec![2]),
        (vec![2, 2], vec![]),
        (vec![2, 2], vec![1, 2, 2]),
        (vec![2, 2], vec![2, 2, 2]),
        (vec![1, 2, 2], vec![1, 2, 2]),
        (vec![2, 2, 2], vec![2, 2, 2]),
        (vec![1, 1, 2, 3], vec![3, 2]),
        (vec![1, 1, 1, 1], vec![1, 1]),
        (vec![1, 1, 1, 2], vec![2, 1]),
        (vec![2, 1, 1, 2], vec![2, 3]),
        (vec![1, 1, 1, 1, 2], vec![2, 3]),
        (vec![2, 0], vec![1, 2]),
        (vec![2, 1], vec![0, 2]),
    ] {
        c.push(enc(&[&a, &b], &[]));
    }
    c
}

pub fn c07(t: bool) -> Vec<Scenario> {
    let mut a = vec![];
    for b in 0..=3usize {
        for m in 1..=3usize {
            for k in 1..=3usize {
                for n in 1..=3usize {
                    let l = if b == 0 { vec![m, k] } else { vec![b, m, k] };
                    let full = b <= 2 && m <= 2 && k <= 2 || b == 0;
                    a.push(enc(&[&l, &[k, n]], &[full as i64]));
                }
            }
        }
    }
    let mut more = vec![
        (vec![4, 5], vec![5, 3]),
        (vec![1, 9], vec![9, 1]),
        (vec![7, 1], vec![1, 8]),
        (vec![6, 6], vec![6, 6]),
        (vec![5, 2, 3], vec![3, 4]),
        (vec![2, 0], vec![0, 3]),
        (vec![0, 2], vec![2, 3]),
        (vec![2, 3], vec![3, 0]),
        (vec![2, 2, 0], vec![0, 2]),
        (vec![0, 2, 2], vec![2, 2]),
        (vec![1, 33], vec![33, 1]),
        (vec![1, 1], vec![1, 40]),
    ];
    more.extend([(vec![8, 8], vec![8, 8]), (vec![3, 5, 4], vec![4, 6]), (vec![9, 7], vec![7, 5]), (vec![2, 17], vec![17, 3]), (vec![1, 65], vec![65, 2]), (vec![12, 3], vec![3, 12]), (vec![33, 2], vec![2, 33]), (vec![17, 2, 2], vec![2, 2]), (vec![1, 0, 2], vec![2, 2]), (vec![0, 0], vec![0, 0])]);
    if t {
        more.extend([(vec![16, 16], vec![16, 16]), (vec![1, 300], vec![300, 1]), (vec![130, 1], vec![1, 9]), (vec![4, 9, 8], vec![8, 9]), (vec![33, 33], vec![33, 2]), (vec![70, 2, 2], vec![2, 3])]);
    }
    for (l, r) in &more {
        a.push(enc(&[l, r], &[0]));
    }
    let mut v = vec![
        scen!("bmm", "all sizes 1..3 with and without batch, plus listed larger and empty sizes; tensors, raw tensors and slices on either side", a, bmm),
        scen!("bmm_bad", "unequal inner dimensions, unsupported ranks", bad_bmm_pairs(), bmm_bad),
    ];
    v[0].max_paths = 4;
    v
}

// ---------------------------------------------------------------- C08
fn reduce<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let a = fresh(e, "a", &shape);
    let b = fresh(e, "b", &shape);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let (ws, wd) = (Nd::new(&[], vec![a.sum()]), Nd::new(&[1], vec![a.dot(&b)]));
    macro_rules! chk {
        ($l:expr, $f:expr, $w:expr) => {{
            let l = format!("{} of shape {:?}", $l, shape);
            if let Some(x) = e.ok(l.clone(), || $f) {
                same(e, &l, &x, $w);
            }
        }};
    }
    chk!("rc.sum", ac.sum(), &ws);
    chk!("raw.sum", ar.sum(), &ws);
    chk!("dot", F::dot(&ac, &bc), &wd);
    chk!("dot of x with x", F::dot(&ac, &ac), &Nd::new(&[1], vec![a.dot(&a)]));
    chk!("dot_no_derivative", F::dot_no_derivative(&ac, &bc), &wd);
    chk!("dot_no_derivative (raw)", F::dot_no_derivative(&ar, &br), &wd);
    chk!("raw.dot(raw)", ar.dot(&br), &wd);
    chk!("raw.dot(rc)", ar.dot(&bc), &wd);
    for mg in margins(shape.len(), &[(0, 0), (1, 0), (0, 1), (1, 2)]) {
        let (_k, v, n) = fresh_view_m(e, "v", &shape, &mg);
        let (_k2, u, m) = fresh_view_m(e, "u", &shape, &swapped(&mg));
        let c = format!("slice with margins {mg:?}");
        chk!(format!("sum of {c}"), v.sum(), &Nd::new(&[], vec![n.sum()]));
        chk!(format!("raw.dot({c})"), ar.dot(&v), &Nd::new(&[1], vec![a.dot(&n)]));
        chk!(format!("dot of rc and {c}"), F::dot_no_derivative(&ac, &v), &Nd::new(&[1], vec![a.dot(&n)]));
        chk!(format!("dot of {c} and rc"), F::dot_no_derivative(&v, &ac), &Nd::new(&[1], vec![a.dot(&n)]));
        chk!(format!("dot of two slices, {c}"), F::dot_no_derivative(&v, &u), &Nd::new(&[1], vec![n.dot(&m)]));
    }
}

pub fn c08(t: bool) -> Vec<Scenario> {
    let mut sh = shapes(0, 2, &[0, 1, 2, 3]);
    sh.extend([vec![2, 2, 2], vec![1, 3, 2], vec![9], vec![2, 1, 2, 1], vec![4, 5]]);
    sh.extend(shapes(3, 3, &[1, 2, 3]));
    sh.extend([vec![40], vec![6, 7], vec![2, 2, 2, 2], vec![0, 2, 2], vec![70], vec![13, 11], vec![260]]);
    if t {
        sh.extend(shapes(4, 4, &[1, 2, 3]));
        sh.extend([vec![1100], vec![9, 8, 7]]);
    }
    sh.sort();
    sh.dedup();
    vec![scen!("reduce", "sum and every dot variant on tensors and slices of all listed shapes", sh.iter().map(|s| enc(&[s], &[])).collect(), reduce)]
}

// ---------------------------------------------------------------- C09
fn poly<T: Elem>(x: T) -> T {
    x * x + x
}
fn pointwise<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let a = fresh(e, "a", &shape);
    let (ac, ar) = (a.rc(), a.raw());
    macro_rules! chk {
        ($l:expr, $f:expr, $w:expr) => {{
            let l = format!("{} of shape {:?}", $l, shape);
            if let Some(x) = e.ok(l.clone(), || $f) {
                same(e, &l, &x, $w);
            }
        }};
    }
    chk!("tanh", F::tanh(ac.clone()), &a.tanh());
    chk!("abs", ac.abs(), &a.abs());
    chk!("-rc", -&ac, &a.neg());
    chk!("-raw", -&ar, &a.neg());
    chk!("generic_unary_op(rc)", F::generic_unary_op(&ac, poly), &a.map(poly));
    chk!("generic_unary_op(raw)", F::generic_unary_op(&ar, poly), &a.map(poly));
    for mg in margins(shape.len(), &[(0, 1), (1, 0), (1, 1)]) {
        let (_k, v, n) = fresh_view_m(e, "v", &shape, &mg);
        chk!(format!("generic_unary_op(slice with margins {mg:?})"), F::generic_unary_op(&v, poly), &n.map(poly));
    }
    chk!("relu", F::relu(ac.clone()), &a.relu());
    same(e, "the operand afterwards", &ac, &a);
}

/// larger shapes; which elements are negative is fixed. params: shape, which
fn pointwise_large<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let odd = r.us();
    let n = size(&shape);
    let zero = T::k(0);
    let a = fresh(e, "a", &shape);
    for (i, &x) in a.data.iter().enumerate() {
        T::assume(if i % 3 == odd { T::b_lt(x, zero) } else { T::b_lt(zero, x) });
    }
    // with the signs known the expected values need no case split
    let neg = |i: usize| i % 3 == odd;
    let pick = |f: &dyn Fn(usize, T) -> T| Nd { shape: shape.clone(), data: a.data.iter().enumerate().map(|(i, &x)| f(i, x)).collect() };
    let ac = a.rc();
    macro_rules! chk {
        ($l:expr, $f:expr, $w:expr) => {{
            let l = format!("{} of shape {:?}", $l, shape);
            if let Some(x) = e.ok(l.clone(), || $f) {
                same(e, &l, &x, $w);
            }
        }};
    }
    chk!("tanh", F::tanh(ac.clone()), &a.tanh());
    chk!("-rc", -&ac, &a.neg());
    chk!("-raw", -&a.raw(), &a.neg());
    chk!("generic_unary_op(rc)", F::generic_unary_op(&ac, poly), &a.map(poly));
    chk!("generic_unary_op(raw)", F::generic_unary_op(&a.raw(), poly), &a.map(poly));
    if n <= 100 {
        chk!("abs", ac.abs(), &pick(&|i, x| if neg(i) { T::k(0) - x } else { x }));
        chk!("relu", F::relu(ac.clone()), &pick(&|i, x| if neg(i) { zero } else { x }));
    }
    same(e, "the operand afterwards", &ac, &a);
}
pub fn c09(t: bool) -> Vec<Scenario> {
    let mut sh = shapes(0, 2, &[0, 1, 2]);
    sh.extend([vec![3], vec![3, 2], vec![2, 3], vec![1, 2, 2], vec![2, 1, 3], vec![5]]);
    if t {
        sh.extend([vec![2, 2, 2], vec![3, 3], vec![9], vec![2, 5]]);
    }
    let mut big = vec![vec![2usize, 2, 2], vec![2, 1, 2, 2], vec![70], vec![9, 8], vec![1100], vec![0, 2, 2]];
    if t {
        big.extend([vec![3000], vec![33, 35], vec![2, 3, 2, 3]]);
    }
    vec![scen!("pointwise_large", "the same functions on larger shapes with the signs of the elements given", big.iter().flat_map(|s| (0..2).map(move |k| enc(&[s], &[k]))).collect(), pointwise_large),
        scen!("pointwise", "relu, tanh, abs, negation and a user function on tensors (and slices where accepted); the sign of every element is forked", sh.iter().map(|s| enc(&[s], &[])).collect(), pointwise)]
}

// ---------------------------------------------------------------- C21
fn equality<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let which = r.int();
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let want = if sa != sb {
        T::b_lit(false)
    } else {
        a.data.iter().zip(&b.data).fold(T::b_lit(true), |w, (&x, &y)| {
            let q = T::b_eq(x, y);
            T::b_and(w, q)
        })
    };
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let full = |s: &[usize]| ranges(&s.iter().map(|&d| (0, d)).collect::<Vec<_>>());
    macro_rules! chk {
        ($l:expr, $f:expr) => {{
            let l = format!("{} on shapes {:?} and {:?}", $l, sa, sb);
            if let Some(x) = e.ok(l.clone(), || $f) {
                e.iff(l, x, want);
            }
        }};
    }
    match which {
        0 => {
            chk!("rc == rc", ac == bc);
            chk!("rc == rc, swapped", bc == ac);
            chk!("!(rc != rc)", !(ac != bc));
            chk!("raw == raw", ar == br);
            chk!("raw == raw, swapped", br == ar);
        }
        1 => {
            // gradients and recorded history do not matter
            let z = RcTensor::new(vec![T::k(0); size(&sa)], sa.clone());
            let h = &ac + &z;
            let g = RcTensor::new(vec![T::k(1); size(&sb)], sb.clone());
            bc.update_grad(g);
            chk!("rc with history == rc with gradient", h == bc);
            chk!("rc with gradient == rc with history", bc == h);
            chk!("clone == rc", ac.clone() == bc);
            chk!("deep clone == rc", ac.deep_clone() == bc);
        }
        2 => {
            let (va, vb) = (ac.slice(full(&sa)), bc.slice(full(&sb)));
            chk!("slice == rc", va == bc);
            chk!("slice == raw", va == br);
            chk!("slice == slice", va == vb);
            chk!("slice == slice, swapped", vb == va);
            chk!("!(slice != rc)", !(va != bc));
        }
        _ => {
            // the same values shown by windows of larger tensors
            let embed = |n: &Nd<T>, m: &[(usize, usize)]| {
                let bs: Vec<usize> = n.shape.iter().zip(m).map(|(d, m)| d + m.0 + m.1).collect();
                let base = Nd::from_fn(&bs, |i| {
                    if (0..i.len()).all(|k| i[k] >= m[k].0 && i[k] < m[k].0 + n.shape[k]) {
                        let j: Vec<usize> = i.iter().zip(m).map(|(i, m)| i - m.0).collect();
                        n.at(&j)
                    } else {
                        T::k(17)
                    }
                });
                let w: Vec<(usize, usize)> = n.shape.iter().zip(m).map(|(d, m)| (m.0, m.0 + d)).collect();
                base.rc().slice(ranges(&w))
            };
            let all = |n: &Nd<T>, m| vec![m; n.shape.len()];
            let one = |n: &Nd<T>, d: usize| (0..n.shape.len()).map(|k| if k == d { (1, 0) } else { (0, 0) }).collect::<Vec<_>>();
            let (va, vb) = (embed(&a, &all(&a, (1, 1))), embed(&b, &all(&b, (0, 2))));
            let (ua, ub) = (embed(&a, &one(&a, 0)), embed(&b, &one(&b, 1)));
            chk!("inner slice == rc", va == bc);
            chk!("inner slice == inner slice", va == vb);
            chk!("inner slice == raw", vb == ar);
            chk!("slice shifted in the first dimension == slice shifted in the second", ua == ub);
        }
    }
}

pub fn c21(t: bool) -> Vec<Scenario> {
    let sh: Vec<Vec<usize>> = if t {
        shapes(0, 3, &[1, 2]).into_iter().chain(shapes(1, 2, &[0, 1, 2, 3])).chain([vec![4], vec![6], vec![3, 2], vec![2, 3], vec![5]]).collect()
    } else {
        shapes(0, 2, &[0, 1, 2]).into_iter().chain([vec![4], vec![3], vec![3, 1], vec![1, 3], vec![2, 3], vec![3, 2], vec![6], vec![1, 2, 2], vec![2, 2, 1], vec![1, 1, 1]]).collect()
    };
    let mut sh = sh;
    sh.sort();
    sh.dedup();
    let mut a = vec![];
    for x in &sh {
        for y in &sh {
            for k in 0..4 {
                // unequal shapes: any pair; keep it small where neither count nor rank agree
                if x == y || size(x) == size(y) || x.len() == y.len() || k == 2 {
                    a.push(enc(&[x, y], &[k]));
                }
            }
        }
    }
    for (x, y) in [(vec![9usize], vec![9usize]), (vec![17], vec![17]), (vec![33], vec![33]), (vec![65], vec![65]), (vec![8, 9], vec![8, 9]), (vec![9, 8], vec![8, 9]), (vec![2, 1, 2, 2], vec![2, 1, 2, 2]), (vec![2, 2, 1, 2], vec![2, 1, 2, 2]), (vec![2, 1, 2, 1, 2], vec![2, 1, 2, 1, 2]), (vec![64], vec![65])] {
        for k in 0..4 {
            a.push(enc(&[&x, &y], &[k]));
        }
    }
    vec![scen!("equality", "all pairs of the listed shapes; which elements agree is symbolic and forked by the comparison itself", a, equality)]
}

// ---------------------------------------------------------------- C22
fn iterate<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let n = fresh(e, "x", &shape);
    let want = indices(&shape);
    let (rc, raw) = (n.rc(), n.raw());
    let (_b, v, nv) = fresh_view(e, "v", &shape, 1, 1);
    macro_rules! chk {
        ($l:literal, $f:expr, $n:expr) => {{
            let mut got = vec![];
            let mut after = vec![];
            let done = e.ok(concat!("iterating ", $l), || {
                let mut it = $f.iter_indices();
                for _ in 0..want.len() + 4 {
                    match it.next() {
                        Some(i) => got.push(i),
                        None => break,
                    }
                }
                for _ in 0..3 {
                    after.push(it.next());
                }
            });
            if done.is_some() {
                e.flag(format!("{}: indices of {:?} in row-major order", $l, shape), got == want);
                e.flag(format!("{}: nothing after the last index of {:?}", $l, shape), after.iter().all(|x| x.is_none()));
                // what the indices read, in order
                for (k, i) in got.iter().enumerate() {
                    if k < $n.data.len() {
                        match catch(|| $f.get(i).map(|x| *x)) {
                            Some(Ok(x)) => e.val(format!("{}: element {k} read through iteration", $l), x, $n.data[k]),
                            _ => e.flag(format!("{}: element {k} readable", $l), false),
                        }
                    }
                }
            }
        }};
    }
    chk!("rc", rc, n);
    chk!("raw", raw, n);
    chk!("slice", v, nv);
    for m in margins(shape.len(), &[]) {
        let (_b, v, nv) = fresh_view_m(e, "u", &shape, &m);
        chk!("slice strict in some dimensions", v, nv);
    }
}

pub fn c22(t: bool) -> Vec<Scenario> {
    let mut sh = shapes(0, 3, &[0, 1, 2, 3]);
    sh.extend(shapes(4, 4, &[1, 2]));
    sh.extend([vec![7, 5], vec![11], vec![2, 3, 4, 2], vec![17, 9], vec![6, 1, 7, 2], vec![70], vec![0, 1, 2, 2], vec![2, 2, 0, 2]]);
    sh.extend(shapes(5, 5, &[1, 2]));
    if t {
        sh.extend(shapes(4, 4, &[0, 1, 2, 3]));
        sh.extend(shapes(6, 6, &[1, 2]));
        sh.extend([vec![1100], vec![40, 41]]);
    }
    vec![scen!("iterate", "index iteration over tensors, raw tensors and slices of all listed shapes, elements symbolic", sh.iter().map(|s| enc(&[s], &[])).collect(), iterate)]
}

// ---------------------------------------------------------------- C23
fn rd_pair(p: &[i64]) -> (Vec<usize>, Vec<usize>) {
    let mut r = Rd(p);
    (r.shape(), r.shape())
}
// ---------------------------------------------------------------- C25
/// the answers about one object of a shape. params: shape
fn queries<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let s = Rd(p).shape();
    let n = size(&s);
    let x = fresh(e, "x", &s);
    let (xc, xr) = (x.rc(), x.raw());
    let m = vec![(1, 2); s.len()];
    let (base, v, xv) = fresh_view_m(e, "v", &s, &m);
    let zeros = vec![0; s.len()];
    macro_rules! ask {
        ($n:literal, $t:expr, $v:expr) => {
            e.ctx = $n.into();
            e.flag("shape", $t.shape().to_vec() == s);
            e.flag("count", $t.count() == n);
            let again = $t.to_tensor();
            e.flag("shape of its tensor", again.shape().to_vec() == s && again.count() == n);
            let deep = $t.deep_clone();
            e.flag("shape of its deep clone", deep.shape().to_vec() == s && deep.count() == n);
            e.flag("the number of indices is the count", $t.iter_indices().count() == n);
            if n > 0 {
                if let Some(f) = e.ok("get_first_elem", || *$t.get_first_elem()) {
                    e.val("get_first_elem", f, $v.at(&zeros));
                }
            } else {
                e.rejects("get_first_elem of nothing", || *$t.get_first_elem());
            }
            if s.is_empty() {
                if let Some(f) = e.ok("elem", || $t.elem()) {
                    e.val("elem", f, $v.data[0]);
                }
            } else {
                e.rejects("elem of more than rank 0", || $t.elem());
            }
        };
    }
    ask!("a tensor", xc, x);
    ask!("a raw tensor", xr, x);
    ask!("a slice", v, xv);
    e.ctx = String::new();
    e.flag("tensor.is_scalar is rank 0", xc.is_scalar() == s.is_empty());
    e.flag("raw.is_scalar is rank 0", xr.is_scalar() == s.is_empty());
    e.flag("is_scalar of a copied slice", v.to_tensor().is_scalar() == s.is_empty());
    // handles on the same tensor share their gradient; a slice refers to the tensor it was taken from
    let g = fresh(e, "g", &s);
    let same_one = xc.to_tensor();
    xc.tensor().update_grad(g.rc());
    same_grad(e, "to_tensor of a tensor", &same_one, &s, &g.data, &[]);
    e.flag("tensor() of a slice is what was sliced", v.tensor() == base);
    let h = Nd::fill(base.shape(), T::k(1));
    v.tensor().update_grad(h.rc());
    same_grad(e, "the tensor that was sliced", &base, &h.shape, &h.data, &[]);
}
/// the answers about pairs of shapes. params: shape, shape
fn pair_queries<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let (sa, sb) = rd_pair(p);
    let (a, b) = (fresh(e, "a", &sa), fresh(e, "b", &sb));
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let (_k, av, _) = fresh_view(e, "u", &sa, 1, 0);
    let (_l, bv, _) = fresh_view(e, "v", &sb, 0, 1);
    let want = bshape(&sa, &sb).is_some();
    for (n, got) in [
        ("tensor", ac.broadcastable(bc.shape())),
        ("raw", ar.broadcastable(br.shape())),
        ("slice", av.broadcastable(bv.shape())),
        ("slice and tensor", av.broadcastable(&sb)),
        ("the other way around", bc.broadcastable(ac.shape())),
        ("raw, the other way around", br.broadcastable(&sa)),
        ("slice, the other way around", bv.broadcastable(&sa)),
    ] {
        e.flag(format!("broadcastable, {n}: {want}"), got == want);
    }
    // the answer is what addition and subtraction go by
    e.flag("addition agrees", catch(|| &ac + &bc).is_some() == want);
    e.flag("subtraction agrees", catch(|| &ac - &bc).is_some() == want);
    e.flag("raw addition agrees", catch(|| &ar + &br).is_some() == want);
    let eq = sa == sb;
    for (n, got) in [
        ("tensors", ac.same_shape(&bc)),
        ("raw tensors", ar.same_shape(&&br)),
        ("tensor and raw", ac.same_shape(&&*br.clone().to_tensor())),
        ("slices", av.same_shape(&&bv)),
        ("raw and slice", ar.same_shape(&&bv)),
        ("slice and tensor", av.same_shape(&bc)),
    ] {
        e.flag(format!("same_shape, {n}: {eq}"), got == eq);
    }
}
/// ranges. params: start, end
fn range<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let (a, b) = (p[0] as usize, p[1] as usize);
    let x = fresh(e, "x", &[4]);
    let xc = x.rc();
    if a > b {
        e.rejects("a range that ends before it starts", || SliceRange::new(a, b));
        return;
    }
    if let Some(r) = e.ok("a range", || SliceRange::new(a, b)) {
        e.flag("ranges compare by their ends", r == SliceRange::new(a, b) && (a == b || r != SliceRange::new(a, b - 1)) && r.clone() == r);
        if b <= 4 {
            if let Some(v) = e.ok("slice", || xc.slice(vec![r])) {
                same(e, "the slice", &v, &x.window(&[(a, b)]));
            }
        }
    }
}
pub fn c25(t: bool) -> Vec<Scenario> {
    let mut one = shapes(0, 3, &[0, 1, 2, 3]);
    one.extend([vec![2, 1, 2, 1], vec![1, 1, 1, 1], vec![5], vec![33], vec![2, 2, 2, 2]]);
    let mut sh = shapes(0, 2, &[1, 2, 3]);
    sh.extend([vec![0], vec![2, 0], vec![0, 2], vec![1, 0], vec![2, 2, 2], vec![1, 2, 3], vec![3, 2, 1], vec![2, 1, 3], vec![1, 1, 1], vec![2, 3, 1, 2],
        vec![2, 2, 1, 1], vec![3, 2, 1, 1], vec![2, 1, 1, 2], vec![3, 1, 1, 1], vec![1, 1, 3, 2], vec![2, 1, 1, 1, 1], vec![3, 1, 2, 1, 1], vec![70], vec![35, 2]]);
    sh.extend(shapes(3, 3, &[1, 2, 3]));
    if t {
        sh.extend(shapes(0, 3, &[0, 1, 2, 3]));
        sh.extend(shapes(4, 4, &[1, 2]));
    }
    sh.sort();
    sh.dedup();
    if t {
        one.extend(shapes(4, 4, &[0, 1, 2]));
    }
    let pairs = sh.iter().flat_map(|a| sh.iter().map(move |b| enc(&[a, b], &[]))).collect();
    vec![
        scen!("queries", "shape, count, first element, scalar tests, handles: every listed shape, for tensors, raw tensors and strict slices", one.iter().map(|s| enc(&[s], &[])).collect(), queries),
        scen!("pair_queries", "same_shape and broadcastable for all pairs of the listed shapes, against the shapes and against addition", pairs, pair_queries),
        scen!("ranges", "slice ranges with ends 0..5", (0..6i64).flat_map(|a| (0..6i64).map(move |b| vec![a, b])).collect(), range),
    ]
}

fn bad_addsub<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let l = format!("{sa:?} and {sb:?}");
    e.rejects(format!("&Rc + &Rc of {l}"), || &ac + &bc);
    e.rejects(format!("Rc + Rc of {l}"), || ac.clone() + bc.clone());
    e.rejects(format!("&Raw + &Raw of {l}"), || &ar + &br);
    e.rejects(format!("&Raw + &Rc of {l}"), || &ar + &bc);
    e.rejects(format!("&Rc - &Rc of {l}"), || &ac - &bc);
    e.rejects(format!("Rc - Rc of {l}"), || ac.clone() - bc.clone());
    e.rejects(format!("Rc - &Rc of {l}"), || ac.clone() - &bc);
    e.rejects(format!("&Raw - &Raw of {l}"), || &ar - &br);
    let (_k, v, _) = fresh_view(e, "v", &sb, 1, 1);
    e.rejects(format!("&Raw + &slice of {l}"), || &ar + &v);
    // nothing was stored in the operands
    no_grad(e, "left operand", &ac);
    no_grad(e, "right operand", &bc);
    same(e, "left operand", &ac, &a);
    same(e, "right operand", &bc, &b);
}
fn bad_mul<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc, ar, br) = (a.rc(), b.rc(), a.raw(), b.raw());
    let l = format!("{sa:?} and {sb:?}");
    if !sa.is_empty() && !sb.is_empty() {
        e.rejects(format!("&Rc * &Rc of {l}"), || &ac * &bc);
        e.rejects(format!("Rc * Rc of {l}"), || ac.clone() * bc.clone());
        e.rejects(format!("&Raw * &Raw of {l}"), || &ar * &br);
        e.rejects(format!("Rc * &Raw of {l}"), || ac.clone() * &br);
        let (_k, v, _) = fresh_view(e, "v", &sb, 1, 1);
        e.rejects(format!("&Rc * &slice of {l}"), || &ac * &v);
    }
    if !sa.is_empty() && !sb.is_empty() {
        e.rejects(format!("element_wise_multiplication of {l}"), || F::element_wise_multiplication(&ac, &bc));
        e.rejects(format!("dot of {l}"), || F::dot(&ac, &bc));
        e.rejects(format!("dot_no_derivative of {l}"), || F::dot_no_derivative(&ac, &bc));
        e.rejects(format!("raw.dot of {l}"), || ar.dot(&br));
        let (_k, v, _) = fresh_view(e, "v", &sb, 0, 1);
        e.rejects(format!("raw.dot(slice) of {l}"), || ar.dot(&v));
    }
    no_grad(e, "left operand", &ac);
    no_grad(e, "right operand", &bc);
}
fn bad_backward<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let a = fresh(e, "a", &shape);
    let b = fresh(e, "b", &shape);
    let (ac, bc) = (a.rc(), b.rc());
    let l = format!("{shape:?}");
    let mut all = vec![
        ("a sum of tensors", &ac + &bc),
        ("a difference", &ac - &bc),
        ("a negation", -&ac),
        ("an abs", ac.abs()),
        ("a tanh", F::tanh(ac.clone())),
    ];
    if size(&shape) <= 4 {
        all.push(("a relu", F::relu(ac.clone())));
    }
    if shape.len() == 2 && shape[0] == shape[1] {
        all.push(("a product", ac.bmm(&bc)));
    }
    for (n, t) in &all {
        e.rejects(format!("backward on {n} of shape {l}"), || t.backward());
        no_grad(e, &format!("{n} that backward refused"), t);
    }
    no_grad(e, "left operand", &ac);
    no_grad(e, "right operand", &bc);
}
/// a leaf has no recorded operation: backward on it fails too, whatever its size
fn bad_leaf<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let shape = r.shape();
    let a = fresh(e, "a", &shape);
    let ac = a.rc();
    if size(&shape) != 1 {
        e.rejects("backward on a leaf", || ac.backward());
    }
    no_grad(e, "the leaf", &ac);
    if !shape.is_empty() {
        e.rejects("elem of a tensor that is not rank 0", || ac.elem());
    }
}

pub fn c23(t: bool) -> Vec<Scenario> {
    let mut sh = shapes(0, 2, &[1, 2, 3]);
    sh.extend([vec![2, 2, 2], vec![1, 2, 3], vec![3, 2, 1], vec![2, 1, 3], vec![0], vec![0, 2], vec![2, 0], vec![4], vec![6]]);
    sh.extend(shapes(3, 3, &[2, 3]));
    sh.extend([vec![2, 1, 2, 1], vec![2, 2, 2, 2], vec![3, 1, 1, 2], vec![70], vec![71]]);
    if t {
        sh.extend(shapes(3, 3, &[1, 2, 3]));
        sh.extend(shapes(4, 4, &[1, 2]));
    }
    sh.sort();
    sh.dedup();
    let (mut a, mut b) = (vec![], vec![]);
    for x in &sh {
        for y in &sh {
            if bshape(x, y).is_none() {
                a.push(enc(&[x, y], &[]));
            }
            if x != y {
                b.push(enc(&[x, y], &[]));
            }
        }
    }
    let c: Vec<Vec<i64>> = sh.iter().filter(|s| size(s) > 1).map(|s| enc(&[s], &[])).collect();
    let d: Vec<Vec<i64>> = sh.iter().map(|s| enc(&[s], &[])).collect();
    let w: Vec<Vec<i64>> = shapes(0, 2, &[1, 2, 3]).iter().map(|s| enc(&[s], &[])).collect();
    vec![
        scen!("bad_addsub", "all incompatible pairs of the listed shapes, all operand kinds", a, bad_addsub),
        scen!("bad_mul", "all unequal pairs of the listed shapes, element-wise product and dot", b, bad_mul),
        scen!("bad_bmm", "unequal inner dimensions, unsupported ranks", bad_bmm_pairs(), bmm_bad),
        scen!("bad_backward", "backward on results with more than one element", c, bad_backward),
        scen!("bad_leaf", "backward on leaves, elem of non-scalars", d, bad_leaf),
        scen!("bad_slices", "ranges outside the tensor", w, bad_windows),
    ]
}
