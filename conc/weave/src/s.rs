//! C14, C15, C26, C27: all interleavings of gradient updates; all task and message orders of products; linearizability
//! of what threads see of a gradient; data-parallel training.
use crate::engine::Scenario;
use crate::env::*;
use crate::net;
use crate::refmodel::*;
use crate::scen;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;
use std::panic::resume_unwind;
use std::sync::Arc;
use vstd::weave::{self, Config};

pub fn scenarios(prop: &str, tier: &str) -> Vec<Scenario> {
    let t = tier == "thorough";
    let mut v = match prop {
        "C14" => c14(t),
        "C15" => c15(t),
        "C26" => c26(t),
        "C27" => c27(t),
        _ => panic!("symx: no scenarios for {prop}"),
    };
    for s in &mut v {
        s.max_paths = if t { 2_000_000 } else { 20_000 };
    }
    v
}

/// Runs `body` under the scheduler. None if it did not return.
fn go<T: Elem, R: Send + 'static>(
    e: &mut Env<T>,
    label: &str,
    cfg: &Config,
    body: impl FnOnce() -> R + Send + 'static,
) -> Option<R> {
    let out = weave::run(cfg, Arc::new(|i, n| T::choose(&format!("go{i}"), n)), Box::new(body));
    e.flag(format!("{label} finishes under this schedule"), out.stuck.is_none());
    match out.result {
        None => None,
        Some(Ok(r)) => {
            e.flag(format!("{label} does not panic under this schedule"), true);
            Some(r)
        }
        Some(Err(p)) => {
            if is_engine_panic(&*p) {
                resume_unwind(p);
            }
            e.flag(format!("{label} does not panic under this schedule"), false);
            None
        }
    }
}

// ---------------------------------------------------------------- C14
/// one thread's operation on the shared tensors x and y, both of shape [n]
#[derive(Clone)]
struct Op<T: Elem> {
    code: i64,
    g: Nd<T>,
    gc: RcTensor<T>,
}
const OPS: [&str; 10] = [
    "x.update_grad(g)",
    "dot(x, g).backward()",
    "x.sum().backward()",
    "x.grad()",
    "dot(x, y).backward()",
    "dot(y, x).backward()",
    "x.zero_grad()",
    "x.update_grad(common)",
    "(x + y).sum().backward()",
    "(1, n) product with x .backward()",
];

/// params: n, initial gradient, deviations, workers, then per thread its length and operations
fn updates<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (n, init, dev, workers) = (r.us(), r.int() == 1, r.us(), r.us());
    let mut prog: Vec<Vec<Op<T>>> = vec![];
    let common = fresh(e, "common", &[n]);
    let cc = common.rc();
    let mut text = vec![];
    while r.more() {
        let len = r.us();
        let mut ops = vec![];
        let mut words = vec![];
        for k in 0..len {
            let code = r.int();
            let g = if code == 7 { common.clone() } else { fresh(e, &format!("g{}_{k}_", prog.len()), &[n]) };
            let gc = if code == 7 { cc.clone() } else { g.rc() };
            words.push(OPS[code as usize]);
            ops.push(Op { code, g, gc });
        }
        text.push(words.join("; "));
        prog.push(ops);
    }
    e.ctx = text.join(" || ");
    let x = fresh(e, "x", &[n]);
    let y = fresh(e, "y", &[n]);
    let (xc, yc) = (x.rc(), y.rc());
    let i0 = fresh(e, "i", &[n]);
    if init {
        xc.update_grad(i0.rc());
    }
    let cfg = Config { workers: workers % 10, inside: false, log: false, deviations: dev, eager: workers >= 10 };
    let p2 = prog.clone();
    let (x2, y2) = (xc.clone(), yc.clone());
    let seen = go(e, "the program", &cfg, move || {
        let mut hs = vec![];
        for ops in p2 {
            let (x, y) = (x2.clone(), y2.clone());
            hs.push(vstd::thread::spawn(move || {
                let mut seen = vec![];
                for o in ops {
                    match o.code {
                        0 | 7 => x.clone().update_grad(o.gc.clone()),
                        1 => F::dot(&x, &o.gc).backward(),
                        2 => x.sum().backward(),
                        3 => seen.push(catch(|| {
                            let g = x.grad();
                            (g.shape().to_vec(), indices(&g.shape()[..]).iter().map(|i| *g.get(i).unwrap()).collect::<Vec<T>>())
                        })),
                        4 => F::dot(&x, &y).backward(),
                        5 => F::dot(&y, &x).backward(),
                        6 => x.zero_grad(),
                        8 => (&x + &y).sum().backward(),
                        _ => unreachable!(),
                    }
                }
                seen
            }));
        }
        hs.into_iter().map(|h| h.join().map_err(|p| panic_text(&*p))).collect::<Vec<_>>()
    });
    let Some(seen) = seen else { return };
    for (k, s) in seen.iter().enumerate() {
        if let Err(m) = s {
            if m.starts_with("symx:") || m.contains("z3 died") {
                panic!("symx: {m}");
            }
        }
        e.flag(format!("thread {k} completes"), s.is_ok());
        if s.is_err() {
            return;
        }
    }
    // contributions to x and to y, with the thread and position they come from
    let ones = Nd::fill(&[n], T::k(1));
    let mut cx: Vec<(usize, usize, Nd<T>)> = vec![];
    let mut cy: Vec<(usize, usize, Nd<T>)> = vec![];
    let mut resets: Vec<(usize, usize)> = vec![];
    for (t, ops) in prog.iter().enumerate() {
        for (k, o) in ops.iter().enumerate() {
            match o.code {
                0 | 1 | 7 => cx.push((t, k, o.g.clone())),
                2 => cx.push((t, k, ones.clone())),
                4 | 5 => {
                    cx.push((t, k, y.clone()));
                    cy.push((t, k, x.clone()));
                }
                6 => resets.push((t, k)),
                8 => {
                    cx.push((t, k, ones.clone()));
                    cy.push((t, k, ones.clone()));
                }
                _ => {}
            }
        }
    }
    // what x's gradient may be at (thread, position): each contribution is in or out as a whole
    let total = |some: &[&Nd<T>]| -> Option<Vec<T>> {
        some.iter().fold(None, |a: Option<Vec<T>>, c| match a {
            None => Some(c.data.clone()),
            Some(a) => Some(a.iter().zip(&c.data).map(|(&p, &q)| p + q).collect()),
        })
    };
    // may (contribution) be in, must it be in
    let allowed = |who: Option<(usize, usize)>| -> Vec<Option<Vec<T>>> {
        let mut out: Vec<Option<Vec<T>>> = vec![];
        let m = cx.len();
        // which reset acts last before the observation, if any
        let mut cuts: Vec<Option<(usize, usize)>> = vec![];
        let must_cut = resets.iter().any(|z| match who {
            None => true,
            Some((t, k)) => z.0 == t && z.1 < k,
        });
        if !must_cut {
            cuts.push(None);
        }
        cuts.extend(resets.iter().filter(|z| who.is_none_or(|(t, k)| z.0 != t || z.1 < k)).map(|z| Some(*z)));
        for cut in cuts {
            for mask in 0..1usize << m {
                let ok = (0..m).all(|q| {
                    let (t, k, _) = &cx[q];
                    let inn = mask >> q & 1 == 1;
                    let after_cut = cut.is_none_or(|z| z.0 == *t && z.1 < *k);
                    let before_cut = cut.is_some_and(|z| z.0 == *t && z.1 > *k);
                    let before_obs = who.is_none_or(|w| w.0 == *t && *k < w.1);
                    let after_obs = who.is_some_and(|w| w.0 == *t && *k > w.1);
                    if inn {
                        !before_cut && !after_obs
                    } else {
                        !(after_cut && before_obs)
                    }
                });
                if !ok {
                    continue;
                }
                let mut some: Vec<&Nd<T>> = (0..m).filter(|q| mask >> q & 1 == 1).map(|q| &cx[q].2).collect();
                if init && cut.is_none() {
                    some.insert(0, &i0);
                }
                out.push(total(&some));
            }
        }
        out
    };
    let one_of = |e: &mut Env<T>, label: String, got: &Option<(Vec<usize>, Vec<T>)>, opts: Vec<Option<Vec<T>>>| match got {
        None => e.flag(format!("{label}: absent only if nothing need be there"), opts.iter().any(|o| o.is_none())),
        Some((s, v)) => {
            e.flag(format!("{label}: shape"), s == &vec![n] && v.len() == n);
            if v.len() != n {
                return;
            }
            let opts: Vec<Vec<T>> = opts.into_iter().flatten().collect();
            if opts.len() == 1 {
                for k in 0..n {
                    e.val(format!("{label}[{k}]"), v[k], opts[0][k]);
                }
                return;
            }
            let mut any = T::b_lit(false);
            for o in opts {
                let mut all = T::b_lit(true);
                for k in 0..n {
                    all = T::b_and(all, T::b_eq(v[k], o[k]));
                }
                any = T::b_or(any, all);
            }
            e.iff(format!("{label}: a sum of whole contributions"), true, any);
        }
    };
    for (t, s) in seen.iter().enumerate() {
        let reads: Vec<usize> = prog[t].iter().enumerate().filter(|o| o.1.code == 3).map(|o| o.0).collect();
        for (k, got) in reads.iter().zip(s.as_ref().unwrap()) {
            one_of(e, format!("gradient read by thread {t}"), got, allowed(Some((t, *k))));
        }
    }
    let read = |c: &RcTensor<T>| {
        catch(|| {
            let g = c.grad();
            (g.shape().to_vec(), indices(&g.shape()[..]).iter().map(|i| *g.get(i).unwrap()).collect::<Vec<T>>())
        })
    };
    one_of(e, "final gradient of x".into(), &read(&xc), allowed(None));
    if cy.is_empty() {
        no_grad(e, "y", &yc);
    } else {
        one_of(e, "final gradient of y".into(), &read(&yc), vec![total(&cy.iter().map(|c| &c.2).collect::<Vec<_>>())]);
    }
    // nothing else changed
    same(e, "x", &xc, &x);
    same(e, "y", &yc, &y);
    same(e, "the contribution used by several threads", &cc, &common);
}

fn c14(t: bool) -> Vec<Scenario> {
    let all = 1_000_000;
    // every program with few departures first, then deeper
    let mut a: Vec<Vec<i64>> = vec![];
    let mut deep: Vec<Vec<i64>> = vec![];
    let mut add = |n: i64, dev: i64, ts: &[&[i64]]| {
        for init in 0..2 {
            for d in [2, dev] {
                let mut v = vec![n, init, d, 0];
                for o in ts {
                    v.push(o.len() as i64);
                    v.extend_from_slice(o);
                }
                if d == 2 { a.push(v) } else { deep.push(v) }
            }
        }
    };
    let ops: Vec<i64> = (0..9).collect();
    // two threads, one operation each: every interleaving
    for &p in &ops {
        for &q in &ops {
            if p <= q {
                let two = |o: i64| o == 4 || o == 5 || o == 8;
                add(1, if t || !(two(p) && two(q)) { all } else { 5 }, &[&[p], &[q]]);
            }
        }
    }
    // two threads, two operations against one
    for &p in &[0, 1, 3, 6, 7] {
        for &q in &[0, 1, 3, 6, 7] {
            for &s in &[0, 1, 6] {
                add(1, if t { all } else { 3 }, &[&[p, q], &[s]]);
            }
        }
    }
    // three threads
    for &p in &[0, 1, 3, 4, 7] {
        for &q in &[0, 2, 7] {
            for &s in &[0, 5, 6] {
                add(1, if t { 6 } else { 3 }, &[&[p], &[q], &[s]]);
            }
        }
    }
    add(2, if t { 5 } else { 3 }, &[&[0], &[0], &[0], &[0]]);
    add(2, if t { 5 } else { 3 }, &[&[0, 0], &[1, 0]]);
    add(2, if t { 4 } else { 2 }, &[&[4, 5], &[5, 4]]);
    a.extend(deep);
    vec![scen!(
        "updates",
        "threads that add to, read and reset one shared tensor's gradient, present or absent at the start; who runs next and all values symbolic",
        a,
        updates
    )]
}

// ---------------------------------------------------------------- C15
/// params: workers, inside, deviations, mode, shape a, shape b
/// mode 0: forward; 1: dot with weights, backward; 2: sum, backward; 3: two products at once
fn product<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (workers, inside, dev, mode) = (r.us(), r.int() == 1, r.us(), r.int());
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc) = (a.rc(), b.rc());
    let want = a.matmul(&b);
    e.ctx = format!(
        "{sa:?} x {sb:?}, {workers} workers, {} the pool, {}",
        if inside { "inside" } else { "outside" },
        ["forward", "gradient of a weighted sum", "gradient of the sum", "two at once, with gradients"][mode as usize]
    );
    let cfg = Config { workers: workers % 10, inside, log: false, deviations: dev, eager: workers >= 10 };
    let w = fresh(e, "w", &want.shape);
    let wc = w.rc();
    let (a2, b2, w2) = (ac.clone(), bc.clone(), wc.clone());
    let Some(res) = go(e, "the product", &cfg, move || match mode {
        0 => vec![a2.bmm(&b2)],
        1 => {
            let r = a2.bmm(&b2);
            F::dot(&r, &w2).backward();
            vec![r]
        }
        2 => {
            let r = a2.bmm(&b2);
            r.sum().backward();
            vec![r]
        }
        _ => {
            let out = std::sync::Mutex::new(vec![]);
            vrayon::in_place_scope(|s| {
                for _ in 0..2 {
                    s.spawn(|_| {
                        let r = a2.bmm(&b2);
                        F::dot(&r, &w2).backward();
                        out.lock().unwrap().push(r);
                    });
                }
            });
            out.into_inner().unwrap()
        }
    }) else {
        return;
    };
    for r in &res {
        same(e, "result", r, &want);
    }
    same(e, "a", &ac, &a);
    same(e, "b", &bc, &b);
    if mode == 0 {
        no_grad(e, "a", &ac);
        return;
    }
    let spec = match mode {
        1 => want.dot(&w),
        2 => want.sum(),
        _ => {
            let d = want.dot(&w);
            d + d
        }
    };
    let vars: Vec<T> = a.data.iter().chain(b.data.iter()).cloned().collect();
    let (g, _) = T::grads(spec, &vars);
    same_grad(e, "a", &ac, &sa, &g[..a.data.len()], &[]);
    same_grad(e, "b", &bc, &sb, &g[a.data.len()..], &[]);
}

fn c15(t: bool) -> Vec<Scenario> {
    let mut v: Vec<Vec<i64>> = vec![];
    let mut add = |w: i64, inside: i64, dev: i64, mode: i64, a: &[usize], b: &[usize]| {
        let mut p = vec![w, inside, dev, mode];
        p.extend(enc(&[a, b], &[]));
        v.push(p);
    };
    let x = t as i64;
    for w in [1, 2, 3, 5] {
        for i in 0..2 {
            // workers that take tasks as early as they can
            for (mode, a, b) in [(0i64, [2usize, 2], [2usize, 2]), (0, [3, 1], [1, 4]), (1, [2, 2], [2, 1]), (1, [1, 1], [1, 1]), (2, [1, 2], [2, 2]), (3, [1, 1], [1, 1]), (3, [1, 2], [2, 1])] {
                add(w + 10, i, 1 + x, mode, &a, &b);
            }
            // how many departures from the default order; one worker has the fewest alternatives
            let d = (if w == 1 { 4 } else { 3 }) + x;
            add(w, i, 1_000_000, 0, &[1, 1], &[1, 2]);
            add(w, i, d, 0, &[2, 2], &[2, 2]);
            add(w, i, d, 0, &[2, 1, 2], &[2, 1]);
            add(w, i, d, 0, &[1, 2], &[2, 3]);
            add(w, i, d, 1, &[1, 1], &[1, 1]);
            add(w, i, d, 1, &[1, 2], &[2, 1]);
            add(w, i, d, 1, &[2, 1], &[1, 1]);
            add(w, i, d - 1, 1, &[2, 2], &[2, 1]);
            add(w, i, d - 1, 2, &[1, 2], &[2, 2]);
            add(w, i, d - 2, 1, &[2, 2], &[2, 2]);
            add(w, i, 2 + x, 3, &[1, 1], &[1, 1]);
            add(w, i, 1 + x, 3, &[1, 2], &[2, 1]);
            // wider: many tasks at once, few departures
            add(w, i, 1 + x, 0, &[1, 1], &[1, 5]);
            add(w, i, 1 + x, 0, &[1, 1], &[1, 9]);
            add(w, i, 1 + x, 0, &[3, 1], &[1, 4]);
            add(w, i, 1, 0, &[1, 2], &[2, 17]);
            add(w, i, 1, 0, &[17, 1], &[1, 1]);
            add(w, i, 1, 1, &[3, 2], &[2, 3]);
            add(w, i, 1, 1, &[1, 5], &[5, 1]);
            add(w, i, x, 1, &[3, 3], &[3, 3]);
            // more than one segment of the gradient
            add(w, i, x, 1, &[1, 33], &[33, 1]);
            add(w, i, x, 1, &[6, 6], &[6, 1]);
            add(w, i, x, 0, &[1, 1], &[1, 40]);
        }
    }
    vec![scen!(
        "product",
        "a product, forward or with its gradient, for every order of its tasks and messages; who runs next and all values symbolic",
        v,
        product
    )]
}

// ---------------------------------------------------------------- C26
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
/// what happened to the gradient of the shared tensor, in the order of one linearization
#[derive(Clone)]
enum Act<T: Elem> {
    Add(Nd<T>),
    Clear,
    Read(usize),
}
/// params: n, initial gradient, deviations, workers, then per thread its length and operations
fn linear_order<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (n, init, dev, workers) = (r.us(), r.int() == 1, r.us(), r.us());
    let mut prog: Vec<Vec<(i64, Nd<T>, RcTensor<T>)>> = vec![];
    let mut text = vec![];
    while r.more() {
        let len = r.us();
        let mut ops = vec![];
        for k in 0..len {
            let code = r.int();
            let g = fresh(e, &format!("g{}_{k}_", prog.len()), &[n]);
            let gc = g.rc();
            ops.push((code, g, gc));
        }
        text.push(ops.iter().map(|o| OPS[o.0 as usize]).collect::<Vec<_>>().join("; "));
        prog.push(ops);
    }
    e.ctx = text.join(" || ");
    let x = fresh(e, "x", &[n]);
    let y = fresh(e, "y", &[n]);
    let (xc, yc) = (x.rc(), y.rc());
    let i0 = fresh(e, "i", &[n]);
    if init {
        xc.update_grad(i0.rc());
    }
    type Seen<T> = Option<(Vec<usize>, Vec<T>)>;
    fn look<T: Elem>(x: &RcTensor<T>) -> Seen<T> {
        catch(|| {
            let g = x.grad();
            (g.shape().to_vec(), indices(&g.shape()[..]).iter().map(|i| *g.get(i).unwrap()).collect::<Vec<T>>())
        })
    }
    let cfg = Config { workers: workers % 10, inside: false, log: false, deviations: dev, eager: workers >= 10 };
    let (p2, x2, y2) = (prog.clone(), xc.clone(), yc.clone());
    // start and end of every operation, in the order of this run
    let clock = Arc::new(AtomicUsize::new(0));
    type Log<T> = Vec<(usize, usize, Option<Seen<T>>)>;
    let done = go(e, "the program", &cfg, move || {
        let mut hs = vec![];
        for ops in p2 {
            let (x, y, clock) = (x2.clone(), y2.clone(), clock.clone());
            hs.push(vstd::thread::spawn(move || {
                let mut log: Log<T> = vec![];
                for (code, _, gc) in ops {
                    let start = clock.fetch_add(1, SeqCst);
                    let mut seen = None;
                    match code {
                        0 => x.clone().update_grad(gc),
                        1 => F::dot(&x, &gc).backward(),
                        2 => x.sum().backward(),
                        3 => seen = Some(look(&x)),
                        4 => F::dot(&x, &y).backward(),
                        6 => x.zero_grad(),
                        8 => (&x + &y).sum().backward(),
                        _ => unreachable!(),
                    }
                    log.push((start, clock.fetch_add(1, SeqCst), seen));
                }
                log
            }));
        }
        hs.into_iter().map(|h| h.join().map_err(|p| panic_text(&*p))).collect::<Vec<_>>()
    });
    let Some(done) = done else { return };
    let mut logs: Vec<Log<T>> = vec![];
    for (k, s) in done.into_iter().enumerate() {
        match s {
            Ok(l) => logs.push(l),
            Err(m) => {
                if m.starts_with("symx:") || m.contains("z3 died") {
                    panic!("symx: {m}");
                }
                e.flag(format!("thread {k} completes"), false);
                return;
            }
        }
    }
    // all operations, with their place in real time
    let ones = Nd::fill(&[n], T::k(1));
    let mut acts: Vec<(usize, usize, Act<T>)> = vec![];
    let mut reads: Vec<Seen<T>> = vec![];
    for (ops, log) in prog.iter().zip(logs) {
        for (o, (a, b, seen)) in ops.iter().zip(log) {
            let act = match o.0 {
                0 | 1 => Act::Add(o.1.clone()),
                2 | 8 => Act::Add(ones.clone()),
                4 => Act::Add(y.clone()),
                6 => Act::Clear,
                _ => {
                    reads.push(seen.unwrap());
                    Act::Read(reads.len() - 1)
                }
            };
            acts.push((a, b, act));
        }
    }
    let last = look(&xc);
    for s in reads.iter().chain([&last]).flatten() {
        e.flag("a gradient that is read has its tensor's shape", s.0 == vec![n] && s.1.len() == n);
        if s.1.len() != n {
            return;
        }
    }
    // is there an order of the operations, respecting real time, that explains everything that was seen
    struct Search<'a, T: Elem> {
        acts: &'a [(usize, usize, Act<T>)],
        reads: &'a [Seen<T>],
        last: &'a Seen<T>,
        any: T::Bool,
        orders: usize,
    }
    impl<T: Elem> Search<'_, T> {
        fn fits(seen: &Seen<T>, state: &Option<Vec<T>>) -> Option<T::Bool> {
            match (seen, state) {
                (None, None) => Some(T::b_lit(true)),
                (Some((_, v)), Some(w)) => {
                    let mut all = T::b_lit(true);
                    for (&a, &b) in v.iter().zip(w) {
                        all = T::b_and(all, T::b_eq(a, b));
                    }
                    Some(all)
                }
                _ => None,
            }
        }
        fn go(&mut self, left: &mut Vec<usize>, state: Option<Vec<T>>, so_far: T::Bool) {
            if left.is_empty() {
                if let Some(b) = Self::fits(self.last, &state) {
                    self.any = T::b_or(self.any, T::b_and(so_far, b));
                    self.orders += 1;
                }
                return;
            }
            for q in 0..left.len() {
                let k = left[q];
                // nothing that is still left ended before this one started
                if left.iter().any(|&o| self.acts[o].1 < self.acts[k].0) {
                    continue;
                }
                let (state2, b) = match &self.acts[k].2 {
                    Act::Add(g) => (
                        Some(match &state {
                            None => g.data.clone(),
                            Some(s) => s.iter().zip(&g.data).map(|(&a, &b)| a + b).collect(),
                        }),
                        so_far,
                    ),
                    Act::Clear => (None, so_far),
                    Act::Read(w) => match Self::fits(&self.reads[*w], &state) {
                        Some(b) => (state.clone(), T::b_and(so_far, b)),
                        None => continue,
                    },
                };
                left.remove(q);
                self.go(left, state2, b);
                left.insert(q, k);
            }
        }
    }
    let mut s = Search { acts: &acts, reads: &reads, last: &last, any: T::b_lit(false), orders: 0 };
    s.go(&mut (0..acts.len()).collect(), init.then(|| i0.data.clone()), T::b_lit(true));
    let any = s.any;
    if s.orders == 0 {
        e.flag("some order of the operations explains which reads found a gradient", false);
    } else {
        e.iff("some order of the operations explains every value read", true, any);
    }
    same(e, "x", &xc, &x);
    same(e, "y", &yc, &y);
}

fn c26(t: bool) -> Vec<Scenario> {
    let mut a: Vec<Vec<i64>> = vec![];
    let mut add = |n: i64, init: i64, dev: i64, ts: &[&[i64]]| {
        let mut v = vec![n, init, dev, 0];
        for o in ts {
            v.push(o.len() as i64);
            v.extend_from_slice(o);
        }
        a.push(v);
    };
    let all = 1_000_000;
    let d = if t { 5 } else { 3 };
    for init in 0..2 {
        // one thread reads twice while another changes
        for w in [0i64, 1, 2, 6] {
            add(1, init, all, &[&[3, 3], &[w]]);
            add(1, init, all, &[&[w, 3], &[3]]);
            for w2 in [0i64, 2, 6] {
                add(1, init, if t { all } else { 4 }, &[&[3, 3], &[w, w2]]);
                add(1, init, if t { all } else { 4 }, &[&[w, 3], &[w2, 3]]);
                add(1, init, d, &[&[3, w], &[w2, 3]]);
                add(1, init, d, &[&[w], &[w2], &[3, 3]]);
                add(1, init, d, &[&[w], &[w2, 3], &[3]]);
            }
            add(1, init, d, &[&[3, w, 3], &[0, 6, 3]]);
            add(1, init, d, &[&[w], &[3, 3], &[3, 3]]);
            add(1, init, d, &[&[w, 4, 3], &[3, 8, 6]]);
        }
        add(2, init, d, &[&[0, 3], &[2, 3], &[6, 3]]);
        add(2, init, if t { 4 } else { 2 }, &[&[0, 3], &[2, 3], &[6, 3], &[1, 3]]);
        add(1, init, if t { 4 } else { 2 }, &[&[0, 6, 0, 3], &[3, 2, 3, 6]]);
        add(3, init, if t { 3 } else { 2 }, &[&[4, 3, 8], &[3, 6, 3]]);
    }
    vec![scen!(
        "linear_order",
        "threads that add to, clear and read one gradient: some order of their operations that respects real time explains all that is seen",
        a,
        linear_order
    )]
}

// ---------------------------------------------------------------- C27
/// params: threads, rounds, loss (0 weighted sum, 1 plain sum; +2: the parameters have gradients already), deviations, workers (+10: eager by default), rows of a batch, network
fn train<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (threads, rounds, lossk, dev, workers, rows) = (r.us(), r.us(), r.int(), r.us(), r.us(), r.us());
    let (sizes, acts, bias) = net::rd_net(&mut r);
    let depth = acts.len();
    let n = net::net(e, &sizes, &acts, &bias);
    let mut m = n.module();
    let (mut w, mut b) = (n.w.clone(), n.b.clone());
    let (lossk, warm) = (lossk % 2, lossk >= 2);
    let mut kinks: Vec<T::Bool> = vec![];
    let mut tagn = 0u64;
    e.ctx = format!("{threads} threads, {workers} workers");
    for k in 0..rounds {
        let xs: Vec<Nd<T>> = (0..threads).map(|t| fresh(e, &format!("x{k}_{t}_"), &[rows, sizes[0]])).collect();
        let cs: Vec<Nd<T>> = (0..threads).map(|t| fresh(e, &format!("c{k}_{t}_"), &[rows, sizes[depth]])).collect();
        let xc: Vec<RcTensor<T>> = xs.iter().map(|x| x.rc()).collect();
        let cc: Vec<RcTensor<T>> = cs.iter().map(|x| x.rc()).collect();
        let st = e.var(&format!("s{k}"));
        let held = m.params();
        // what the threads' losses add up to
        let mut mark = |n: &Nd<T>| {
            let v = n.data.iter().map(|&q| { tagn += 1; T::tag(q, tagn) }).collect();
            Nd::new(&n.shape, v)
        };
        let tw: Vec<Nd<T>> = w.iter().map(&mut mark).collect();
        let tb: Vec<Nd<T>> = b.iter().map(&mut mark).collect();
        let mut losses = vec![];
        for t in 0..threads {
            let out = net::forward(&acts, &tw, &tb, &xs[t]);
            losses.push(if lossk == 0 { out.dot(&cs[t]) } else { out.sum() });
        }
        let spec = losses.iter().skip(1).fold(losses[0], |a, &l| a + l);
        let wrt: Vec<T> = (0..depth).flat_map(|l| tw[l].data.iter().chain(&tb[l].data).cloned().collect::<Vec<_>>()).collect();
        let (mut g, kk) = T::grads(spec, &wrt);
        kinks.extend(kk);
        if warm {
            let mut q = 0;
            for (i, p) in held.iter().enumerate() {
                let h = fresh(e, &format!("h{k}_{i}_"), p.shape());
                p.update_grad(h.rc());
                for v in &h.data {
                    g[q] = g[q] + *v;
                    q += 1;
                }
            }
        }
        // the real threads
        let cfg = Config { workers: workers % 10, inside: false, log: false, deviations: dev, eager: workers >= 10 };
        let (x2, c2) = (xc.clone(), cc.clone());
        let out = go(e, &format!("round {k}"), &cfg, move || {
            let model = Arc::new(m);
            let mut hs = vec![];
            for (x, c) in x2.into_iter().zip(c2) {
                let model = model.clone();
                hs.push(vstd::thread::spawn(move || {
                    let res = model.forward(x);
                    if lossk == 0 {
                        let loss = F::dot(&res, &c);
                        loss.backward();
                        *loss.get(&vec![0]).unwrap()
                    } else {
                        let loss = res.sum();
                        loss.backward();
                        *loss.get(&vec![]).unwrap()
                    }
                }));
            }
            let ls = hs.into_iter().map(|h| h.join().map_err(|p| panic_text(&*p))).collect::<Vec<_>>();
            (ls, Arc::try_unwrap(model).ok())
        });
        let Some((ls, Some(back))) = out else { return };
        m = back;
        for (t, l) in ls.into_iter().enumerate() {
            match l {
                Ok(l) => e.val(format!("loss of thread {t} in round {k}"), l, losses[t]),
                Err(msg) => {
                    if msg.starts_with("symx:") || msg.contains("z3 died") {
                        panic!("symx: {msg}");
                    }
                    e.flag(format!("thread {t} completes round {k}"), false);
                    return;
                }
            }
        }
        // one gradient for each parameter, the sum over the threads
        let mut q = 0;
        let mut next: Vec<(usize, bool, Nd<T>)> = vec![];
        for l in 0..depth {
            for (is_b, list, hold) in [(false, &w, 2 * l), (true, &b, 2 * l + 1)] {
                let p = &list[l];
                let gs = &g[q..q + p.data.len()];
                q += p.data.len();
                same_grad(e, &format!("round {k} {} {l}", if is_b { "bias" } else { "weights" }), &held[hold], &p.shape, gs, &kinks);
                let v = p.data.iter().zip(gs).map(|(&p, &g)| p - st * g).collect();
                next.push((l, is_b, Nd::new(&p.shape, v)));
            }
        }
        if e.ok(format!("the step of round {k}"), || m.step(RcTensor::scalar(st))).is_none() {
            return;
        }
        let now = m.params();
        e.flag("parameter count", now.len() == 2 * depth);
        if now.len() != 2 * depth {
            return;
        }
        for (l, is_b, want) in next {
            let t = &now[2 * l + is_b as usize];
            let name = format!("round {k}: {} {l}", if is_b { "bias" } else { "weights" });
            if t.shape() != &want.shape {
                e.flag(format!("{name} keeps its shape"), false);
                return;
            }
            let mut got = vec![];
            for (j, i) in indices(&want.shape).iter().enumerate() {
                e.gval(format!("{name} {i:?}"), t[i], want.data[j], &kinks);
                got.push(t[i]);
            }
            no_grad(e, &name, t);
            let list = if is_b { &mut b } else { &mut w };
            // the next round starts from what was just shown equal
            list[l] = Nd::new(&want.shape, got);
        }
        for t in 0..threads {
            same(e, "a thread's input", &xc[t], &xs[t]);
            if lossk == 0 {
                same(e, "a thread's loss weights", &cc[t], &cs[t]);
            }
        }
    }
}

fn c27(t: bool) -> Vec<Scenario> {
    let mut a: Vec<Vec<i64>> = vec![];
    let mut add = |threads: i64, rounds: i64, loss: i64, dev: i64, workers: i64, rows: i64, s: &[usize], l: &[(i64, i64)]| {
        a.push([threads, rounds, loss, dev, workers, rows].into_iter().chain(net::enc_net(s, l)).collect::<Vec<i64>>());
    };
    let x = t as i64;
    // few departures first
    for w in [11, 12, 1, 3] {
        for loss in [0, 2] {
            for (rows, s, l) in [(1, vec![1, 1], vec![(0i64, 1i64)]), (1, vec![2, 1], vec![(3, 2)]), (2, vec![2, 2], vec![(0, 0)]), (1, vec![1, 2], vec![(2, 3)]),
                (1, vec![1, 1, 1], vec![(2, 0), (0, 1)]), (1, vec![1, 2, 1], vec![(1, 0), (4, 4)]), (1, vec![1, 1, 1, 1], vec![(0, 0), (2, 1), (0, 0)])] {
                if s.len() > 2 && (loss == 2) != (w == 11) && !t {
                    continue;
                }
                add(2, 1, loss, 1, w, rows, &s, &l);
                if s.len() == 2 && rows == 1 && loss == 0 {
                    add(2, 2, loss, 1, w, rows, &s, &l);
                    add(3, 1, loss, 1, w, rows, &s, &l);
                }
            }
        }
    }
    for w in [1, 2, 3] {
        for loss in [0, 2, 1] {
            if loss == 1 && w != 2 && !t {
                continue;
            }
            add(2, 1, loss, 2 + x, w + 10, 1, &[1, 1], &[(0, 1)]);
            add(2, 1, loss, 3 + x - (w > 1) as i64, w, 1, &[1, 1], &[(0, 0)]);
            add(2, 1, loss, 2 + x, w, 1, &[1, 1], &[(2, 1)]);
            add(2, 1, loss, 1 + x, w, 1, &[2, 1], &[(3, 2)]);
            add(2, 2, loss, 1 + x, w, 1, &[1, 1], &[(0, 1)]);
            add(3, 1, loss, 2, w, 1, &[1, 1], &[(0, 0)]);
            add(2, 1, loss, 1 + x, w, 1, &[1, 1, 1], &[(2, 0), (0, 1)]);
            add(2, 1, loss, 1 + x, w, 1, &[1, 1], &[(1, 0)]);
            add(2, 1, loss, 1, w, 2, &[2, 2], &[(0, 0)]);
            add(3, 2, loss, 1, w, 1, &[1, 2], &[(0, 1)]);
            add(2, 1, loss, x, w, 1, &[1, 2, 1], &[(1, 0), (2, 1)]);
            add(4, 1, loss, 1, w, 1, &[1, 1], &[(4, 0)]);
        }
    }
    vec![scen!(
        "train",
        "threads run forward and backward on one model, then a step: losses, gradients and new parameters equal the sequential ones",
        a,
        train
    )]
}
