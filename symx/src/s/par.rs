//! C15 on the real thread pool: products in pools of several sizes, from outside and from inside a worker.
//! (All task and message orders are explored by conc/; here the real pool picks one.)
use crate::engine::Scenario;
use crate::env::*;
use crate::refmodel::*;
use crate::scen;
use rust_light::tensor::functional as F;
use rust_light::tensor::*;

/// params: pool size (0: the global pool, from outside), mode, shape a, shape b
fn pools<T: Elem>(e: &mut Env<T>, p: &[i64]) {
    let mut r = Rd(p);
    let (pool, mode) = (r.us(), r.int());
    let (sa, sb) = (r.shape(), r.shape());
    let a = fresh(e, "a", &sa);
    let b = fresh(e, "b", &sb);
    let (ac, bc) = (a.rc(), b.rc());
    let want = a.matmul(&b);
    let w = fresh(e, "w", &want.shape);
    let wc = w.rc();
    e.ctx = format!("{sa:?} x {sb:?}, {}", if pool == 0 { "outside".into() } else { format!("inside a pool of {pool}") });
    let (a2, b2) = (ac.clone(), bc.clone());
    let one = move || {
        let r = a2.bmm(&b2);
        if mode >= 1 {
            F::dot(&r, &wc).backward();
        }
        r
    };
    let times = if mode == 2 { 3 } else { 1 };
    let res = e.ok("the product", move || {
        let all = || {
            if mode != 2 {
                return vec![one()];
            }
            let out = std::sync::Mutex::new(vec![]);
            rayon::scope(|s| {
                for _ in 0..times {
                    s.spawn(|_| {
                        let r = one();
                        out.lock().unwrap().push(r);
                    })
                }
            });
            out.into_inner().unwrap()
        };
        if pool == 0 {
            all()
        } else {
            rayon::ThreadPoolBuilder::new().num_threads(pool).stack_size(16 << 20).build().expect("pool").install(all)
        }
    });
    let Some(res) = res else { return };
    for r in &res {
        same(e, "result", r, &want);
    }
    same(e, "a", &ac, &a);
    same(e, "b", &bc, &b);
    if mode == 0 {
        return;
    }
    let mut spec = want.dot(&w);
    for _ in 1..times {
        spec = spec + want.dot(&w);
    }
    let vars: Vec<T> = a.data.iter().chain(b.data.iter()).cloned().collect();
    let (g, _) = T::grads(spec, &vars);
    same_grad(e, "a", &ac, &sa, &g[..a.data.len()], &[]);
    same_grad(e, "b", &bc, &sb, &g[a.data.len()..], &[]);
}

pub fn c15(t: bool) -> Vec<Scenario> {
    let mut v: Vec<Vec<i64>> = vec![];
    let mut shapes: Vec<(Vec<usize>, Vec<usize>)> = vec![
        (vec![1, 1], vec![1, 1]),
        (vec![2, 3], vec![3, 2]),
        (vec![1, 9], vec![9, 1]),
        (vec![5, 1], vec![1, 7]),
        // more than one write segment
        (vec![6, 6], vec![6, 6]),
        (vec![3, 11], vec![11, 1]),
        (vec![2, 0], vec![0, 2]),
    ];
    if t {
        shapes.extend([(vec![8, 8], vec![8, 8]), (vec![1, 70], vec![70, 1]), (vec![2, 33], vec![33, 2]), (vec![40, 2], vec![2, 3])]);
    }
    for pool in [0, 1, 2, 3, 4, 5, 8] {
        for mode in 0..3 {
            for (a, b) in &shapes {
                if mode > 0 && a[1] == 0 {
                    continue;
                }
                let mut p = vec![pool, mode];
                p.extend(enc(&[a, b], &[]));
                v.push(p);
            }
        }
    }
    vec![scen!("pools", "products and their gradients in real thread pools of several sizes, from outside and inside; all values symbolic", v, pools)]
}
