//! Path exploration, deciding queries, counterexample replay.
use crate::env::*;
use crate::solver::Solver;
use crate::sym::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub type Params = Vec<i64>;
/// how the names of variables begin that stand for integers
pub const WHOLE: &str = "int_";

pub struct Scenario {
    pub name: &'static str,
    /// what is symbolic / forked here, for the evidence
    pub about: &'static str,
    pub params: Vec<Params>,
    pub sym: fn(&mut Env<Sym>, &[i64]),
    pub conc: fn(&mut Env<f64>, &[i64]),
    pub max_paths: usize,
}

#[macro_export]
macro_rules! scen {
    ($name:literal, $about:literal, $params:expr, $f:ident) => {
        $crate::engine::Scenario {
            name: $name,
            about: $about,
            params: $params,
            sym: $f::<$crate::sym::Sym>,
            conc: $f::<f64>,
            max_paths: 4096,
        }
    };
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub params: Params,
    pub label: String,
    pub model: Vec<(String, f64)>,
    pub observed: String,
    pub expected: String,
}

#[derive(Default)]
pub struct Report {
    pub instances: u64,
    pub paths: u64,
    pub truncated: u64,
    pub obs: u64,
    pub flags: u64,
    pub validated: u64,
    pub undecided: Vec<String>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub per_scenario: Vec<(String, String, u64, u64)>,
}

/// when the current instance has had its share of time (milliseconds since `T0`; 0: no limit)
pub static BUDGET_END: AtomicU64 = AtomicU64::new(0);
static T0: std::sync::LazyLock<Instant> = std::sync::LazyLock::new(Instant::now);
pub const BUDGET: &str = "symx: budget";
pub fn set_budget(secs: Option<u64>) {
    let end = secs.map_or(0, |s| T0.elapsed().as_millis() as u64 + s * 1000 + 1);
    BUDGET_END.store(end, SeqCst);
}
/// milliseconds left of the instance's share
pub fn budget_left() -> Option<u64> {
    match BUDGET_END.load(SeqCst) {
        0 => None,
        e => Some(e.saturating_sub(T0.elapsed().as_millis() as u64)),
    }
}
pub fn check_budget() {
    if budget_left() == Some(0) {
        panic!("{BUDGET}");
    }
}

/// progress for the watchdog
pub static TICK: AtomicU64 = AtomicU64::new(0);
pub static NOWFILE: Mutex<String> = Mutex::new(String::new());
fn note(s: &Scenario, p: &[i64]) {
    let f = NOWFILE.lock().unwrap_or_else(|e| e.into_inner());
    if !f.is_empty() {
        let _ = std::fs::write(&*f, format!("{}\n{}\n", s.name, p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
}

fn concrete(s: &Scenario, p: &[i64], model: &HashMap<String, f64>) -> (Vec<Obs<f64>>, Option<String>) {
    *CONC.lock().unwrap_or_else(|e| e.into_inner()) = Some(model.clone());
    let mut env = Env::<f64>::new();
    let r = catch_unwind(AssertUnwindSafe(|| (s.conc)(&mut env, p)));
    let msg = r.err().map(|e| {
        if is_engine_panic(&*e) {
            std::panic::resume_unwind(e);
        }
        panic_text(&*e)
    });
    (env.obs, msg)
}

/// equal up to rounding, where `mag` is the size of what was added up (terms that cancel symbolically leave no trace
/// of it, hence the floor)
fn close(a: f64, b: f64, mag: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    (a - b).abs() <= 1e-9 * mag.max(1e-2)
}

/// One native run on its own, to see whether it ends.
pub fn run_native(s: &Scenario, p: &[i64], model: &HashMap<String, f64>) {
    concrete(s, p, model);
}

/// A guided symbolic run under `model` (expected values) against a concrete f64 run of the same
/// real code (observed values). Returns the failing observations.
pub fn confront(s: &Scenario, p: &[i64], model: &HashMap<String, f64>) -> Vec<Violation> {
    // integers are whole numbers, towards zero so that ranges and sums of magnitudes keep to their bounds
    let whole: HashMap<String, f64> = model.iter().map(|(k, v)| (k.clone(), if k.starts_with(WHOLE) { v.trunc() } else { *v })).collect();
    let model = &whole;
    // names the scenario creates under this assignment
    {
        ctx().reset(HashMap::new(), Some(model.clone()));
    }
    let mut env = Env::<Sym>::new();
    let r = catch_unwind(AssertUnwindSafe(|| (s.sym)(&mut env, p)));
    if ctx().inadmissible {
        return vec![];
    }
    let sym_panic = r.is_err();
    let mut model = model.clone();
    for (n, _) in ctx().vars.clone() {
        model.entry(n.clone()).or_insert_with(|| hint(&n));
    }
    let (cobs, cpanic) = concrete(s, p, &model);
    let mut out = vec![];
    let mut mv: Vec<(String, f64)> = model.iter().map(|(a, b)| (a.clone(), *b)).collect();
    mv.sort_by(|a, b| a.0.cmp(&b.0));
    let mk = |label: &str, o: String, e: String| Violation {
        scenario: s.name.into(),
        params: p.to_vec(),
        label: label.into(),
        model: mv.clone(),
        observed: o,
        expected: e,
    };
    if let Some(m) = cpanic {
        out.push(mk(
            "the whole scenario completes",
            format!("panic: {m}"),
            "no panic".into(),
        ));
        return out;
    }
    if sym_panic {
        // symbolic run panicked, concrete did not: not reproduced
        return out;
    }
    let c = ctx();
    let mut memo = HashMap::new();
    let mut mags = HashMap::new();
    if env.obs.len() != cobs.len() {
        return out;
    }
    for (a, b) in env.obs.iter().zip(cobs.iter()) {
        if a.label != b.label {
            return out;
        }
        match (&a.kind, &b.kind) {
            (ObsKind::Val { want, kinks, .. }, ObsKind::Val { got: o, .. }) => {
                let e = c.eval(want.0, &model, &mut memo);
                let at_kink = kinks.iter().any(|k| match c.bnodes[k.0 as usize] {
                    BNode::Eq(x, y) => {
                        let x = c.eval(x, &model, &mut memo);
                        let y = c.eval(y, &model, &mut memo);
                        (x - y).abs() < 1e-9
                    }
                    _ => c.eval_bool(*k, &model, &mut memo),
                });
                let mag = c.magnitude(want.0, &memo, &mut mags).max(e.abs());
                if !at_kink && !close(e, *o, mag) {
                    out.push(mk(&a.label, format!("{o}"), format!("{e}")));
                }
            }
            (ObsKind::Between { lo, hi, .. }, ObsKind::Between { got: o, .. }) => {
                let l = c.eval(lo.0, &model, &mut memo);
                let h = c.eval(hi.0, &model, &mut memo);
                if !(*o >= l - 1e-9 && *o <= h + 1e-9) {
                    out.push(mk(&a.label, format!("{o}"), format!("in [{l}, {h}]")));
                }
            }
            (ObsKind::Iff { want, .. }, ObsKind::Iff { got: o, .. }) => {
                let e = c.eval_bool(*want, &model, &mut memo);
                if e != *o {
                    out.push(mk(&a.label, format!("{o}"), format!("{e}")));
                }
            }
            (ObsKind::Flag { .. }, ObsKind::Flag { got }) => {
                if !got {
                    out.push(mk(&a.label, "false".into(), "true".into()));
                }
            }
            _ => {}
        }
    }
    out
}

pub fn setup_solver(bin: &str, timeout_ms: u64) {
    ctx().solver = Some(Solver::new(bin, timeout_ms));
}

/// Explore every path of one instance; decide its assertions.
pub fn explore(s: &Scenario, p: &[i64], rep: &mut Report, validate: usize) {
    rep.instances += 1;
    note(s, p);
    let mut work: Vec<Vec<(u64, bool)>> = vec![vec![]];
    let mut paths = 0usize;
    let mut validated = 0usize;
    while let Some(prefix) = work.pop() {
        if paths >= s.max_paths {
            rep.truncated += 1;
            break;
        }
        check_budget();
        paths += 1;
        rep.paths += 1;
        TICK.fetch_add(1, SeqCst);
        ctx().reset(prefix.iter().cloned().collect(), None);
        let mut env = Env::<Sym>::new();
        let r = catch_unwind(AssertUnwindSafe(|| (s.sym)(&mut env, p)));
        let mut panicked = None;
        if let Err(e) = r {
            if is_engine_panic(&*e) {
                std::panic::resume_unwind(e);
            }
            panicked = Some(panic_text(&*e));
        }
        // alternatives of the decisions made beyond the prefix
        let order = ctx().order.clone();
        for (i, d) in order.iter().enumerate() {
            if d.alt {
                let mut np: Vec<(u64, bool)> =
                    order[..i].iter().map(|d| (d.key, d.val)).collect();
                np.push((d.key, !d.val));
                work.push(np);
            }
        }
        // assertions of this path
        let mut bad: Vec<(String, B)> = vec![];
        let mut simple: Vec<B> = vec![];
        {
            let mut c = ctx();
            if let Some(m) = &panicked {
                let t = c.lit(true);
                bad.push((format!("the whole scenario completes (panic: {m})"), t));
                simple.push(t);
            }
            let mut memos: HashMap<Vec<B>, (Facts, HashMap<u32, u32>)> = HashMap::new();
            for o in &env.obs {
                rep.obs += 1;
                let none = vec![];
                let ks = match &o.kind {
                    ObsKind::Val { kinks, .. } => kinks,
                    _ => &none,
                };
                let b = match &o.kind {
                    ObsKind::Val { got, want, .. } => {
                        let e = c.eq(got.0, want.0);
                        c.not(e)
                    }
                    ObsKind::Between { got, lo, hi } => {
                        let x = c.lt(got.0, lo.0);
                        let y = c.lt(hi.0, got.0);
                        c.or(x, y)
                    }
                    ObsKind::Iff { got, want } => {
                        if *got {
                            c.not(*want)
                        } else {
                            *want
                        }
                    }
                    ObsKind::Flag { got } => {
                        rep.flags += 1;
                        c.lit(!*got)
                    }
                };
                let (facts, memo) = memos.entry(ks.clone()).or_insert_with(|| {
                    let extra: Vec<(B, bool)> = ks.iter().map(|k| (*k, false)).collect();
                    (c.known(&extra), HashMap::new())
                });
                simple.push(c.resolve_b(b, facts, memo));
                let mut full = b;
                for k in ks {
                    let nk = c.not(*k);
                    full = c.and(full, nk);
                }
                bad.push((o.label.clone(), full));
            }
        }
        // first without the path condition, on terms whose branches it already decides; then in full
        let mut verdict = decide_simple(&simple);
        let mut found: Vec<HashMap<String, f64>> = vec![];
        if verdict != "unsat" {
            if std::env::var("SYMX_DEBUG").is_ok() {
                for ((l, _), b) in bad.iter().zip(&simple) {
                    let r = decide_simple(&[*b]);
                    if r != "unsat" {
                        eprintln!("OPEN {} {:?} {l}: {r}: {}", s.name, p, ctx().show_b(*b));
                    }
                }
                let c = ctx();
                for (b, v) in &c.pc {
                    eprintln!("  PC {v} {}", c.show_b(*b));
                }
            }
            let v = decide_all(&bad);
            verdict = v.0;
            match verdict.as_str() {
                "unsat" => {}
                "sat" => found.push(v.1),
                _ => {
                    // undecided as one query: one query per assertion that is still open
                    let mut open = vec![];
                    for ((l, b), s) in bad.iter().zip(&simple) {
                        if decide_simple(&[*s]) == "unsat" {
                            continue;
                        }
                        let (v, m) = decide_all(&[(l.clone(), *b)]);
                        match v.as_str() {
                            "unsat" => {}
                            "sat" => found.push(m),
                            _ => open.push(l.clone()),
                        }
                    }
                    if found.is_empty() && !open.is_empty() {
                        // the solver gives up: a violation may still show on the hint assignment
                        match confront(s, p, &hint_model()).into_iter().next() {
                            Some(v) => rep.violations.push(v),
                            None => rep.undecided.push(format!("{} {:?}: {}", s.name, p, open.join("; "))),
                        }
                        break;
                    }
                }
            }
        }
        if rep.samples.len() < 6 && (rep.instances % 7 == 1) {
            let c = ctx();
            rep.samples.push(format!(
                "{} {:?}: path of {} decisions, {} symbolic inputs, {} assertions, {} terms -> {}",
                s.name,
                p,
                c.order.len(),
                c.vars.len(),
                bad.len(),
                c.nodes.len(),
                verdict
            ));
        }
        let want_validation = found.is_empty() && validated < validate;
        if !found.is_empty() {
            // prefer a small integer assignment: the hint assignment, if the path admits it
            let hints = hint_model();
            let mut cands = vec![hints];
            cands.extend(found);
            // every candidate is replayed against the real code with machine numbers
            let mut ok = false;
            for m in cands {
                if m.values().any(|v| v.is_nan()) {
                    continue;
                }
                let v = confront(s, p, &m);
                if let Some(first) = v.into_iter().next() {
                    rep.violations.push(first);
                    ok = true;
                    break;
                }
            }
            if !ok {
                rep.undecided.push(format!(
                    "{} {:?}: solver assignment does not reproduce: {}",
                    s.name,
                    p,
                    bad.iter().map(|b| b.0.as_str()).take(2).collect::<Vec<_>>().join("; ")
                ));
            }
            // one violation per instance is enough
            break;
        }
        if want_validation {
            // translator validation: a model of this path, real code with f64 against the terms
            let m = path_model();
            if let Some(m) = m {
                validated += 1;
                rep.validated += 1;
                let v = confront(s, p, &m);
                if let Some(first) = v.into_iter().next() {
                    rep.violations.push(first);
                    break;
                }
            }
        }
    }
}

fn hint_model() -> HashMap<String, f64> {
    ctx().vars.clone().into_iter().map(|(n, _)| (n.clone(), hint(&n))).collect()
}

/// some assignment satisfying the path condition
fn path_model() -> Option<HashMap<String, f64>> {
    let h = hint_model();
    let mut c = ctx();
    let pc = c.pc.clone();
    c.guide_memo.clear();
    let ok = pc.iter().all(|(b, v)| c.eval_b(*b, &h) == *v);
    c.guide_memo.clear();
    if ok {
        return Some(h);
    }
    let names: Vec<String> = c.vars.iter().map(|v| v.0.clone()).collect();
    for i in c.vars.clone() {
        c.emit(i.1);
    }
    let h = c.hypotheses();
    let s = c.solver.as_mut().unwrap();
    // only a sample for the comparison with machine numbers: not worth a long search
    let u = s.unknown;
    let (r, m) = s.model_with(&h, &names, 1000);
    s.unknown = u;
    if r != "sat" || m.iter().any(|x| x.1.is_nan()) {
        return None;
    }
    Some(m.into_iter().collect())
}

/// is any of these satisfiable at all? Anything but unsat means no verdict
fn decide_simple(bad: &[B]) -> String {
    let mut c = ctx();
    let mut parts = vec![];
    let mut seen = std::collections::HashSet::new();
    for b in bad {
        match c.bnodes[b.0 as usize] {
            BNode::Lit(false) => {}
            BNode::Lit(true) => return "sat".into(),
            _ => {
                if seen.insert(*b) {
                    parts.push(c.emit_b(*b));
                }
            }
        }
    }
    let f = if parts.is_empty() { "false".to_string() } else { format!("(or false {})", parts.join(" ")) };
    let s = c.solver.as_mut().unwrap();
    let ms = (s.timeout_ms / 3).max(1000);
    let u = s.unknown;
    let r = s.check_with(&f, ms);
    s.unknown = u;
    if r == "unsat" {
        s.final_queries += 1;
    }
    r
}

fn decide_all(bad: &[(String, B)]) -> (String, HashMap<String, f64>) {
    let mut c = ctx();
    let mut parts = vec![];
    for (_, b) in bad {
        match c.bnodes[b.0 as usize] {
            BNode::Lit(false) => {}
            _ => parts.push(c.emit_b(*b)),
        }
    }
    let f = if parts.is_empty() {
        "false".to_string()
    } else {
        format!("(or false {})", parts.join(" "))
    };
    let names: Vec<String> = c.vars.iter().map(|v| v.0.clone()).collect();
    for i in c.vars.clone() {
        c.emit(i.1);
    }
    let h = c.hypotheses();
    let s = c.solver.as_mut().unwrap();
    s.final_queries += 1;
    let ms = s.timeout_ms;
    let (r, m) = s.model_with(&format!("(and {h} {f})"), &names, ms);
    (r, m.into_iter().collect())
}

/// Instances are shared out among processes: whoever first creates the file `claims`/n does instance n.
/// Small instances come first. An instance that exceeds `share` seconds is put off until all others
/// are done; a violation in one process ends them all.
pub fn run_all(scens: &[Scenario], claims: Option<String>, deadline: Instant, validate: usize, share: Option<u64>) -> (Report, bool) {
    let mut rep = Report::default();
    let mut complete = true;
    let mut todo: Vec<(i64, usize, usize)> = vec![];
    for (k, s) in scens.iter().enumerate() {
        for (n, p) in s.params.iter().enumerate() {
            todo.push((p.iter().map(|x| x.abs()).sum::<i64>() + p.len() as i64, k, n));
        }
    }
    todo.sort();
    let mut counts = vec![(0u64, 0u64); scens.len()];
    let mut put_off = vec![];
    let ended = |rep: &Report| !rep.violations.is_empty() || claims.as_ref().is_some_and(|d| std::path::Path::new(&format!("{d}/stop")).exists());
    let mut go = |k: usize, n: usize, rep: &mut Report, share: Option<u64>| -> bool {
        let (i0, p0) = (rep.instances, rep.paths);
        set_budget(share);
        let r = catch_unwind(AssertUnwindSafe(|| explore(&scens[k], &scens[k].params[n], rep, validate)));
        set_budget(None);
        counts[k].0 += rep.instances - i0;
        counts[k].1 += rep.paths - p0;
        match r {
            Ok(()) => true,
            Err(e) if panic_text(&*e) == BUDGET => {
                rep.instances = i0;
                counts[k].0 -= 1;
                false
            }
            Err(e) => std::panic::resume_unwind(e),
        }
    };
    for &(_, k, n) in &todo {
        if ended(&rep) {
            break;
        }
        if let Some(d) = &claims {
            if std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{d}/{k}.{n}")).is_err() {
                continue;
            }
        }
        if Instant::now() > deadline {
            complete = false;
            break;
        }
        if !go(k, n, &mut rep, share) {
            put_off.push((k, n));
        }
        if !rep.violations.is_empty() {
            if let Some(d) = &claims {
                let _ = std::fs::write(format!("{d}/stop"), "");
            }
        }
    }
    for (k, n) in put_off {
        let left = deadline.saturating_duration_since(Instant::now()).as_secs();
        if ended(&rep) {
            break;
        }
        if left < 2 || !go(k, n, &mut rep, share.map(|s| (s * 6).min(left))) {
            rep.undecided.push(format!("{} {:?}: not within its share of time", scens[k].name, scens[k].params[n]));
        }
    }
    for (s, c) in scens.iter().zip(counts) {
        rep.per_scenario.push((s.name.to_string(), s.about.to_string(), c.0, c.1));
    }
    (rep, complete)
}
