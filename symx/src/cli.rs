//! The command line shared by the symbolic execution engine and the schedule exploration.
use crate::engine::*;
use crate::env::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jnum(f: f64) -> String {
    if f.is_finite() {
        format!("{f:?}")
    } else {
        js(&format!("{f}"))
    }
}

fn violation_json(prop: &str, v: &Violation) -> String {
    let m: Vec<String> = v.model.iter().map(|(k, x)| format!("{}: {}", js(k), jnum(*x))).collect();
    format!(
        "{{\"property\": {}, \"scenario\": {}, \"params\": {:?}, \"label\": {}, \"observed\": {}, \"expected\": {}, \"inputs\": {{{}}}}}",
        js(prop), js(&v.scenario), v.params, js(&v.label), js(&v.observed), js(&v.expected), m.join(", ")
    )
}

pub fn real_main() -> i32 {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let prop = arg("--prop").expect("--prop");
    let tier = arg("--tier").unwrap_or("quick".into());
    let out = arg("--out").unwrap_or("/dev/stdout".into());
    let scens = crate::s::scenarios(&prop, &tier);
    if cmd == "list" {
        for s in &scens {
            println!("{} {}", s.name, s.params.len());
        }
        return 0;
    }
    if cmd == "one" {
        // replay one instance under one assignment: --scenario N --params a,b --inputs k=v,k=v
        let name = arg("--scenario").unwrap();
        let params: Vec<i64> = arg("--params")
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.trim().parse().unwrap())
            .collect();
        let model: HashMap<String, f64> = arg("--inputs")
            .unwrap_or_default()
            .split(',')
            .filter_map(|s| s.split_once('='))
            .map(|(k, v)| (k.trim().to_string(), v.trim().parse().unwrap()))
            .collect();
        let s = scens.iter().find(|s| s.name == name).expect("no such scenario");
        if arg("--native").is_some() {
            run_native(s, &params, &model);
            println!("ENDED");
            return 0;
        }
        let v = confront(s, &params, &model);
        for x in &v {
            println!("REPRODUCED {}", violation_json(&prop, x));
        }
        if v.is_empty() {
            println!("NOT-REPRODUCED");
        }
        return if v.is_empty() { 0 } else { 1 };
    }
    let mut scens = scens;
    if let (Some(n), Some(p)) = (arg("--only"), arg("--params")) {
        // one instance, for debugging
        let p: Vec<i64> = p.split(',').map(|s| s.parse().unwrap()).collect();
        scens.retain(|s| s.name == n);
        scens[0].params = vec![p];
    }
    let secs: u64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(600);
    let solver = arg("--solver").unwrap_or("z3-new".into());
    let timeout: u64 = arg("--timeout-ms").and_then(|s| s.parse().ok()).unwrap_or(60_000);
    let validate: usize = arg("--validate").and_then(|s| s.parse().ok()).unwrap_or(1);
    setup_solver(&solver, timeout);
    // watchdog: the current instance is left on disk by the engine; a stuck path ends the shard
    let stuck: u64 = arg("--stuck").and_then(|s| s.parse().ok()).unwrap_or(100);
    let nowfile = format!("{out}.now");
    *NOWFILE.lock().unwrap() = nowfile.clone();
    std::thread::spawn(move || {
        let mut last = (TICK.load(SeqCst), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(SeqCst);
            if t != last.0 {
                last = (t, Instant::now());
            } else if last.1.elapsed().as_secs() > stuck {
                println!("STUCK");
                std::process::exit(3);
            }
        }
    });
    let t0 = Instant::now();
    let (rep, complete) = run_all(&scens, arg("--claims"), t0 + Duration::from_secs(secs), validate, arg("--share").and_then(|s| s.parse().ok()));
    let c = crate::sym::ctx();
    let so = c.solver.as_ref().unwrap();
    let mut f = std::fs::File::create(&out).expect("cannot write report");
    let viol: Vec<String> = rep.violations.iter().map(|v| violation_json(&prop, v)).collect();
    let per: Vec<String> = rep
        .per_scenario
        .iter()
        .map(|(a, b, i, p)| format!("{{\"name\": {}, \"about\": {}, \"instances\": {i}, \"paths\": {p}}}", js(a), js(b)))
        .collect();
    let st = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    write!(
        f,
        "{{\"complete\": {complete}, \"instances\": {}, \"paths\": {}, \"truncated\": {}, \"assertions\": {}, \"shape_assertions\": {}, \"validated\": {}, \"terms\": {}, \"forks\": {}, \"queries\": {}, \"final_queries\": {}, \"unsat\": {}, \"sat\": {}, \"unknown\": {}, \"open_feasibility\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"undecided\": [{}], \"samples\": [{}], \"violations\": [{}], \"scenarios\": [{}]}}\n",
        rep.instances, rep.paths, rep.truncated, rep.obs, rep.flags, rep.validated, c.stats.terms, c.stats.forks,
        so.queries, so.final_queries, so.unsat, so.sat, so.unknown, so.open_feasibility, so.secs, so.max_secs,
        st(&rep.undecided), st(&rep.samples), viol.join(", "), per.join(", ")
    )
    .expect("cannot write report");
    0
}
