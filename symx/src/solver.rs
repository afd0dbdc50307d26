//! One z3 process, driven over SMT-LIB text. Any `(error` in its output makes the run inconclusive.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Solver {
    _child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    buf: String,
    pub queries: u64,
    pub final_queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub frame_open: bool,
    pub open_feasibility: u64,
    pub timeout_ms: u64,
}

pub const DECIDE: &str =
    "(check-sat-using (then (using-params simplify :som true :som_blowup 4294967295) smt))";

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64) -> Solver {
        let mut child = Command::new(bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            _child: child,
            inp,
            out,
            buf: String::new(),
            queries: 0,
            final_queries: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            secs: 0.0,
            max_secs: 0.0,
            frame_open: false,
            open_feasibility: 0,
            timeout_ms,
        };
        s.send(&format!("(set-option :timeout {timeout_ms})\n(set-option :pp.decimal false)\n"));
        for f in crate::sym::FUNS {
            s.send(&format!("(declare-fun u_{f} (Real) Real)\n"));
        }
        s
    }
    pub fn send(&mut self, t: &str) {
        self.buf.push_str(t);
        if self.buf.len() > 1 << 16 {
            self.flush();
        }
    }
    fn flush(&mut self) {
        self.inp.write_all(self.buf.as_bytes()).expect("z3 died");
        self.inp.flush().expect("z3 died");
        self.buf.clear();
    }
    pub fn restart_frame(&mut self) {
        if self.frame_open {
            self.send("(pop 1)\n");
        }
        self.send("(push 1)\n");
        self.frame_open = true;
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        self.out.read_line(&mut l).expect("z3 died");
        if l.is_empty() {
            panic!("symx: solver closed its output");
        }
        let l = l.trim().to_string();
        if l.contains("(error") {
            panic!("symx: solver error: {l}");
        }
        l
    }
    fn ask(&mut self) -> String {
        self.send(DECIDE);
        self.send("\n");
        self.flush();
        let t = Instant::now();
        let r = self.line();
        let d = t.elapsed().as_secs_f64();
        self.queries += 1;
        crate::engine::TICK.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.secs += d;
        if d > self.max_secs {
            self.max_secs = d;
        }
        match r.as_str() {
            "sat" => self.sat += 1,
            "unsat" => self.unsat += 1,
            _ => self.unknown += 1,
        }
        r
    }
    /// no longer than the instance's share of time
    fn within(ms: u64) -> u64 {
        crate::engine::budget_left().map_or(ms, |l| ms.min(l.max(200)))
    }
    /// satisfiability of a formula within `ms`
    pub fn check_with(&mut self, f: &str, ms: u64) -> String {
        let ms = Self::within(ms);
        self.send(&format!("(set-option :timeout {ms})\n(set-option :rlimit {})\n(push 1)\n(assert {f})\n", ms * 4000));
        let r = self.ask();
        self.send("(pop 1)\n");
        self.send(&format!("(set-option :timeout {})\n(set-option :rlimit 0)\n", self.timeout_ms));
        r
    }
    /// can this be satisfied? A quick answer: unknown counts as yes
    pub fn feasible(&mut self, f: &str) -> String {
        let r = self.check_with(f, 500);
        if r != "unsat" && r != "sat" {
            self.unknown -= 1;
            self.open_feasibility += 1;
        }
        r
    }
    /// like check_with, and on sat returns the values of `vars`
    pub fn model_with(&mut self, f: &str, vars: &[String], ms: u64) -> (String, Vec<(String, f64)>) {
        let ms = Self::within(ms);
        self.send(&format!("(set-option :timeout {ms})\n(push 1)\n(assert {f})\n"));
        let r = self.ask();
        let mut m = vec![];
        if r == "sat" && !vars.is_empty() {
            for v in vars {
                self.send(&format!("(eval |in.{v}| :completion true)\n"));
                self.flush();
                let mut t = self.line();
                while t.matches('(').count() > t.matches(')').count() {
                    t.push(' ');
                    t += &self.line();
                }
                m.push((v.clone(), parse_num(&t).unwrap_or(f64::NAN)));
            }
        }
        self.send("(pop 1)\n");
        self.send(&format!("(set-option :timeout {})\n", self.timeout_ms));
        (r, m)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}

/// numeral, decimal, (- x), (/ a b)
pub fn parse_num(t: &str) -> Option<f64> {
    let t = t.trim();
    if let Some(r) = t.strip_prefix('(') {
        let r = r.strip_suffix(')')?.trim();
        if let Some(x) = r.strip_prefix("- ") {
            return Some(-parse_num(x)?);
        }
        if let Some(x) = r.strip_prefix("/ ") {
            let x = x.trim();
            // split two operands at depth 0
            let mut d = 0;
            for (i, c) in x.char_indices() {
                match c {
                    '(' => d += 1,
                    ')' => d -= 1,
                    ' ' if d == 0 => {
                        return Some(parse_num(&x[..i])? / parse_num(&x[i + 1..])?);
                    }
                    _ => {}
                }
            }
        }
        return None;
    }
    t.trim_end_matches('?').parse().ok()
}
