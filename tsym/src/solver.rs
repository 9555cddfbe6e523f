//! SMT-LIB pipe to z3 (incremental, then one-shot), models checked by re-evaluation.
use crate::term::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown(String),
}

struct Proc {
    defined: Vec<bool>,
    ndef: usize,
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}

#[derive(Default, Clone)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub oneshot: u64,
    pub gave_up: u64,
    pub time: f64,
    pub max_time: f64,
    pub cross_checked: u64,
}

pub struct Solver {
    /// one for bit-vectors alone, one with floating point
    procs: [Option<Proc>; 2],
    pub stats: SolverStats,
    pub inc_timeout: u64,
    pub hard_timeout: u64,
    /// milliseconds left for the whole run
    pub limit: u64,
    pub dump: Option<std::fs::File>,
    pub cross_every: u64,
}

pub fn smt_expr(ts: &Terms, t: T, r: &dyn Fn(T) -> String) -> String {
    let n = ts.n(t);
    let w = n.w;
    // operand as bit-vector / as bool
    let bv = |x: T| -> String {
        if ts.w(x) == 1 {
            format!("(ite {} #b1 #b0)", r(x))
        } else {
            r(x)
        }
    };
    let fp = |x: T| -> String {
        if ts.w(x) == 32 {
            format!("((_ to_fp 8 24) {})", r(x))
        } else {
            format!("((_ to_fp 11 53) {})", r(x))
        }
    };
    let sort = |w: u16| if w == 32 { "8 24" } else { "11 53" };
    let b2 = |o: &str| format!("({} {} {})", o, r(n.a), r(n.b));
    match n.op {
        Op::Const => unreachable!(),
        Op::Var => unreachable!(),
        Op::Not => {
            if w == 1 {
                format!("(not {})", r(n.a))
            } else {
                format!("(bvnot {})", r(n.a))
            }
        }
        Op::And => b2(if w == 1 { "and" } else { "bvand" }),
        Op::Or => b2(if w == 1 { "or" } else { "bvor" }),
        Op::Xor => b2(if w == 1 { "xor" } else { "bvxor" }),
        Op::Add => b2("bvadd"),
        Op::Sub => b2("bvsub"),
        Op::Mul => b2("bvmul"),
        Op::UDiv => b2("bvudiv"),
        Op::URem => b2("bvurem"),
        Op::SDiv => b2("bvsdiv"),
        Op::SRem => b2("bvsrem"),
        Op::Shl => b2("bvshl"),
        Op::LShr => b2("bvlshr"),
        Op::AShr => b2("bvashr"),
        Op::Concat => format!("(concat {} {})", bv(n.a), bv(n.b)),
        Op::Extract => {
            let e = format!("((_ extract {} {}) {})", n.k as u16 + w - 1, n.k, r(n.a));
            if w == 1 {
                format!("(= {} #b1)", e)
            } else {
                e
            }
        }
        Op::SExt => format!("((_ sign_extend {}) {})", w - ts.w(n.a), bv(n.a)),
        Op::Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
        Op::Eq => b2("="),
        Op::Ult => b2("bvult"),
        Op::Slt => b2("bvslt"),
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            let o = match n.op {
                Op::FAdd => "fp.add",
                Op::FSub => "fp.sub",
                Op::FMul => "fp.mul",
                _ => "fp.div",
            };
            format!("(fp.to_ieee_bv ({} RNE {} {}))", o, fp(n.a), fp(n.b))
        }
        Op::FEq => format!("(fp.eq {} {})", fp(n.a), fp(n.b)),
        Op::FLt => format!("(fp.lt {} {})", fp(n.a), fp(n.b)),
        Op::FLe => format!("(fp.leq {} {})", fp(n.a), fp(n.b)),
        Op::FNan => format!("(fp.isNaN {})", fp(n.a)),
        Op::FPExt | Op::FPTrunc => format!("(fp.to_ieee_bv ((_ to_fp {}) RNE {}))", sort(w), fp(n.a)),
        Op::SIToFP => format!("(fp.to_ieee_bv ((_ to_fp {}) RNE {}))", sort(w), bv(n.a)),
        Op::UIToFP => format!("(fp.to_ieee_bv ((_ to_fp_unsigned {}) RNE {}))", sort(w), bv(n.a)),
        Op::FPToSISat => {
            // saturating: NaN -> 0, out of range -> bounds
            let x = fp(n.a);
            let lo = format!("(_ bv{} {})", 1u128 << (w - 1), w);
            let hi = format!("(_ bv{} {})", (1u128 << (w - 1)) - 1, w);
            let so = sort(ts.w(n.a));
            let flo = format!("((_ to_fp {}) RNE {})", so, lo);
            format!(
                "(ite (fp.isNaN {x}) (_ bv0 {w}) (ite (fp.lt {x} {flo}) {lo} (ite (fp.geq {x} (fp.neg {flo})) {hi} ((_ fp.to_sbv {w}) RTZ {x}))))"
            )
        }
        Op::FPToUISat => {
            let x = fp(n.a);
            let so = sort(ts.w(n.a));
            let hi = format!("(_ bv{} {})", mask(w), w);
            let lim = format!("((_ to_fp_unsigned {}) RNE (concat #b1 (_ bv0 {})))", so, w);
            format!(
                "(ite (fp.isNaN {x}) (_ bv0 {w}) (ite (fp.leq {x} ((_ to_fp {so}) RNE (_ bv0 8))) (_ bv0 {w}) (ite (fp.geq {x} {lim}) {hi} ((_ fp.to_ubv {w}) RTZ {x}))))"
            )
        }
    }
}

fn rname(ts: &Terms, t: T) -> String {
    let n = ts.n(t);
    match n.op {
        Op::Const => {
            if n.w == 1 {
                if n.k == 1 { "true".into() } else { "false".into() }
            } else {
                format!("(_ bv{} {})", n.k, n.w)
            }
        }
        Op::Var => format!("v{}", n.k),
        _ => format!("t{}", t),
    }
}
fn sort(w: u16) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            procs: [None, None],
            stats: SolverStats::default(),
            inc_timeout: 4000,
            hard_timeout: 120_000,
            limit: 120_000,
            dump: None,
            cross_every: 0,
        }
    }
    fn start(&mut self, k: usize) {
        let mut child = Command::new("z3-new")
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut rd = BufReader::new(out);
            loop {
                let mut l = String::new();
                match rd.read_line(&mut l) {
                    Ok(0) | Err(_) => break,
                    _ => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                }
            }
        });
        self.procs[k] = Some(Proc { child, inp, rx, defined: vec![], ndef: 0 });
    }
    fn kill(&mut self, k: usize) {
        if let Some(mut p) = self.procs[k].take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    fn emit_defs(ts: &Terms, roots: &[T], defined: &mut Vec<bool>, out: &mut String) -> usize {
        defined.resize(ts.nodes.len(), false);
        let mut cnt = 0;
        let mut stack: Vec<(T, bool)> = roots.iter().map(|&t| (t, false)).collect();
        while let Some((t, done)) = stack.pop() {
            if defined[t as usize] {
                continue;
            }
            let n = ts.n(t);
            match n.op {
                Op::Const => {}
                Op::Var => {
                    let _ = writeln!(out, "(declare-const v{} {})", n.k, sort(n.w));
                    defined[t as usize] = true;
                    cnt += 1;
                }
                _ => {
                    if done {
                        let e = smt_expr(ts, t, &|x| rname(ts, x));
                        let _ = writeln!(out, "(define-fun t{} () {} {})", t, sort(n.w), e);
                        defined[t as usize] = true;
                        cnt += 1;
                    } else {
                        stack.push((t, true));
                        for ch in [n.a, n.b, n.c] {
                            if ch != 0 && !defined[ch as usize] {
                                stack.push((ch, false));
                            }
                        }
                    }
                }
            }
        }
        cnt
    }

    pub fn check(&mut self, ts: &Terms, cs: &[T], vars: &[u32]) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut r = self.check_inc(ts, cs, vars);
        if let Res::Unknown(_) = r {
            self.stats.oneshot += 1;
            let hard = self.hard_timeout.min(self.limit);
            r = self.check_once(ts, cs, vars, "z3-new", &["-in", &format!("-T:{}", hard / 1000 + 1)]);
            if let Res::Unknown(_) = r {
                r = self.check_once(
                    ts,
                    cs,
                    vars,
                    "cvc5",
                    &["--lang=smt2", "--produce-models", &format!("--tlimit={}", hard)],
                );
            }
        } else if self.cross_every > 0 && self.stats.queries % self.cross_every == 0 {
            let has_fp = cs.iter().any(|&c| ts.has_fp(c));
            if !has_fp {
                let o = self.check_once(ts, cs, vars, "cvc5", &["--lang=smt2", "--produce-models", "--tlimit=20000"]);
                match (&r, &o) {
                    (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => {
                        eprintln!("FATAL: z3 and cvc5 disagree");
                        std::process::exit(2);
                    }
                    (_, Res::Unknown(_)) => {}
                    _ => self.stats.cross_checked += 1,
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }

    /// one attempt of limited duration
    pub fn check_short(&mut self, ts: &Terms, cs: &[T], vars: &[u32], ms: u64) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = self.check_inc_(ts, cs, vars, ms);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match r {
            Res::Unsat => self.stats.unsat += 1,
            Res::Sat(_) => self.stats.sat += 1,
            _ => self.stats.gave_up += 1,
        }
        r
    }
    fn check_inc(&mut self, ts: &Terms, cs: &[T], vars: &[u32]) -> Res {
        self.check_inc_(ts, cs, vars, self.inc_timeout)
    }
    fn check_inc_(&mut self, ts: &Terms, cs: &[T], vars: &[u32], tmo: u64) -> Res {
        let k = cs.iter().any(|&c| ts.has_fp(c)) as usize;
        if matches!(&self.procs[k], Some(p) if p.ndef > 400_000) {
            self.kill(k);
        }
        if self.procs[k].is_none() {
            self.start(k);
            let p = self.procs[k].as_mut().unwrap();
            let _ = writeln!(p.inp, "(set-option :produce-models true)");
            if k == 0 {
                let _ = writeln!(p.inp, "(set-logic QF_BV)");
            }
        }
        let mut s = String::new();
        let p = self.procs[k].as_mut().unwrap();
        let mut defined = std::mem::take(&mut p.defined);
        let mut roots: Vec<T> = cs.to_vec();
        roots.extend(vars.iter().map(|&v| ts.var_term[v as usize]));
        p.ndef += Self::emit_defs(ts, &roots, &mut defined, &mut s);
        p.defined = defined;
        let _ = writeln!(s, "(set-option :timeout {})", tmo);
        s.push_str("(push)\n");
        for &c in cs {
            let _ = writeln!(s, "(assert {})", rname(ts, c));
        }
        s.push_str("(check-sat)\n");
        if let Some(d) = self.dump.as_mut() {
            let _ = d.write_all(s.as_bytes());
            let _ = d.write_all(b"(pop)\n");
        }
        let dl = Duration::from_millis(tmo * 3 + 3000);
        let p = self.procs[k].as_mut().unwrap();
        if p.inp.write_all(s.as_bytes()).is_err() || p.inp.flush().is_err() {
            self.kill(k);
            return Res::Unknown("solver died".into());
        }
        let ans = match p.rx.recv_timeout(dl) {
            Ok(l) => l.trim().to_string(),
            Err(_) => {
                self.kill(k);
                return Res::Unknown("timeout".into());
            }
        };
        let r = match ans.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vars.is_empty() {
                    Res::Sat(vec![])
                } else {
                    let mut g = String::from("(get-value (");
                    for v in vars {
                        let _ = write!(g, "v{} ", v);
                    }
                    g.push_str("))\n");
                    let _ = p.inp.write_all(g.as_bytes());
                    let _ = p.inp.flush();
                    match Self::read_values(&p.rx, dl) {
                        Ok(v) => Res::Sat(v),
                        Err(e) => {
                            self.kill(k);
                            return Res::Unknown(e);
                        }
                    }
                }
            }
            x if x.contains("error") => {
                eprintln!("solver error: {}", x);
                std::process::exit(2);
            }
            x => Res::Unknown(x.to_string()),
        };
        let p = self.procs[k].as_mut().unwrap();
        let _ = p.inp.write_all(b"(pop)\n");
        r
    }
    fn read_values(rx: &Receiver<String>, dl: Duration) -> Result<Vec<(u32, u128)>, String> {
        let mut txt = String::new();
        let mut depth = 0i32;
        loop {
            let l = rx.recv_timeout(dl).map_err(|_| "timeout in get-value".to_string())?;
            for c in l.chars() {
                if c == '(' {
                    depth += 1
                } else if c == ')' {
                    depth -= 1
                }
            }
            txt += &l;
            if depth <= 0 {
                break;
            }
        }
        Self::parse_values(&txt)
    }
    fn parse_values(txt: &str) -> Result<Vec<(u32, u128)>, String> {
        if txt.contains("error") {
            return Err(txt.to_string());
        }
        let toks: Vec<&str> = txt.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
        let mut out = vec![];
        let mut i = 0;
        while i + 1 < toks.len() {
            let v: u32 = toks[i][1..].parse().map_err(|_| format!("bad var {}", toks[i]))?;
            let x = toks[i + 1];
            let val = if x == "true" {
                1
            } else if x == "false" {
                0
            } else if let Some(h) = x.strip_prefix("#x") {
                u128::from_str_radix(h, 16).map_err(|e| e.to_string())?
            } else if let Some(b) = x.strip_prefix("#b") {
                u128::from_str_radix(b, 2).map_err(|e| e.to_string())?
            } else {
                return Err(format!("bad value {}", x));
            };
            out.push((v, val));
            i += 2;
        }
        Ok(out)
    }
    fn check_once(&mut self, ts: &Terms, cs: &[T], vars: &[u32], prog: &str, args: &[&str]) -> Res {
        let mut s = String::from("(set-option :produce-models true)\n");
        let mut defined = vec![];
        let mut body = String::new();
        let mut roots: Vec<T> = cs.to_vec();
        roots.extend(vars.iter().map(|&v| ts.var_term[v as usize]));
        Self::emit_defs(ts, &roots, &mut defined, &mut body);
        let fp = body.contains("fp.");
        if prog == "cvc5" && body.contains("fp.to_ieee_bv") {
            return Res::Unknown("fp not for cvc5".into());
        }
        s += if fp { if prog == "cvc5" { "(set-logic QF_BVFP)\n" } else { "" } } else { "(set-logic QF_BV)\n" };
        s += &body;
        for &c in cs {
            let _ = writeln!(s, "(assert {})", rname(ts, c));
        }
        s.push_str("(check-sat)\n");
        if !vars.is_empty() {
            s.push_str("(get-value (");
            for v in vars {
                let _ = write!(s, "v{} ", v);
            }
            s.push_str("))\n");
        }
        let mut child = match Command::new(prog).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(e) => return Res::Unknown(e.to_string()),
        };
        let mut inp = child.stdin.take().unwrap();
        let txt = s.clone();
        let wr = std::thread::spawn(move || {
            let _ = inp.write_all(txt.as_bytes());
        });
        let out = child.wait_with_output();
        let _ = wr.join();
        let out = match out {
            Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
            Err(e) => return Res::Unknown(e.to_string()),
        };
        let first = out.lines().next().unwrap_or("").trim().to_string();
        match first.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vars.is_empty() {
                    return Res::Sat(vec![]);
                }
                let rest: String = out.lines().skip(1).collect::<Vec<_>>().join("\n");
                match Self::parse_values(&rest) {
                    Ok(v) => Res::Sat(v),
                    Err(e) => Res::Unknown(e),
                }
            }
            x => Res::Unknown(x.to_string()),
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.kill(0);
        self.kill(1);
    }
}
