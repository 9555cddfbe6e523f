//! Symbolic executor over LLVM IR.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub nstack: usize,
    pub dst: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Input {
    pub kind: u8, // 0 value, 1 choice
    pub w: u16,
    pub t: T, // term (variable)
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Rc<Vec<T>>,
    pub known: Rc<FxMap<T, u128>>,
    pub bits: Rc<FxMap<T, (u128, u128)>>,
    pub fixed: Rc<FxSet<u32>>,
    pub mvals: Rc<Vec<u128>>,
    pub inputs: Rc<Vec<Input>>,
    pub obs: Rc<Vec<Val>>,
    pub steps: u64,
    pub errno: u64,
    pub depth: u32,
}

#[derive(Debug)]
pub enum Stop {
    Fork(T, bool, Vec<u128>),
    Split(T, Vec<(T, u128, Vec<u128>)>),
    Kill(&'static str),
    End,
    Viol(String, String),
    Fatal(String),
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    Defined,
    Unknown,
    Panic,
    Abort,
    Nop,
    Assume,
    MemCpy,
    MemMove,
    MemSet,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    UCmp,
    SCmp,
    IsConst,
    FToSiSat,
    FToUiSat,
    FMaxNum,
    FMinNum,
    FLog,
    FLog2,
    FLog10,
    FAbs,
    FFloor,
    FCeil,
    FTrunc,
    FSqrt,
    FRound,
    FPow,
    FExp,
    CopySign,
    FMulAdd,
    IsFpClass,
    LoadRel,
    Tls,
    Expect,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    MemCmp,
    Bcmp,
    StrLen,
    MemChr,
    Errno,
    GetEnv,
    RetZero,
    RetArg2,
    DlSym,
    KeyCreate,
    RetM1,
    PtrMask,
    VReduce(u8),
    TAny,
    TAssume,
    TAssert,
    TReach,
    TObserve,
    TConc,
    TParam,
    TNote,
    TFail,
    TNow,
    TIsSym,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u16, u128)>,
    pub obs: Vec<u128>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<(u8, u16, u128)>,
    pub obs: Vec<u128>,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_samples: usize,
    pub time_limit: f64,
    pub verbose: bool,
    pub trace: bool,
    pub itrace: Option<String>,
    pub merge: bool,
    pub max_viol: usize,
    pub seed: u64,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub ts: Terms,
    pub sol: Solver,
    pub cfg: Cfg,
    gro: Vec<Option<Rc<Obj>>>,
    bi: Vec<Option<Bi>>,
    qcache: FxMap<Vec<T>, Option<Rc<Vec<(u32, u128)>>>>,
    pub cache_hits: u64,
    pub rewritten: u64,
    alone: FxMap<T, (bool, u64)>,
    pub merges: u64,
    memo: FxMap<T, u128>,
    memo_for: usize,
    work: Vec<State>,
    pub viols: Vec<Violation>,
    pub failed: Vec<String>,
    pub viol_count: u64,
    pub samples: Vec<Sample>,
    sample_seen: u64,
    pub reach: BTreeMap<String, u64>,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub fn_hit: Vec<u64>,
    pub blk_hit: FxMap<(u32, u32), u64>,
    start: Instant,
    glob_end: u64,
}

fn mk(ts: &mut Terms, v: &Val, w: u16) -> T {
    match v {
        Val::C(x) => ts.konst(*x as u128 & mask(w), w),
        Val::T(t) => {
            debug_assert_eq!(ts.w(*t), w);
            *t
        }
        Val::W(x) => ts.konst(**x & mask(w), w),
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
fn from_t(ts: &Terms, t: T) -> Val {
    match ts.as_const(t) {
        Some(k) => kv(k, ts.w(t)),
        None => Val::T(t),
    }
}
fn kv(k: u128, w: u16) -> Val {
    if w > 64 {
        Val::W(Rc::new(k & mask(w)))
    } else {
        Val::C((k & mask(w)) as u64)
    }
}
fn is_conc(v: &Val) -> bool {
    matches!(v, Val::C(_) | Val::W(_))
}
fn m64(w: u16) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Engine<'m> {
        let glob_end = m.globals.last().map(|g| g.addr + g.size + 64).unwrap_or(GLOB_BASE);
        Engine {
            m,
            ts: Terms::new(),
            sol: Solver::new(),
            cfg,
            gro: vec![None; m.globals.len()],
            bi: vec![],
            qcache: FxMap::default(),
            cache_hits: 0,
            rewritten: 0,
            alone: FxMap::default(),
            merges: 0,
            memo: FxMap::default(),
            memo_for: 0,
            work: vec![],
            viols: vec![],
            failed: vec![],
            viol_count: 0,
            samples: vec![],
            sample_seen: 0,
            reach: BTreeMap::new(),
            paths: 0,
            killed: 0,
            forks: 0,
            insts: 0,
            asserts: 0,
            fn_hit: vec![],
            blk_hit: FxMap::default(),
            start: Instant::now(),
            glob_end,
        }
    }

    // ---------------------------------------------------------------- run
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fid = match self.m.findex.borrow().get(entry) {
            Some(&f) => f,
            None => return Err(format!("no function {}", entry)),
        };
        let f = self.m.func(fid).ok_or("entry has no body")?;
        let fr = Frame { regs: vec![Val::C(0); f.nregs], f, fid, block: 0, ip: 0, nstack: 0, dst: None };
        self.hit(fid, 0);
        let s = State {
            frames: vec![Rc::new(fr)],
            mem: Mem::new(),
            pc: Rc::new(vec![]),
            known: Rc::new(FxMap::default()),
            bits: Rc::new(FxMap::default()),
            fixed: Rc::new(FxSet::default()),
            mvals: Rc::new(vec![]),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            steps: 0,
            errno: 0,
            depth: 0,
        };
        self.work.push(s);
        while let Some(s) = self.work.pop() {
            self.memo.clear();
            self.memo_for = 0;
            if let Err(e) = self.run_state(s) {
                // the other paths are still worth exploring
                let last = e.starts_with("time limit") || self.failed.len() >= 4;
                self.failed.push(e.clone());
                if last {
                    return Err(e);
                }
                continue;
            }
            if self.viols.len() >= self.cfg.max_viol {
                return Ok(());
            }
            if self.paths + self.killed > self.cfg.max_paths {
                return Err(format!("path limit {} exceeded", self.cfg.max_paths));
            }
        }
        match self.failed.first() {
            Some(e) => Err(e.clone()),
            None => Ok(()),
        }
    }

    fn run_state(&mut self, mut s: State) -> Result<(), String> {
        loop {
            match self.step_many(&mut s) {
                Ok(()) => {
                    if s.steps > self.cfg.max_steps {
                        let mv = s.mvals.clone();
                        self.violate(&s, "hang".into(), "does not end".into(), &mv);
                        return Err(format!("step limit exceeded in {}", self.where_(&s)));
                    }
                    if self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                        // a candidate only: the replay decides
                        let mv = s.mvals.clone();
                        self.violate(&s, "hang".into(), "does not end".into(), &mv);
                        return Err(format!(
                            "time limit exceeded ({} paths, {} open) in {}",
                            self.paths,
                            self.work.len() + 1,
                            self.where_(&s)
                        ));
                    }
                }
                Err(Stop::Fork(c, v, om)) => {
                    self.forks += 1;
                    let mut o = s.clone();
                    o.depth += 1;
                    s.depth += 1;
                    o.mvals = Rc::new(om);
                    self.assume(&mut o, c, !v);
                    self.assume(&mut s, c, v);
                    self.work.push(o);
                }
                Err(Stop::Split(t, alts)) => {
                    self.forks += alts.len() as u64 - 1;
                    for (c, k, m) in alts {
                        let mut o = s.clone();
                        o.depth += 1;
                        o.mvals = Rc::new(m);
                        self.add(&mut o, c);
                        Rc::make_mut(&mut o.known).insert(t, k);
                        self.work.push(o);
                    }
                    return Ok(());
                }
                Err(Stop::End) => {
                    self.paths += 1;
                    if self.cfg.verbose && self.paths % 100 == 0 {
                        eprintln!(
                            "[{:.1}s] paths {} open {} insts {} queries {} hits {} solver {:.1}s terms {}",
                            self.start.elapsed().as_secs_f64(),
                            self.paths,
                            self.work.len(),
                            self.insts,
                            self.sol.stats.queries,
                            self.cache_hits,
                            self.sol.stats.time,
                            self.ts.nodes.len()
                        );
                    }
                    self.sample(&s);
                    return Ok(());
                }
                Err(Stop::Kill(_)) => {
                    self.killed += 1;
                    return Ok(());
                }
                Err(Stop::Viol(kind, msg)) => {
                    let mv = s.mvals.clone();
                    self.violate(&s, kind, msg, &mv);
                    return Ok(());
                }
                Err(Stop::Fatal(e)) => return Err(format!("{} in {}", e, self.where_(&s))),
            }
        }
    }
    pub fn where_(&self, s: &State) -> String {
        self.stack(s).into_iter().take(8).collect::<Vec<_>>().join(" < ")
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().map(|f| format!("{}:{}:{}", demangle(&f.f.name), f.f.blocks[f.block as usize].name, f.ip)).collect()
    }
    fn violate(&mut self, s: &State, kind: String, msg: String, mv: &[u128]) {
        self.viol_count += 1;
        if self.viols.iter().filter(|v| v.msg == msg).count() >= 2 {
            return;
        }
        let sm = self.make_sample(s, mv);
        if self.cfg.verbose {
            eprintln!("violation {} {} at {}", kind, msg, self.where_(s));
        }
        self.viols.push(Violation { kind, msg, inputs: sm.inputs, obs: sm.obs, stack: self.stack(s) });
    }
    fn make_sample(&mut self, s: &State, mv: &[u128]) -> Sample {
        let mut m = Model::new(mv.to_vec());
        let inputs = s.inputs.iter().map(|i| (i.kind, i.w, self.ts.eval(i.t, &mut m))).collect();
        let obs = s
            .obs
            .iter()
            .map(|v| match v {
                Val::C(x) => *x as u128,
                Val::T(t) => self.ts.eval(*t, &mut m),
                Val::W(x) => **x,
                Val::A(_) => 0,
            })
            .collect();
        Sample { inputs, obs }
    }
    fn sample(&mut self, s: &State) {
        self.sample_seen += 1;
        let n = self.cfg.max_samples;
        if n == 0 {
            return;
        }
        // reservoir sampling with a fixed generator
        let slot = if self.samples.len() < n {
            Some(self.samples.len())
        } else {
            self.cfg.seed = self.cfg.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = ((self.cfg.seed >> 33) % self.sample_seen) as usize;
            if k < n {
                Some(k)
            } else {
                None
            }
        };
        if let Some(k) = slot {
            let mv = s.mvals.clone();
            let sm = self.make_sample(s, &mv);
            if k == self.samples.len() {
                self.samples.push(sm)
            } else {
                self.samples[k] = sm
            }
        }
    }

    // ---------------------------------------------------- path conditions
    fn eval(&mut self, s: &State, t: T) -> u128 {
        // memo is valid for one model object
        let id = Rc::as_ptr(&s.mvals) as usize;
        if self.memo_for != id {
            self.memo.clear();
            self.memo_for = id;
        }
        let mut m = Model { vals: vec![], memo: std::mem::take(&mut self.memo) };
        std::mem::swap(&mut m.vals, &mut vec![]);
        let r = self.ts.eval_with(t, &s.mvals, &mut m.memo);
        self.memo = m.memo;
        r
    }
    fn add(&mut self, s: &mut State, c: T) {
        if self.ts.as_const(c).is_some() || s.known.get(&c) == Some(&1) {
            return;
        }
        let n = self.ts.n(c);
        if n.op == Op::And {
            self.add(s, n.a);
            self.add(s, n.b);
            return;
        }
        if n.op == Op::Not && self.ts.op(n.a) == Op::Or {
            let o = self.ts.n(n.a);
            let (x, y) = (self.ts.not(o.a), self.ts.not(o.b));
            self.add(s, x);
            self.add(s, y);
            return;
        }
        Rc::make_mut(&mut s.pc).push(c);
        self.learn(s, c);
    }
    fn learn(&mut self, s: &mut State, c: T) {
        let nc = self.ts.not(c);
        let k = Rc::make_mut(&mut s.known);
        k.insert(c, 1);
        k.insert(nc, 0);
        let n = self.ts.n(c);
        let mut fix = None;
        let mut bit = None;
        match n.op {
            Op::Extract => bit = Some((n.a, 0, 1 << n.k)),
            Op::Not if self.ts.op(n.a) == Op::Extract => {
                let x = self.ts.n(n.a);
                bit = Some((x.a, 1 << x.k, 0));
            }
            Op::Eq => {
                if let (x, Some(v)) = (n.a, self.ts.as_const(n.b)) {
                    let xn = self.ts.n(x);
                    let m = mask(xn.w);
                    bit = Some(if xn.op == Op::Extract { (xn.a, (m & !v) << xn.k, v << xn.k) } else { (x, m & !v, v) });
                }
            }
            _ => {}
        }
        if let Some((x, z, o)) = bit {
            let e = Rc::make_mut(&mut s.bits).entry(x).or_insert((0, 0));
            e.0 |= z;
            e.1 |= o;
        }
        match n.op {
            Op::Var => fix = Some(n.k as u32),
            Op::Not => {
                let x = self.ts.n(n.a);
                if x.op == Op::Var {
                    fix = Some(x.k as u32);
                }
            }
            Op::Eq => {
                let (a, b) = (n.a, n.b);
                let (x, v) = if let Some(v) = self.ts.as_const(b) {
                    (a, v)
                } else if let Some(v) = self.ts.as_const(a) {
                    (b, v)
                } else {
                    return;
                };
                k.insert(x, v);
                let xn = self.ts.n(x);
                if xn.op == Op::Var {
                    fix = Some(xn.k as u32);
                }
            }
            _ => {}
        }
        if let Some(v) = fix {
            Rc::make_mut(&mut s.fixed).insert(v);
        }
    }
    fn assume(&mut self, s: &mut State, c: T, v: bool) {
        let c = if v { c } else { self.ts.not(c) };
        self.add(s, c);
    }
    fn resolve(&mut self, s: &State, t: T) -> Option<u128> {
        if let Some(k) = self.ts.as_const(t) {
            return Some(k);
        }
        if let Some(&k) = s.known.get(&t) {
            return Some(k);
        }
        if self.ts.dom_root(t).is_some() || self.ts.w(t) == 1 || self.ts.domain(t).is_some() {
            let mut fuel = 200;
            if let Some(k) = self.ts.fold(t, &s.known, &mut FxMap::default(), &mut fuel) {
                return Some(k);
            }
        }
        let vs = self.ts.vars_of(t);
        let vs = self.ts.varsets[vs as usize].clone();
        if !s.fixed.is_empty() && vs.iter().all(|v| s.fixed.contains(v)) {
            return Some(self.eval(s, t));
        }
        None
    }
    /// Is pc && c satisfiable?  Returns a full model when it is.
    fn sat(&mut self, s: &State, c: T) -> R<Option<Vec<u128>>> {
        self.sat_(s, c, false)
    }
    /// is it unsatisfiable whatever the path, as far as a short attempt shows
    fn alone_(&mut self, q: T, ms: u64) -> bool {
        match self.alone.get(&q) {
            Some(&(true, _)) => {
                self.cache_hits += 1;
                return true;
            }
            Some(&(_, tried)) if tried >= ms => return false,
            _ if ms == 0 => return false,
            _ => {}
        }
        let (r, t) = match self.sol.check_short(&self.ts, &[q], &[], ms) {
            Res::Unsat => (true, u64::MAX),
            Res::Sat(_) => (false, u64::MAX),
            _ => (false, ms),
        };
        self.alone.insert(q, (r, t));
        r
    }
    /// the cases of a disjunction (also of a negated conjunction)
    fn disjuncts(&mut self, c: T) -> Vec<T> {
        let mut out = vec![];
        let mut todo = vec![(c, true)];
        while let Some((c, pos)) = todo.pop() {
            let n = self.ts.nodes[c as usize];
            match (n.op, pos) {
                (Op::Not, _) => todo.push((n.a, !pos)),
                (Op::Or, true) | (Op::And, false) => {
                    todo.push((n.a, pos));
                    todo.push((n.b, pos));
                }
                _ => {
                    let x = if pos { c } else { self.ts.not(c) };
                    out.push(x);
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    fn sat_(&mut self, s: &State, c: T, quick: bool) -> R<Option<Vec<u128>>> {
        let c0 = c;
        let c = if s.bits.is_empty() && s.known.is_empty() {
            c
        } else {
            let (kn, bi) = (s.known.clone(), s.bits.clone());
            self.ts.rewrite(c, &kn, &bi, &mut FxMap::default())
        };
        if self.ts.as_const(c) == Some(0) {
            self.rewritten += 1;
            return Ok(None);
        }
        // an assertion is often true without the path condition
        let alone = quick && s.pc.len() > 3;
        if alone && (self.alone_(c0, 0) || self.alone_(c, 0)) {
            return Ok(None);
        }
        let mut cs: Vec<T> = vec![c];
        let mut vars: FxSet<u32> = self.ts.varsets[self.ts.vars_of(c) as usize].iter().copied().collect();
        let mut rest: Vec<T> = s.pc.iter().copied().collect();
        loop {
            let n0 = rest.len();
            let mut keep = Vec::with_capacity(rest.len());
            for &p in &rest {
                let vs = &self.ts.varsets[self.ts.vars_of(p) as usize];
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter().copied());
                    cs.push(p);
                } else {
                    keep.push(p);
                }
            }
            rest = keep;
            if rest.len() == n0 {
                break;
            }
        }
        cs.sort_unstable();
        cs.dedup();
        let r = match self.qcache.get(&cs) {
            Some(r) => {
                self.cache_hits += 1;
                r.clone()
            }
            None => {
                let left = self.cfg.time_limit - self.start.elapsed().as_secs_f64();
                if left <= 0.0 {
                    return Err(Stop::Fatal(format!("time limit exceeded ({} paths, {} open)", self.paths, self.work.len() + 1)));
                }
                self.sol.limit = ((left + 5.0) * 1000.0) as u64;
                let mut vl: Vec<u32> = vars.into_iter().collect();
                vl.sort_unstable();
                if self.cfg.trace {
                    eprintln!("Q {} | {}", self.stack(s)[0], self.ts.show(c, 5));
                }
                let t0 = Instant::now();
                let mut ans = Res::Unknown(String::new());
                if alone {
                    for (full, single) in [(400, 1500), (4000, 15000)] {
                        ans = self.sol.check_short(&self.ts, &cs, &vl, full);
                        if let Res::Unknown(_) = ans {
                            if self.alone_(c0, single) || self.alone_(c, single) {
                                return Ok(None);
                            }
                            // a disjunction, case by case
                            let ds = if single > 1500 { self.disjuncts(c0) } else { vec![] };
                            if ds.len() > 1 {
                                for d in ds {
                                    let r = self.sat_(s, d, true)?;
                                    if r.is_some() {
                                        return Ok(r);
                                    }
                                }
                                return Ok(None);
                            }
                        } else {
                            break;
                        }
                    }
                }
                if let Res::Unknown(_) = ans {
                    ans = self.sol.check(&self.ts, &cs, &vl);
                }
                if self.cfg.trace {
                    eprintln!("A {:.3} {}", t0.elapsed().as_secs_f64(), matches!(ans, Res::Sat(_)));
                }
                let r = match ans {
                    Res::Unsat => None,
                    Res::Sat(v) => {
                        // the model must satisfy the query under our own evaluator
                        let mut mv = vec![0u128; self.ts.nvars as usize];
                        for &(i, x) in &v {
                            mv[i as usize] = x;
                        }
                        let mut memo = FxMap::default();
                        for &c in &cs {
                            if self.ts.eval_with(c, &mv, &mut memo) != 1 {
                                return Err(Stop::Fatal(format!("solver model does not satisfy {}", self.ts.show(c, 6))));
                            }
                        }
                        Some(Rc::new(v))
                    }
                    Res::Unknown(e) => return Err(Stop::Fatal(format!("solver gave no answer ({}) on {} constraints", e, cs.len()))),
                };
                self.qcache.insert(cs, r.clone());
                r
            }
        };
        Ok(r.map(|v| {
            let mut mv = (*s.mvals).clone();
            mv.resize(self.ts.nvars as usize, 0);
            for &(i, x) in v.iter() {
                mv[i as usize] = x;
            }
            mv
        }))
    }
    /// the value, replaced by a constant where the path fixes it
    #[inline]
    fn kn(&self, s: &State, v: &Val) -> Val {
        if let Val::T(t) = v {
            let k = if self.ts.domain(*t).is_some() {
                let mut fuel = 60;
                self.ts.fold(*t, &s.known, &mut FxMap::default(), &mut fuel)
            } else {
                s.known.get(t).copied()
            };
            if let Some(k) = k {
                return kv(k, self.ts.w(*t));
            }
        }
        v.clone()
    }
    fn decide(&mut self, s: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.resolve(s, c) {
            return Ok(k == 1);
        }
        if let Some(r) = self.ts.dom_root(c) {
            // a function of a term of few values: split on that term
            self.conc(s, &Val::T(r))?;
            if let Some(k) = self.resolve(s, c) {
                return Ok(k == 1);
            }
        }
        self.decide_raw(s, c)
    }
    fn decide_raw(&mut self, s: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.resolve(s, c) {
            return Ok(k == 1);
        }
        let v = self.eval(s, c) == 1;
        let other = if v { self.ts.not(c) } else { c };
        match self.sat(s, other)? {
            None => {
                let cc = if v { c } else { self.ts.not(c) };
                // implied: remember without growing the path condition
                self.learn(s, cc);
                Ok(v)
            }
            Some(m) => Err(Stop::Fork(c, v, m)),
        }
    }
    fn decide_v(&mut self, s: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(x & 1 == 1),
            Val::T(t) => self.decide(s, *t),
            _ => Err(Stop::Fatal("bad condition".into())),
        }
    }
    /// one path for every possible value of a term of few values
    fn split(&mut self, s: &mut State, t: T) -> R<u128> {
        let dom = self.ts.domain(t).unwrap().clone();
        let here = self.eval(s, t);
        let mut alts = vec![];
        {
            let c = self.ts.eq_expand(t, here, &mut FxMap::default());
            let nc = self.ts.not(c);
            if self.sat(s, nc)?.is_none() {
                self.learn(s, c);
                Rc::make_mut(&mut s.known).insert(t, here);
                return Ok(here);
            }
        }
        for k in dom {
            let c = self.ts.eq_expand(t, k, &mut FxMap::default());
            let m = if k == here {
                Some((*s.mvals).clone())
            } else {
                match self.resolve(s, c) {
                    Some(0) => None,
                    _ => self.sat(s, c)?,
                }
            };
            if let Some(m) = m {
                alts.push((c, k, m));
            }
        }
        if alts.len() == 1 {
            let (c, k, _) = alts.pop().unwrap();
            self.learn(s, c);
            Rc::make_mut(&mut s.known).insert(t, k);
            return Ok(k);
        }
        Err(Stop::Split(t, alts))
    }
    fn conc(&mut self, s: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::T(t) => {
                if let Some(k) = self.resolve(s, *t) {
                    return Ok(k as u64);
                }
                if let Some(r) = self.ts.dom_root(*t) {
                    if r == *t {
                        return self.split(s, r).map(|k| k as u64);
                    } else {
                        self.conc(s, &Val::T(r))?;
                        if let Some(k) = self.resolve(s, *t) {
                            return Ok(k as u64);
                        }
                    }
                }
                let k = self.eval(s, *t);
                let w = self.ts.w(*t);
                let kt = self.ts.konst(k, w);
                let c = self.ts.eq(*t, kt);
                match self.decide_raw(s, c)? {
                    true => {
                        Rc::make_mut(&mut s.known).insert(*t, k);
                        Ok(k as u64)
                    }
                    false => Err(Stop::Fatal("concretization disagrees with model".into())),
                }
            }
            Val::A(_) => Err(Stop::Fatal("aggregate concretized".into())),
        }
    }

    // ------------------------------------------------------------- memory
    fn gobj(&mut self, g: usize) -> Rc<Obj> {
        if let Some(o) = &self.gro[g] {
            return o.clone();
        }
        let mut o = Obj::new(self.m.globals[g].size, false);
        if let Some((ty, v)) = self.m.global_init(g) {
            Self::put_const(&mut o.data, 0, &ty, &v);
        }
        let r = Rc::new(o);
        self.gro[g] = Some(r.clone());
        r
    }
    fn put_const(d: &mut [u8], off: usize, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Struct(fs, _), Val::A(vs)) => {
                for (i, f) in fs.iter().enumerate() {
                    Self::put_const(d, off + ty.field_off(i) as usize, f, &vs[i]);
                }
            }
            (Ty::Arr(t, _), Val::A(vs)) | (Ty::Vec(t, _), Val::A(vs)) => {
                let n = t.size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    Self::put_const(d, off + i * n, t, x);
                }
            }
            (_, Val::C(x)) => {
                let n = ty.store_size() as usize;
                d[off..off + n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
            }
            (_, Val::W(x)) => {
                let n = ty.store_size() as usize;
                d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("put_const"),
        }
    }
    fn gidx(&self, addr: u64) -> Option<usize> {
        let g = &self.m.globals;
        let i = g.partition_point(|x| x.addr <= addr);
        if i == 0 {
            return None;
        }
        let x = &g[i - 1];
        if addr - x.addr <= x.size {
            Some(i - 1)
        } else {
            None
        }
    }
    /// object containing [addr, addr+n)
    fn robj(&mut self, s: &mut State, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let (base, o) = self.find_obj(s, addr).ok_or_else(|| Stop::Viol("memory".into(), format!("access to invalid memory {:#x}", addr)))?;
        let off = addr - base;
        if off + n > o.data.len() as u64 {
            return Err(Stop::Viol("memory".into(), format!("out-of-bounds read of {} bytes at {}/{}", n, off, o.data.len())));
        }
        Ok((o, off as usize))
    }
    fn find_obj(&mut self, s: &mut State, addr: u64) -> Option<(u64, Rc<Obj>)> {
        if addr >= STACK_BASE {
            let i = Mem::find(&s.mem.stack, usize::MAX, addr)?;
            return Some((s.mem.stack[i].0, s.mem.stack[i].1.clone()));
        }
        if addr >= HEAP_BASE {
            let i = Mem::find(&s.mem.heap, s.mem.hit, addr)?;
            s.mem.hit = i;
            return Some((s.mem.heap[i].0, s.mem.heap[i].1.clone()));
        }
        if addr >= GLOB_BASE && addr < self.glob_end {
            let g = self.gidx(addr)?;
            let base = self.m.globals[g].addr;
            if let Ok(i) = s.mem.globals.binary_search_by_key(&(g as u32), |x| x.0) {
                return Some((base, s.mem.globals[i].1.clone()));
            }
            return Some((base, self.gobj(g)));
        }
        None
    }
    fn with_w<X>(&mut self, s: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> X) -> R<X> {
        let slot: &mut (u64, Rc<Obj>);
        let mut tmp;
        if addr >= STACK_BASE {
            let i = Mem::find(&s.mem.stack, usize::MAX, addr).ok_or_else(|| bad(addr))?;
            slot = &mut s.mem.stack[i];
        } else if addr >= HEAP_BASE {
            let i = Mem::find(&s.mem.heap, s.mem.hit, addr).ok_or_else(|| bad(addr))?;
            s.mem.hit = i;
            slot = &mut s.mem.heap[i];
        } else if addr >= GLOB_BASE && addr < self.glob_end {
            let g = self.gidx(addr).ok_or_else(|| bad(addr))?;
            let base = self.m.globals[g].addr;
            if self.m.globals[g].is_const {
                return Err(Stop::Viol("memory".into(), format!("write to constant {}", self.m.globals[g].name)));
            }
            let i = match s.mem.globals.binary_search_by_key(&(g as u32), |x| x.0) {
                Ok(i) => i,
                Err(i) => {
                    let o = self.gobj(g);
                    s.mem.globals.insert(i, (g as u32, o));
                    i
                }
            };
            tmp = (base, s.mem.globals[i].1.clone());
            s.mem.globals[i].1 = Rc::new(Obj { data: vec![], sym: None, heap: false });
            let r;
            {
                let off = (addr - base) as usize;
                if off as u64 + n > tmp.1.data.len() as u64 {
                    return Err(Stop::Viol("memory".into(), "out-of-bounds write to global".into()));
                }
                r = f(Rc::make_mut(&mut tmp.1), off);
            }
            s.mem.globals[i].1 = tmp.1;
            return Ok(r);
        } else {
            return Err(bad(addr));
        }
        let off = addr - slot.0;
        if off + n > slot.1.data.len() as u64 {
            return Err(Stop::Viol("memory".into(), format!("out-of-bounds write of {} bytes at {}/{}", n, off, slot.1.data.len())));
        }
        Ok(f(Rc::make_mut(&mut slot.1), off as usize))
    }
    fn obj_read(&mut self, o: &Obj, off: usize, n: usize, w: u16) -> Val {
        if !o.has_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Val::C(u64::from_le_bytes(b) & m64(w));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return kv(u128::from_le_bytes(b), w);
        }
        let sy = o.sym.as_ref().unwrap();
        let f = sy[off];
        if f.t != 0 && f.k == 0 {
            let tw = self.ts.w(f.t);
            if (1..n).all(|i| sy[off + i].t == f.t && sy[off + i].k == i as u16) && tw as usize <= 8 * n && tw as usize > 8 * (n - 1) {
                // whole term
                if tw == w {
                    return from_t(&self.ts, f.t);
                }
            }
        }
        let mut acc: Option<T> = None;
        let mut i = 0;
        while i < n {
            let b = sy[off + i];
            let piece;
            if b.t == 0 {
                piece = self.ts.konst(o.data[off + i] as u128, 8);
                i += 1;
            } else {
                let tw = self.ts.w(b.t);
                let mut j = 1;
                while i + j < n && sy[off + i + j].t == b.t && sy[off + i + j].k == b.k + j as u16 {
                    j += 1;
                }
                let lo = b.k * 8;
                let hi = (lo + 8 * j as u16).min(tw) - 1;
                let e = self.ts.extract(b.t, hi, lo);
                piece = self.ts.zext(e, 8 * j as u16);
                i += j;
            }
            acc = Some(match acc {
                None => piece,
                Some(a) => self.ts.concat(piece, a),
            });
        }
        let mut t = acc.unwrap();
        if self.ts.w(t) > w {
            t = self.ts.trunc(t, w);
        }
        from_t(&self.ts, t)
    }
    fn obj_write(ts: &Terms, o: &mut Obj, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(x) => {
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].copy_from_slice(&(*x as u128).to_le_bytes()[..n]);
                }
                o.clear_sym(off, n);
            }
            Val::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                o.clear_sym(off, n);
            }
            Val::T(t) => {
                let bytes = (ts.w(*t) as usize).div_ceil(8);
                for i in 0..n {
                    if i < bytes {
                        o.set_sym(off + i, SymB { t: *t, k: i as u16 });
                    } else {
                        o.data[off + i] = 0;
                        o.set_sym(off + i, NOSYM);
                    }
                }
            }
            Val::A(_) => panic!("obj_write aggregate"),
        }
    }
    fn load_ty(&mut self, o: &Obj, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(fs, _) => {
                let v = (0..fs.len()).map(|i| self.load_ty(o, off + ty.field_off(i) as usize, &fs[i])).collect();
                Val::A(Rc::new(v))
            }
            Ty::Arr(t, n) => {
                let v = (0..*n).map(|i| self.load_ty(o, off + (i * t.size()) as usize, t)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Vec(t, _) if t.bits() % 8 != 0 => {
                let n = ty.store_size() as usize;
                let v = self.obj_read(o, off, n, (n * 8) as u16);
                let x = mk(&mut self.ts, &v, (n * 8) as u16);
                self.unflat(ty, x)
            }
            Ty::Vec(t, n) => {
                let v = (0..*n).map(|i| self.load_ty(o, off + (i as u64 * t.size()) as usize, t)).collect();
                Val::A(Rc::new(v))
            }
            _ => self.obj_read(o, off, ty.store_size() as usize, ty.bits()),
        }
    }
    fn store_ty(ts: &Terms, o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
        match ty {
            Ty::Struct(fs, _) => {
                if let Val::A(vs) = v {
                    for i in 0..fs.len() {
                        Self::store_ty(ts, o, off + ty.field_off(i) as usize, &fs[i], &vs[i]);
                    }
                }
            }
            Ty::Arr(t, _) | Ty::Vec(t, _) => {
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        Self::store_ty(ts, o, off + i * t.size() as usize, t, x);
                    }
                }
            }
            _ => Self::obj_write(ts, o, off, ty.store_size() as usize, v),
        }
    }
    fn load(&mut self, s: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        let a = match p {
            Val::C(a) => *a,
            Val::T(t) => {
                if let Some(k) = self.resolve(s, *t) {
                    k as u64
                } else {
                    return self.load_symaddr(s, *t, ty);
                }
            }
            _ => return Err(Stop::Fatal("bad address".into())),
        };
        let (o, off) = self.robj(s, a, n)?;
        Ok(self.load_ty(&o, off, ty))
    }
    fn load_symaddr(&mut self, s: &mut State, t: T, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        let a0 = self.eval(s, t) as u64;
        let (base, o) = self.find_obj(s, a0).ok_or_else(|| bad(a0))?;
        let size = o.data.len() as u64;
        if a0 - base + n > size {
            return Err(Stop::Viol("memory".into(), "out-of-bounds read".into()));
        }
        let bt = self.ts.konst(base as u128, 64);
        let off = self.ts.sub(t, bt);
        let lim = self.ts.konst((size - n) as u128, 64);
        let inb = self.ts.ule(off, lim);
        if !self.decide(s, inb)? {
            return Err(Stop::Fatal("address decision".into()));
        }
        if !matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) {
            let a = self.conc(s, &Val::T(t))?;
            let (o, off) = self.robj(s, a, n)?;
            return Ok(self.load_ty(&o, off, ty));
        }
        let kz = self.ts.kz[off as usize] as u64;
        let ko = self.ts.ko[off as usize] as u64;
        let mut cand = vec![];
        let lo = self.ts.umin(off) as u64;
        let hi = (self.ts.umax(off) as u64).min(size - n);
        let step = 1u64 << (kz | ko).trailing_ones().min(6);
        let first = ko & (step - 1);
        let mut k = lo / step * step + first;
        if k < lo {
            k += step;
        }
        while k <= hi {
            if k & kz == 0 && k & ko == ko {
                cand.push(k);
            }
            if cand.len() > 4096 {
                let a = self.conc(s, &Val::T(t))?;
                let (o, off) = self.robj(s, a, n)?;
                return Ok(self.load_ty(&o, off, ty));
            }
            k += step;
        }
        let w = ty.bits();
        let vals: Vec<T> = cand
            .iter()
            .map(|&k| {
                let v = self.load_ty(&o, k as usize, ty);
                mk(&mut self.ts, &v, w)
            })
            .collect();
        let r = self.mux(off, &cand, &vals);
        Ok(from_t(&self.ts, r))
    }
    fn mux(&mut self, off: T, cand: &[u64], vals: &[T]) -> T {
        if vals.iter().all(|v| *v == vals[0]) {
            return vals[0];
        }
        if cand.len() <= 8 {
            let mut r = vals[vals.len() - 1];
            for i in (0..vals.len() - 1).rev() {
                let k = self.ts.konst(cand[i] as u128, 64);
                let c = self.ts.eq(off, k);
                r = self.ts.ite(c, vals[i], r);
            }
            return r;
        }
        let h = cand.len() / 2;
        let a = self.mux(off, &cand[..h], &vals[..h]);
        let b = self.mux(off, &cand[h..], &vals[h..]);
        let k = self.ts.konst(cand[h] as u128, 64);
        let c = self.ts.ult(off, k);
        self.ts.ite(c, a, b)
    }
    fn store(&mut self, s: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        let a = self.conc(s, p)?;
        let n = ty.store_size();
        if let Ty::Vec(t, _) = ty {
            // lanes that are no whole bytes are packed
            if t.bits() % 8 != 0 {
                let x = self.flat(ty, v);
                let w = (n * 8) as u16;
                let x = if self.ts.w(x) < w { self.ts.zext(x, w) } else { x };
                let x = from_t(&self.ts, x);
                return self.store(s, &Val::C(a), &Ty::Int(w), &x);
            }
        }
        // fold terms already fixed on this path
        let tsp: *const Terms = &self.ts;
        self.with_w(s, a, n, |o, off| Self::store_ty(unsafe { &*tsp }, o, off, ty, v))
    }
    fn copy(&mut self, s: &mut State, d: u64, a: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (src, so) = self.robj(s, a, n)?;
        let n = n as usize;
        self.with_w(s, d, n as u64, |o, off| {
            o.data[off..off + n].copy_from_slice(&src.data[so..so + n]);
            if src.has_sym(so, n) {
                let len = o.data.len();
                let y = o.sym.get_or_insert_with(|| vec![NOSYM; len]);
                y[off..off + n].copy_from_slice(&src.sym.as_ref().unwrap()[so..so + n]);
            } else {
                o.clear_sym(off, n);
            }
        })
    }
    fn bytes(&mut self, s: &mut State, a: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.robj(s, a, n)?;
        Ok((0..n as usize).map(|i| self.obj_read(&o, off + i, 1, 8)).collect())
    }
    fn cstr(&mut self, s: &mut State, a: u64, n: u64) -> String {
        match self.bytes(s, a, n) {
            Ok(v) => String::from_utf8_lossy(&v.iter().map(|x| if let Val::C(c) = x { *c as u8 } else { b'?' }).collect::<Vec<_>>()).to_string(),
            Err(_) => "?".into(),
        }
    }

    // ---------------------------------------------------------- execution
    fn hit(&mut self, fid: u32, blk: u32) {
        *self.blk_hit.entry((fid, blk)).or_insert(0) += 1;
    }
    fn goto(&mut self, fr: &mut Frame, to: u32) {
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, ins) = &b.phis[0];
                let o = &ins.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = val(fr, o);
                fr.regs[*d as usize] = v;
            } else {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, ins) in &b.phis {
                    let o = &ins.iter().find(|x| x.0 == from).expect("phi edge").1;
                    tmp.push((*d, val(fr, o)));
                }
                for (d, v) in tmp {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.block = to;
        fr.ip = 0;
        if from != to {
            let fid = fr.fid;
            self.hit(fid, to);
        }
    }
    fn step_many(&mut self, s: &mut State) -> R<()> {
        for _ in 0..20000 {
            s.steps += 1;
            self.insts += 1;
            if let Some(f) = &self.cfg.itrace {
                let fr = s.frames.last().unwrap().clone();
                let hit = fr.f.name.contains(f.as_str());
                let inst = format!("{:?}", fr.f.blocks[fr.block as usize].insts[fr.ip as usize]);
                let n = s.frames.len();
                self.step(s)?;
                if hit {
                    let d = inst.split("dst: ").nth(1).and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse::<usize>().ok());
                    let r = match d {
                        Some(d) if s.frames.len() >= n => format!("{:?}", s.frames[n - 1].regs.get(d)),
                        _ => String::new(),
                    };
                    eprintln!("I {}:{}:{} {} => {}", &demangle(&fr.f.name), fr.block, fr.ip, inst, r);
                }
                continue;
            }
            self.step(s)?;
        }
        Ok(())
    }
    fn step(&mut self, s: &mut State) -> R<()> {
        let n = s.frames.len() - 1;
        let frp: *mut Frame = {
            let r = &mut s.frames[n];
            Rc::make_mut(r) as *mut Frame
        };
        // SAFETY: the frame is uniquely owned by this state; calls push new frames
        // only at the end of their handling and never touch `fr` afterwards.
        let fr: &mut Frame = unsafe { &mut *frp };
        let inst: &Inst = unsafe { &*(&fr.f.blocks[fr.block as usize].insts[fr.ip as usize] as *const Inst) };
        match inst {
            Inst::Bin { op, ty, dst, a, b } => {
                let r = {
                    let (x, y) = (vref(fr, a), vref(fr, b));
                    if let (Val::C(x), Val::C(y), Ty::Int(w)) = (x, y, ty) {
                        Val::C(cbin(*op, *x, *y, *w)?)
                    } else {
                        let (x, y) = (self.kn(s, x), self.kn(s, y));
                        if let (Val::C(x), Val::C(y), Ty::Int(w)) = (&x, &y, ty) {
                            Val::C(cbin(*op, *x, *y, *w)?)
                        } else {
                            self.bin(s, *op, ty, &x, &y)?
                        }
                    }
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::ICmp { p, ty, dst, a, b } => {
                let r = {
                    let (x, y) = (vref(fr, a), vref(fr, b));
                    match (x, y, ty) {
                        (Val::C(x), Val::C(y), Ty::Int(_) | Ty::Ptr) => Val::C(ccmp(*p, *x, *y, ty.bits()) as u64),
                        _ => {
                            let (x, y) = (self.kn(s, x), self.kn(s, y));
                            self.icmp(*p, ty, &x, &y)
                        }
                    }
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::FCmp { p, ty, dst, a, b } => {
                let w = ty.bits();
                let x = mk(&mut self.ts, vref(fr, a), w);
                let y = mk(&mut self.ts, vref(fr, b), w);
                let r = self.fcmp(*p, x, y);
                fr.regs[*dst as usize] = from_t(&self.ts, r);
            }
            Inst::FNeg { ty, dst, a } => {
                let w = ty.bits();
                let x = mk(&mut self.ts, vref(fr, a), w);
                let k = self.ts.konst(1u128 << (w - 1), w);
                let r = self.ts.xor(x, k);
                fr.regs[*dst as usize] = from_t(&self.ts, r);
            }
            Inst::Cast { op, from, to, dst, a } => {
                let v = self.kn(s, vref(fr, a));
                let r = self.cast(*op, from, to, &v)?;
                fr.regs[*dst as usize] = r;
            }
            Inst::Select { cty, ty, dst, c, a, b } => {
                let cv = val(fr, c);
                let r = if let Ty::Vec(et, n) = cty {
                    let _ = et;
                    let (x, y) = (vecv(vref(fr, a)), vecv(vref(fr, b)));
                    let cs = vecv(&cv);
                    let ew = match ty {
                        Ty::Vec(t, _) => t.bits(),
                        _ => return Err(Stop::Fatal("vector select".into())),
                    };
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        out.push(self.ite(&cs[i], &x[i], &y[i], ew));
                    }
                    Val::A(Rc::new(out))
                } else {
                    match &cv {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                val(fr, a)
                            } else {
                                val(fr, b)
                            }
                        }
                        Val::T(t) => {
                            let x = self.kn(s, vref(fr, a));
                            let y = self.kn(s, vref(fr, b));
                            if x == y {
                                x
                            } else if *ty == Ty::Ptr || matches!(ty, Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..)) {
                                if self.decide(s, *t)? {
                                    x
                                } else {
                                    y
                                }
                            } else if let Some(k) = self.resolve(s, *t) {
                                if k == 1 {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let w = ty.bits();
                                self.ite(&cv, &x, &y, w)
                            }
                        }
                        _ => return Err(Stop::Fatal("select".into())),
                    }
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::Load { ty, dst, p } => {
                let pv = val(fr, p);
                let r = self.load(s, &pv, ty)?;
                fr.regs[*dst as usize] = r;
            }
            Inst::Store { ty, v, p } => {
                let pv = val(fr, p);
                let vv = val(fr, v);
                self.store(s, &pv, ty, &vv)?;
            }
            Inst::Gep { dst, p, off, idx } => {
                let r = {
                    let base = vref(fr, p);
                    let mut conc = if let Val::C(b) = base { Some(b.wrapping_add(*off as u64)) } else { None };
                    if let Some(mut a) = conc {
                        for (o, w, sc) in idx {
                            match vref(fr, o) {
                                Val::C(k) => a = a.wrapping_add(sx(*k, *w).wrapping_mul(*sc) as u64),
                                _ => {
                                    conc = None;
                                    break;
                                }
                            }
                        }
                        if conc.is_some() {
                            conc = Some(a);
                        }
                    }
                    match conc {
                        Some(a) => Val::C(a),
                        None => {
                            let mut t = mk(&mut self.ts, base, 64);
                            let k = self.ts.konst(*off as u64 as u128, 64);
                            t = self.ts.add(t, k);
                            for (o, w, sc) in idx {
                                let mut i = mk(&mut self.ts, vref(fr, o), *w);
                                i = self.ts.sext(i, 64);
                                let m = self.ts.konst(*sc as u64 as u128, 64);
                                let x = self.ts.mul(i, m);
                                t = self.ts.add(t, x);
                            }
                            from_t(&self.ts, t)
                        }
                    }
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::Alloca { dst, size, cnt, align } => {
                let c = val(fr, cnt);
                let c = self.conc(s, &c)?;
                let a = s.mem.alloca(size * c, *align);
                fr.regs[*dst as usize] = Val::C(a);
            }
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = val(fr, a);
                for &i in idx {
                    v = match &v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => return Err(Stop::Fatal("extractvalue".into())),
                    };
                }
                fr.regs[*dst as usize] = v;
            }
            Inst::InsertValue { dst, a, v, idx, .. } => {
                let mut base = val(fr, a);
                let x = val(fr, v);
                fn ins(b: &mut Val, idx: &[u32], x: Val) {
                    if idx.is_empty() {
                        *b = x;
                    } else if let Val::A(v) = b {
                        ins(&mut Rc::make_mut(v)[idx[0] as usize], &idx[1..], x);
                    } else {
                        panic!("insertvalue");
                    }
                }
                ins(&mut base, idx, x);
                fr.regs[*dst as usize] = base;
            }
            Inst::ExtractElem { dst, a, i } => {
                let k = val(fr, i);
                let k = self.conc(s, &k)?;
                let v = vecv(vref(fr, a))[k as usize].clone();
                fr.regs[*dst as usize] = v;
            }
            Inst::InsertElem { dst, a, v, i, .. } => {
                let k = val(fr, i);
                let k = self.conc(s, &k)?;
                let mut x = (*vecv(vref(fr, a))).clone();
                x[k as usize] = val(fr, v);
                fr.regs[*dst as usize] = Val::A(Rc::new(x));
            }
            Inst::Shuffle { dst, a, b, mask, .. } => {
                let x = vecv(vref(fr, a));
                let y = vecv(vref(fr, b));
                let v = mask
                    .iter()
                    .map(|m| match m {
                        None => Val::C(0),
                        Some(k) => {
                            let k = *k as usize;
                            if k < x.len() {
                                x[k].clone()
                            } else {
                                y[k - x.len()].clone()
                            }
                        }
                    })
                    .collect();
                fr.regs[*dst as usize] = Val::A(Rc::new(v));
            }
            Inst::Rmw { op, ty, dst, p, v } => {
                let pv = val(fr, p);
                let a = self.conc(s, &pv)?;
                let old = self.load(s, &Val::C(a), ty)?;
                let x = val(fr, v);
                let new = match *op {
                    "xchg" => x,
                    "add" => self.bin(s, Bin::Add, ty, &old, &x)?,
                    "sub" => self.bin(s, Bin::Sub, ty, &old, &x)?,
                    "and" => self.bin(s, Bin::And, ty, &old, &x)?,
                    "or" => self.bin(s, Bin::Or, ty, &old, &x)?,
                    "xor" => self.bin(s, Bin::Xor, ty, &old, &x)?,
                    _ => return Err(Stop::Fatal(format!("rmw {}", op))),
                };
                self.store(s, &Val::C(a), ty, &new)?;
                fr.regs[*dst as usize] = old;
            }
            Inst::CmpXchg { ty, dst, p, c, n } => {
                let pv = val(fr, p);
                let a = self.conc(s, &pv)?;
                let old = self.load(s, &Val::C(a), ty)?;
                let cv = val(fr, c);
                let eq = self.icmp(Pred::Eq, ty, &old, &cv);
                if self.decide_v(s, &eq)? {
                    let nv = val(fr, n);
                    self.store(s, &Val::C(a), ty, &nv)?;
                    fr.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::C(1)]));
                } else {
                    fr.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::C(0)]));
                }
            }
            Inst::Copy { dst, a } => {
                let v = val(fr, a);
                fr.regs[*dst as usize] = v;
            }
            Inst::Nop => {}
            Inst::Br(t) => {
                self.goto(fr, *t);
                return Ok(());
            }
            Inst::CondBr(c, t, e) => {
                let cv = val(fr, c);
                if let Val::T(ct) = &cv {
                    if t != e && self.cfg.merge && self.ts.dom_root(*ct).is_none() && self.resolve(s, *ct).is_none() && self.merge(s, fr, *ct, *t, *e)? {
                        return Ok(());
                    }
                }
                let b = self.decide_v(s, &cv)?;
                self.goto(fr, if b { *t } else { *e });
                return Ok(());
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = val(fr, v);
                let to = match &x {
                    Val::C(k) => cases.iter().find(|c| c.0 == *k as u128).map(|c| c.1).unwrap_or(*def),
                    Val::W(k) => cases.iter().find(|c| c.0 == **k).map(|c| c.1).unwrap_or(*def),
                    Val::T(t) => {
                        let t = *t;
                        if let Some(k) = self.resolve(s, t) {
                            cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def)
                        } else {
                            // fork per target: decide the disjunction of the model's target first
                            let k = self.eval(s, t);
                            let w = ty.bits();
                            let target = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            let cond = if target == *def {
                                let mut c = self.ts.tru();
                                for (k, bb) in cases {
                                    if bb != def {
                                        let kt = self.ts.konst(*k, w);
                                        let e = self.ts.ne(t, kt);
                                        c = self.ts.and(c, e);
                                    }
                                }
                                c
                            } else {
                                let mut c = self.ts.fls();
                                for (k, bb) in cases {
                                    if *bb == target {
                                        let kt = self.ts.konst(*k, w);
                                        let e = self.ts.eq(t, kt);
                                        c = self.ts.or(c, e);
                                    }
                                }
                                c
                            };
                            if self.decide(s, cond)? {
                                target
                            } else {
                                return Err(Stop::Fatal("switch decision".into()));
                            }
                        }
                    }
                    _ => return Err(Stop::Fatal("switch".into())),
                };
                self.goto(fr, to);
                return Ok(());
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|v| val(fr, v));
                let n = fr.nstack;
                let dst = fr.dst;
                s.mem.stack.truncate(n);
                s.frames.pop();
                if s.frames.is_empty() {
                    return Err(Stop::End);
                }
                let k = s.frames.len() - 1;
                let caller = Rc::make_mut(&mut s.frames[k]);
                if let (Some(d), Some(r)) = (dst, r) {
                    caller.regs[d as usize] = r;
                }
                self.after_call(caller);
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Viol("ub".into(), "unreachable executed".into())),
            Inst::Unsupported(x) => return Err(Stop::Fatal(format!("unsupported instruction {}", x))),
            Inst::Call { dst, ret, f, args, normal } => {
                let fid = match f {
                    Callee::Fn(i) => *i,
                    Callee::Asm => {
                        // cpuid/xgetbv: report no features
                        let r = Module::zero(ret);
                        if let Some(d) = dst {
                            fr.regs[*d as usize] = r;
                        }
                        fr.ip += 1;
                        return Ok(());
                    }
                    Callee::Ind(o) => {
                        let v = val(fr, o);
                        let a = self.conc(s, &v)?;
                        if a < FUNC_BASE || a >= GLOB_BASE || a % 16 != 0 {
                            return Err(Stop::Viol("memory".into(), "call through invalid pointer".into()));
                        }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                };
                let bi = self.classify(fid);
                if bi == Bi::Defined {
                    let func = self.m.func(fid).unwrap();
                    if s.frames.len() > 400 {
                        return Err(Stop::Fatal("call depth".into()));
                    }
                    let mut regs = Vec::with_capacity(func.nregs);
                    for (_, a) in args.iter().take(func.nparams) {
                        regs.push(val(fr, a));
                    }
                    regs.resize(func.nregs, Val::C(0));
                    let nf = Frame { regs, f: func, fid, block: 0, ip: 0, nstack: s.mem.stack.len(), dst: *dst };
                    self.hit(fid, 0);
                    s.frames.push(Rc::new(nf));
                    return Ok(());
                }
                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                for (_, a) in args {
                    av.push(val(fr, a));
                }
                let r = self.builtin(s, bi, fid, ret, args, &av)?;
                if let Some(d) = dst {
                    fr.regs[*d as usize] = r;
                }
                if let Some(nb) = normal {
                    self.goto(fr, *nb);
                    return Ok(());
                }
            }
        }
        fr.ip += 1;
        Ok(())
    }
    /// A branch around plain computation and stores ("if x < min { min = x }"): both ways are
    /// taken at once, the stores become conditional.
    fn merge(&mut self, s: &mut State, fr: &mut Frame, c: T, t: u32, e: u32) -> R<bool> {
        let f = fr.f.clone();
        let simple = |b: u32| -> Option<u32> {
            let bl = &f.blocks[b as usize];
            if bl.insts.len() > 16 || !bl.phis.is_empty() {
                return None;
            }
            let (last, rest) = bl.insts.split_last()?;
            for i in rest {
                match i {
                    Inst::Bin { op, ty, .. } => {
                        if !matches!(ty, Ty::Int(_)) || matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                            return None;
                        }
                    }
                    Inst::Store { ty, .. } if matches!(ty, Ty::Int(_) | Ty::F32 | Ty::F64) => {}
                    Inst::ICmp { ty, .. } if matches!(ty, Ty::Int(_)) => {}
                    Inst::Load { ty, .. } if matches!(ty, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) => {}
                    Inst::FCmp { .. } | Inst::Gep { .. } | Inst::Copy { .. } | Inst::Nop => {}
                    Inst::Cast { from, to, .. } if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) => {}
                    _ => return None,
                }
            }
            match last {
                Inst::Br(j) => Some(*j),
                _ => None,
            }
        };
        let stores = |b: u32| f.blocks[b as usize].insts.iter().any(|i| matches!(i, Inst::Store { .. }));
        let (jt, je) = (simple(t), simple(e));
        let (join, sides): (u32, Vec<(u32, bool)>) = if jt == Some(e) && stores(t) {
            (e, vec![(t, true)])
        } else if je == Some(t) && stores(e) {
            (t, vec![(e, false)])
        } else if jt.is_some() && jt == je && (stores(t) || stores(e)) {
            (jt.unwrap(), vec![(t, true), (e, false)])
        } else {
            return Ok(false);
        };
        if join == fr.block {
            return Ok(false);
        }
        let keep: Vec<(u32, u32)> = vec![(fr.block, fr.ip)];
        let mut writes: Vec<(bool, u64, Ty, Val)> = vec![];
        let mut ok = true;
        'sides: for &(b, side) in &sides {
            let n0 = writes.len();
            for i in &f.blocks[b as usize].insts {
                let r: R<()> = (|| {
                    match i {
                        Inst::Bin { op, ty, dst, a, b } => {
                            let (x, y) = (self.kn(s, vref(fr, a)), self.kn(s, vref(fr, b)));
                            let r = self.bin(s, *op, ty, &x, &y)?;
                            fr.regs[*dst as usize] = r;
                        }
                        Inst::ICmp { p, ty, dst, a, b } => {
                            let (x, y) = (self.kn(s, vref(fr, a)), self.kn(s, vref(fr, b)));
                            fr.regs[*dst as usize] = self.icmp(*p, ty, &x, &y);
                        }
                        Inst::FCmp { p, ty, dst, a, b } => {
                            let w = ty.bits();
                            let x = mk(&mut self.ts, vref(fr, a), w);
                            let y = mk(&mut self.ts, vref(fr, b), w);
                            let r = self.fcmp(*p, x, y);
                            fr.regs[*dst as usize] = from_t(&self.ts, r);
                        }
                        Inst::Cast { op, from, to, dst, a } => {
                            let v = val(fr, a);
                            fr.regs[*dst as usize] = self.cast(*op, from, to, &v)?;
                        }
                        Inst::Copy { dst, a } => fr.regs[*dst as usize] = val(fr, a),
                        Inst::Gep { dst, p, off, idx } => {
                            let Val::C(mut a) = *vref(fr, p) else { return Err(Stop::End) };
                            a = a.wrapping_add(*off as u64);
                            for (o, w, sc) in idx {
                                let Val::C(k) = *vref(fr, o) else { return Err(Stop::End) };
                                a = a.wrapping_add(sx(k, *w).wrapping_mul(*sc) as u64);
                            }
                            fr.regs[*dst as usize] = Val::C(a);
                        }
                        Inst::Load { ty, dst, p } => {
                            let Val::C(a) = *vref(fr, p) else { return Err(Stop::End) };
                            let n = ty.store_size();
                            if writes[n0..].iter().any(|w| a < w.1 + w.2.store_size() && w.1 < a + n) {
                                return Err(Stop::End);
                            }
                            fr.regs[*dst as usize] = self.load(s, &Val::C(a), ty)?;
                        }
                        Inst::Store { ty, v, p } => {
                            let Val::C(a) = *vref(fr, p) else { return Err(Stop::End) };
                            self.load(s, &Val::C(a), ty)?;
                            writes.push((side, a, ty.clone(), val(fr, v)));
                        }
                        _ => {}
                    }
                    Ok(())
                })();
                if r.is_err() {
                    ok = false;
                    break 'sides;
                }
            }
        }
        // what the join block chooses by the way it was entered
        let here = fr.block;
        let from = |side: bool| sides.iter().find(|x| x.1 == side).map(|x| x.0).unwrap_or(here);
        let mut phis = vec![];
        if ok {
            for (d, ins) in &f.blocks[join as usize].phis {
                let x = val(fr, &ins.iter().find(|x| x.0 == from(true)).expect("phi edge").1);
                let y = val(fr, &ins.iter().find(|x| x.0 == from(false)).expect("phi edge").1);
                if x == y {
                    phis.push((*d, x));
                    continue;
                }
                let w = match (&x, &y) {
                    (Val::T(t), _) | (_, Val::T(t)) => self.ts.w(*t),
                    _ => {
                        ok = false;
                        break;
                    }
                };
                if matches!(x, Val::A(_)) || matches!(y, Val::A(_)) {
                    ok = false;
                    break;
                }
                phis.push((*d, self.ite(&Val::T(c), &x, &y, w)));
            }
        }
        if !ok {
            fr.block = keep[0].0;
            fr.ip = keep[0].1;
            return Ok(false);
        }
        for (side, a, ty, v) in writes {
            let old = self.load(s, &Val::C(a), &ty)?;
            let w = ty.bits();
            let new = if old == v {
                continue;
            } else if side {
                self.ite(&Val::T(c), &v, &old, w)
            } else {
                self.ite(&Val::T(c), &old, &v, w)
            };
            self.store(s, &Val::C(a), &ty, &new)?;
        }
        self.merges += 1;
        for (d, v) in phis {
            fr.regs[d as usize] = v;
        }
        for &(b, _) in &sides {
            let fid = fr.fid;
            self.hit(fid, b);
        }
        fr.block = join;
        fr.ip = 0;
        let fid = fr.fid;
        self.hit(fid, join);
        Ok(true)
    }
    fn after_call(&mut self, fr: &mut Frame) {
        let inst: &Inst = unsafe { &*(&fr.f.blocks[fr.block as usize].insts[fr.ip as usize] as *const Inst) };
        if let Inst::Call { normal: Some(n), .. } = inst {
            self.goto(fr, *n);
        } else {
            fr.ip += 1;
        }
    }
    fn ite(&mut self, c: &Val, x: &Val, y: &Val, w: u16) -> Val {
        match c {
            Val::C(k) => {
                if k & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            Val::T(t) => {
                if x == y {
                    return x.clone();
                }
                let a = mk(&mut self.ts, x, w);
                let b = mk(&mut self.ts, y, w);
                let r = self.ts.ite(*t, a, b);
                from_t(&self.ts, r)
            }
            _ => panic!("ite"),
        }
    }
    fn bin(&mut self, s: &mut State, op: Bin, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let Ty::Vec(t, n) = ty {
            let (a, b) = (vecv(x), vecv(y));
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.bin(s, op, t, &a[i], &b[i])?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y), Ty::Int(w)) = (x, y, ty) {
            return Ok(Val::C(cbin(op, *x, *y, *w)?));
        }
        let a = mk(&mut self.ts, x, w);
        let b = mk(&mut self.ts, y, w);
        let ts = &mut self.ts;
        let r = match op {
            Bin::Add => ts.add(a, b),
            Bin::Sub => ts.sub(a, b),
            Bin::Mul => ts.mul(a, b),
            Bin::UDiv => ts.udiv(a, b),
            Bin::SDiv => ts.sdiv(a, b),
            Bin::URem => ts.urem(a, b),
            Bin::SRem => ts.srem(a, b),
            Bin::And => ts.and(a, b),
            Bin::Or => ts.or(a, b),
            Bin::Xor => ts.xor(a, b),
            Bin::Shl => ts.shl(a, b),
            Bin::LShr => ts.lshr(a, b),
            Bin::AShr => ts.ashr(a, b),
            Bin::FAdd => ts.fbin(Op::FAdd, a, b),
            Bin::FSub => ts.fbin(Op::FSub, a, b),
            Bin::FMul => ts.fbin(Op::FMul, a, b),
            Bin::FDiv => ts.fbin(Op::FDiv, a, b),
            Bin::FRem => return Err(Stop::Fatal("frem".into())),
        };
        Ok(from_t(&self.ts, r))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, x: &Val, y: &Val) -> Val {
        if let Ty::Vec(t, n) = ty {
            let (a, b) = (vecv(x), vecv(y));
            let out = (0..*n as usize).map(|i| self.icmp(p, t, &a[i], &b[i])).collect();
            return Val::A(Rc::new(out));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (x, y) {
            return Val::C(ccmp(p, *x, *y, w) as u64);
        }
        let a = mk(&mut self.ts, x, w);
        let b = mk(&mut self.ts, y, w);
        let ts = &mut self.ts;
        let r = match p {
            Pred::Eq => ts.eq(a, b),
            Pred::Ne => ts.ne(a, b),
            Pred::Ult => ts.ult(a, b),
            Pred::Ule => ts.ule(a, b),
            Pred::Ugt => ts.ult(b, a),
            Pred::Uge => ts.ule(b, a),
            Pred::Slt => ts.slt(a, b),
            Pred::Sle => ts.sle(a, b),
            Pred::Sgt => ts.slt(b, a),
            Pred::Sge => ts.sle(b, a),
        };
        from_t(&self.ts, r)
    }
    fn fcmp(&mut self, p: u8, x: T, y: T) -> T {
        let ts = &mut self.ts;
        let nx = ts.fnan(x);
        let ny = ts.fnan(y);
        let uno = ts.or(nx, ny);
        let base = |ts: &mut Terms, k: u8| match k {
            1 => ts.fcmp(Op::FEq, x, y),
            2 => ts.fcmp(Op::FLt, y, x),
            3 => ts.fcmp(Op::FLe, y, x),
            4 => ts.fcmp(Op::FLt, x, y),
            5 => ts.fcmp(Op::FLe, x, y),
            _ => unreachable!(),
        };
        match p {
            0 => ts.fls(),
            1..=5 => base(ts, p),
            6 => {
                let e = base(ts, 1);
                let o = ts.or(e, uno);
                ts.not(o)
            }
            7 => ts.not(uno),
            8 => uno,
            9..=13 => {
                let b = base(ts, p - 8);
                ts.or(b, uno)
            }
            14 => {
                let e = base(ts, 1);
                ts.not(e)
            }
            _ => ts.tru(),
        }
    }
    fn flat(&mut self, ty: &Ty, v: &Val) -> T {
        // vector or scalar to a single bit-vector, little endian lanes
        match ty {
            Ty::Vec(t, n) => {
                let vs = vecv(v);
                let mut acc: Option<T> = None;
                for i in 0..*n as usize {
                    let x = mk(&mut self.ts, &vs[i], t.bits());
                    acc = Some(match acc {
                        None => x,
                        Some(a) => self.ts.concat(x, a),
                    });
                }
                acc.unwrap()
            }
            _ => mk(&mut self.ts, v, ty.bits()),
        }
    }
    fn unflat(&mut self, ty: &Ty, t: T) -> Val {
        match ty {
            Ty::Vec(e, n) => {
                let w = e.bits();
                let v = (0..*n as u16)
                    .map(|i| {
                        let x = self.ts.extract(t, (i + 1) * w - 1, i * w);
                        from_t(&self.ts, x)
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            _ => from_t(&self.ts, t),
        }
    }
    fn cast(&mut self, op: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if op == Cast::Bitcast {
            if let (Ty::Vec(..), _) | (_, Ty::Vec(..)) = (from, to) {
                let t = self.flat(from, v);
                return Ok(self.unflat(to, t));
            }
            return Ok(v.clone());
        }
        if let (Ty::Vec(f, n), Ty::Vec(t, _)) = (from, to) {
            let vs = vecv(v);
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.cast(op, f, t, &vs[i])?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::C(x) = v {
            if fw <= 64 && tw <= 64 {
                match op {
                    Cast::Trunc => return Ok(Val::C(x & m64(tw))),
                    Cast::ZExt | Cast::PtrInt => return Ok(Val::C(x & m64(tw.min(fw)))),
                    Cast::SExt => return Ok(Val::C(sx(*x, fw) as u64 & m64(tw))),
                    _ => {}
                }
            }
        }
        let a = mk(&mut self.ts, v, fw);
        let ts = &mut self.ts;
        let r = match op {
            Cast::Trunc => ts.trunc(a, tw),
            Cast::ZExt => ts.zext(a, tw),
            Cast::SExt => ts.sext(a, tw),
            Cast::PtrInt => {
                if tw > fw {
                    ts.zext(a, tw)
                } else {
                    ts.trunc(a, tw)
                }
            }
            Cast::FPTrunc => ts.fconv(Op::FPTrunc, a, tw),
            Cast::FPExt => ts.fconv(Op::FPExt, a, tw),
            Cast::UIToFP => ts.fconv(Op::UIToFP, a, tw),
            Cast::SIToFP => ts.fconv(Op::SIToFP, a, tw),
            Cast::FPToUI => ts.fconv(Op::FPToUISat, a, tw),
            Cast::FPToSI => ts.fconv(Op::FPToSISat, a, tw),
            Cast::Bitcast => unreachable!(),
        };
        Ok(from_t(&self.ts, r))
    }

    // ----------------------------------------------------------- builtins
    fn classify(&mut self, fid: u32) -> Bi {
        let i = fid as usize;
        if i >= self.bi.len() {
            self.bi.resize(i + 64, None);
        }
        if let Some(b) = self.bi[i] {
            return b;
        }
        let (name, defined) = {
            let fns = self.m.fns.borrow();
            (fns[i].name.clone(), fns[i].text.is_some())
        };
        let b = classify_name(&name, defined);
        self.bi[i] = Some(b);
        b
    }
    fn location(&mut self, s: &mut State, av: &[Val]) -> String {
        for v in av.iter().rev() {
            if let Val::C(a) = v {
                if *a >= GLOB_BASE && *a < self.glob_end {
                    if let Some(g) = self.gidx(*a) {
                        if self.m.globals[g].size == 24 && self.m.globals[g].is_const && self.m.globals[g].addr == *a {
                            let o = self.gobj(g);
                            let p = u64::from_le_bytes(o.data[0..8].try_into().unwrap());
                            let n = u64::from_le_bytes(o.data[8..16].try_into().unwrap());
                            let line = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                            if n < 400 && p >= GLOB_BASE && p < self.glob_end {
                                return format!("{}:{}", self.cstr(s, p, n).trim_end_matches('\0'), line);
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }
    fn pc64(&mut self, s: &mut State, v: &Val) -> R<u64> {
        self.conc(s, v)
    }
    fn builtin(&mut self, s: &mut State, bi: Bi, fid: u32, ret: &Ty, args: &[(Ty, Opd)], av: &[Val]) -> R<Val> {
        let w = if let Some((t, _)) = args.first() {
            match t {
                Ty::Int(w) => *w,
                Ty::F32 => 32,
                Ty::F64 | Ty::Ptr => 64,
                _ => 0,
            }
        } else {
            0
        };
        macro_rules! t {
            ($i:expr) => {
                mk(&mut self.ts, &av[$i], w)
            };
        }
        let name = || self.m.fns.borrow()[fid as usize].name.clone();
        Ok(match bi {
            Bi::Defined => unreachable!(),
            Bi::Unknown => return Err(Stop::Fatal(format!("call to unmodelled function {}", name()))),
            Bi::Panic => {
                let loc = self.location(s, av);
                let n = demangle(&name());
                return Err(Stop::Viol("panic".into(), format!("panic at {} ({})", loc, n)));
            }
            Bi::Abort => return Err(Stop::Viol("panic".into(), "abort".into())),
            Bi::Nop => Val::C(0),
            Bi::RetZero => Module::zero(ret),
            // what the code under test prints is accepted as a whole
            Bi::RetArg2 => av[2].clone(),
            // the function of that name, if it is one of the harness
            Bi::KeyCreate => {
                self.store(s, &av[0].clone(), &Ty::Int(32), &Val::C(1))?;
                Val::C(0)
            }
            Bi::DlSym => {
                let p = self.pc64(s, &av[1])?;
                let mut n = Vec::new();
                loop {
                    let v = self.load(s, &Val::C(p + n.len() as u64), &Ty::Int(8))?;
                    match self.pc64(s, &v)? {
                        0 => break,
                        c => n.push(c as u8),
                    }
                }
                let n = String::from_utf8_lossy(&n).to_string();
                let id = self.m.findex.borrow().get(&n).copied();
                match id {
                    Some(i) if self.m.fns.borrow()[i as usize].text.is_some() => Val::C(self.m.global_addr(&n)),
                    _ => Val::C(0),
                }
            }
            Bi::RetM1 => {
                s.errno = 38;
                Val::C(m64(ret.bits()))
            }
            Bi::Assume => Val::C(0),
            Bi::Expect => av[0].clone(),
            Bi::MemCpy | Bi::MemMove => {
                let n = self.pc64(s, &av[2])?;
                let d = self.pc64(s, &av[0])?;
                let a = self.pc64(s, &av[1])?;
                self.copy(s, d, a, n)?;
                av[0].clone()
            }
            Bi::MemSet => {
                let n = self.pc64(s, &av[2])?;
                let d = self.pc64(s, &av[0])?;
                if n > 0 {
                    let v = match &av[1] {
                        Val::C(x) => Val::C(*x & 0xff),
                        Val::T(t) if self.ts.w(*t) > 8 => {
                            let x = self.ts.trunc(*t, 8);
                            from_t(&self.ts, x)
                        }
                        v => v.clone(),
                    };
                    let tsp: *const Terms = &self.ts;
                    self.with_w(s, d, n, |o, off| {
                        if let Val::C(c) = v {
                            o.data[off..off + n as usize].fill(c as u8);
                            o.clear_sym(off, n as usize);
                        } else {
                            for i in 0..n as usize {
                                Self::obj_write(unsafe { &*tsp }, o, off + i, 1, &v);
                            }
                        }
                    })?;
                }
                av[0].clone()
            }
            Bi::Ctlz | Bi::Cttz => {
                let x = t!(0);
                let r = self.clz(x, w, bi == Bi::Ctlz);
                from_t(&self.ts, r)
            }
            Bi::Ctpop => {
                let x = t!(0);
                let mut r = self.ts.konst(0, w);
                for i in 0..w {
                    let b = self.ts.extract(x, i, i);
                    let b = self.ts.zext(b, w);
                    r = self.ts.add(r, b);
                }
                from_t(&self.ts, r)
            }
            Bi::Bswap => {
                let x = t!(0);
                let mut r: Option<T> = None;
                for i in 0..w / 8 {
                    let b = self.ts.extract(x, i * 8 + 7, i * 8);
                    r = Some(match r {
                        None => b,
                        Some(a) => self.ts.concat(a, b),
                    });
                }
                from_t(&self.ts, r.unwrap())
            }
            Bi::Bitrev => {
                let x = t!(0);
                let mut r: Option<T> = None;
                for i in 0..w {
                    let b = self.ts.extract(x, i, i);
                    r = Some(match r {
                        None => b,
                        Some(a) => self.ts.concat(a, b),
                    });
                }
                from_t(&self.ts, r.unwrap())
            }
            Bi::Fshl | Bi::Fshr => {
                let (a, b, c) = (t!(0), t!(1), t!(2));
                let wk = self.ts.konst(w as u128, w);
                let k = self.ts.urem(c, wk);
                let inv = self.ts.sub(wk, k);
                let z = self.ts.konst(0, w);
                let isz = self.ts.eq(k, z);
                let r = if bi == Bi::Fshl {
                    let h = self.ts.shl(a, k);
                    let l = self.ts.lshr(b, inv);
                    let o = self.ts.or(h, l);
                    self.ts.ite(isz, a, o)
                } else {
                    let h = self.ts.shl(a, inv);
                    let l = self.ts.lshr(b, k);
                    let o = self.ts.or(h, l);
                    self.ts.ite(isz, b, o)
                };
                from_t(&self.ts, r)
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let (a, b) = (t!(0), t!(1));
                let ts = &mut self.ts;
                let (r, o) = match bi {
                    Bi::UAddO => {
                        let r = ts.add(a, b);
                        (r, ts.ult(r, a))
                    }
                    Bi::USubO => {
                        let r = ts.sub(a, b);
                        (r, ts.ult(a, b))
                    }
                    Bi::UMulO => {
                        if w > 64 {
                            match (ts.as_const(a), ts.as_const(b)) {
                                (Some(x), Some(y)) => {
                                    let (r, o) = x.overflowing_mul(y);
                                    (ts.konst(r & mask(w), w), if o || r > mask(w) { ts.tru() } else { ts.fls() })
                                }
                                _ => return Err(Stop::Fatal("wide umulo".into())),
                            }
                        } else {
                            let (x, y) = (ts.zext(a, 2 * w), ts.zext(b, 2 * w));
                            let p = ts.mul(x, y);
                            let hi = ts.extract(p, 2 * w - 1, w);
                            let z = ts.konst(0, w);
                            (ts.trunc(p, w), ts.ne(hi, z))
                        }
                    }
                    Bi::SAddO => {
                        let r = ts.add(a, b);
                        let sa = ts.extract(a, w - 1, w - 1);
                        let sb = ts.extract(b, w - 1, w - 1);
                        let sr = ts.extract(r, w - 1, w - 1);
                        let e = ts.eq(sa, sb);
                        let d = ts.ne(sa, sr);
                        (r, ts.and(e, d))
                    }
                    Bi::SSubO => {
                        let r = ts.sub(a, b);
                        let sa = ts.extract(a, w - 1, w - 1);
                        let sb = ts.extract(b, w - 1, w - 1);
                        let sr = ts.extract(r, w - 1, w - 1);
                        let e = ts.ne(sa, sb);
                        let d = ts.ne(sa, sr);
                        (r, ts.and(e, d))
                    }
                    _ => {
                        if w > 64 {
                            return Err(Stop::Fatal("wide smulo".into()));
                        }
                        let (x, y) = (ts.sext(a, 2 * w), ts.sext(b, 2 * w));
                        let p = ts.mul(x, y);
                        let r = ts.trunc(p, w);
                        let e = ts.sext(r, 2 * w);
                        (r, ts.ne(e, p))
                    }
                };
                Val::A(Rc::new(vec![from_t(&self.ts, r), from_t(&self.ts, o)]))
            }
            Bi::UAddSat => {
                let (a, b) = (t!(0), t!(1));
                let r = self.ts.add(a, b);
                let o = self.ts.ult(r, a);
                let m = self.ts.konst(mask(w), w);
                let x = self.ts.ite(o, m, r);
                from_t(&self.ts, x)
            }
            Bi::USubSat => {
                let (a, b) = (t!(0), t!(1));
                let r = self.ts.sub(a, b);
                let o = self.ts.ult(a, b);
                let m = self.ts.konst(0, w);
                let x = self.ts.ite(o, m, r);
                from_t(&self.ts, x)
            }
            Bi::SAddSat | Bi::SSubSat => return Err(Stop::Fatal("signed saturation".into())),
            Bi::UMin | Bi::UMax | Bi::SMin | Bi::SMax => {
                if let Some((Ty::Vec(..), _)) = args.first() {
                    return Err(Stop::Fatal("vector min/max".into()));
                }
                let (a, b) = (t!(0), t!(1));
                if bi == Bi::UMax {
                    let r = self.ts.umax2(a, b);
                    return Ok(from_t(&self.ts, r));
                }
                let c = match bi {
                    Bi::UMin => self.ts.ult(a, b),
                    Bi::SMin => self.ts.slt(a, b),
                    _ => self.ts.slt(b, a),
                };
                let r = self.ts.ite(c, a, b);
                from_t(&self.ts, r)
            }
            Bi::Abs => {
                let a = t!(0);
                let z = self.ts.konst(0, w);
                let n = self.ts.sub(z, a);
                let c = self.ts.slt(a, z);
                let r = self.ts.ite(c, n, a);
                from_t(&self.ts, r)
            }
            Bi::UCmp | Bi::SCmp => {
                let (a, b) = (t!(0), t!(1));
                let rw = ret.bits();
                let (lt, gt) = if bi == Bi::UCmp { (self.ts.ult(a, b), self.ts.ult(b, a)) } else { (self.ts.slt(a, b), self.ts.slt(b, a)) };
                let m1 = self.ts.konst(mask(rw), rw);
                let o = self.ts.konst(1, rw);
                let z = self.ts.konst(0, rw);
                let x = self.ts.ite(gt, o, z);
                let r = self.ts.ite(lt, m1, x);
                from_t(&self.ts, r)
            }
            Bi::IsConst => Val::C(0),
            Bi::FToSiSat | Bi::FToUiSat => {
                let a = t!(0);
                let r = self.ts.fconv(if bi == Bi::FToSiSat { Op::FPToSISat } else { Op::FPToUISat }, a, ret.bits());
                from_t(&self.ts, r)
            }
            Bi::FMaxNum | Bi::FMinNum => {
                let (a, b) = (t!(0), t!(1));
                let na = self.ts.fnan(a);
                let nb = self.ts.fnan(b);
                let z = self.ts.konst(0, w);
                let nz = self.ts.konst(1u128 << (w - 1), w);
                // order -0 < +0
                let lt0 = self.ts.fcmp(Op::FLt, a, b);
                let az = self.ts.eq(a, nz);
                let bz = self.ts.eq(b, z);
                let zz = self.ts.and(az, bz);
                let lt = self.ts.or(lt0, zz);
                let r = if bi == Bi::FMaxNum { self.ts.ite(lt, b, a) } else { self.ts.ite(lt, a, b) };
                let r = self.ts.ite(nb, a, r);
                let r = self.ts.ite(na, b, r);
                from_t(&self.ts, r)
            }
            Bi::FAbs => {
                let a = t!(0);
                let m = self.ts.konst(mask(w) >> 1, w);
                let r = self.ts.and(a, m);
                from_t(&self.ts, r)
            }
            Bi::CopySign => {
                let (a, b) = (t!(0), t!(1));
                let x = self.ts.extract(a, w - 2, 0);
                let sgn = self.ts.extract(b, w - 1, w - 1);
                let r = self.ts.concat(sgn, x);
                from_t(&self.ts, r)
            }
            Bi::FLog | Bi::FFloor | Bi::FCeil | Bi::FTrunc | Bi::FSqrt | Bi::FRound | Bi::FExp | Bi::FPow | Bi::FLog2 | Bi::FLog10 | Bi::FMulAdd | Bi::IsFpClass => {
                if !av.iter().all(is_conc) {
                    if ret.bits() == w && matches!(bi, Bi::FFloor | Bi::FCeil | Bi::FTrunc | Bi::FRound) {
                        let a = t!(0);
                        let r = self.rounded(bi, a, w);
                        return Ok(from_t(&self.ts, r));
                    }
                    return Err(Stop::Fatal(format!("symbolic argument to {}", name())));
                }
                let x = if let Val::C(x) = av[0] { x } else { 0 };
                if w == 64 {
                    let f = f64::from_bits(x);
                    let g = if av.len() > 1 { if let Val::C(y) = av[1] { f64::from_bits(y) } else { 0.0 } } else { 0.0 };
                    let r = match bi {
                        Bi::FLog => f.ln(),
                        Bi::FLog2 => f.log2(),
                        Bi::FLog10 => f.log10(),
                        Bi::FFloor => f.floor(),
                        Bi::FCeil => f.ceil(),
                        Bi::FTrunc => f.trunc(),
                        Bi::FSqrt => f.sqrt(),
                        Bi::FRound => f.round(),
                        Bi::FExp => f.exp(),
                        Bi::FPow => f.powf(g),
                        _ => return Err(Stop::Fatal(name())),
                    };
                    Val::C(r.to_bits())
                } else {
                    let f = f32::from_bits(x as u32);
                    let r = match bi {
                        Bi::FFloor => f.floor(),
                        Bi::FCeil => f.ceil(),
                        Bi::FTrunc => f.trunc(),
                        Bi::FRound => f.round(),
                        Bi::FSqrt => f.sqrt(),
                        Bi::FLog => f.ln(),
                        Bi::FLog2 => f.log2(),
                        Bi::FLog10 => f.log10(),
                        _ => return Err(Stop::Fatal(name())),
                    };
                    Val::C(r.to_bits() as u64)
                }
            }
            Bi::LoadRel => {
                let b = self.pc64(s, &av[0])?;
                let o = self.pc64(s, &av[1])?;
                let v = self.load(s, &Val::C(b.wrapping_add(o)), &Ty::Int(32))?;
                let k = self.pc64(s, &v)?;
                Val::C(b.wrapping_add(sx(k, 32) as u64))
            }
            Bi::Tls => av[0].clone(),
            Bi::PtrMask => {
                let (a, b) = (t!(0), t!(1));
                let r = self.ts.and(a, b);
                from_t(&self.ts, r)
            }
            Bi::VReduce(k) => {
                let (ety, n) = match &args[0].0 {
                    Ty::Vec(t, n) => (t.clone(), *n as usize),
                    _ => return Err(Stop::Fatal("reduce".into())),
                };
                let vs = vecv(&av[0]);
                let mut r = vs[0].clone();
                for i in 1..n {
                    let op = match k {
                        0 => Bin::Or,
                        1 => Bin::And,
                        2 => Bin::Add,
                        _ => Bin::Xor,
                    };
                    r = self.bin(s, op, &ety, &r, &vs[i])?;
                }
                r
            }
            Bi::Malloc => {
                let n = self.pc64(s, &av[0])?;
                if n > 1 << 30 {
                    Val::C(0)
                } else {
                    Val::C(s.mem.malloc(n, 16))
                }
            }
            Bi::Calloc => {
                let a = self.pc64(s, &av[0])?;
                let b = self.pc64(s, &av[1])?;
                let n = a.saturating_mul(b);
                if n > 1 << 30 {
                    Val::C(0)
                } else {
                    Val::C(s.mem.malloc(n, 16))
                }
            }
            Bi::PosixMemalign => {
                let al = self.pc64(s, &av[1])?;
                let n = self.pc64(s, &av[2])?;
                let p = s.mem.malloc(n, al);
                self.store(s, &av[0], &Ty::Ptr, &Val::C(p))?;
                Val::C(0)
            }
            Bi::Realloc => {
                let p = self.pc64(s, &av[0])?;
                let n = self.pc64(s, &av[1])?;
                if n > 1 << 30 {
                    return Ok(Val::C(0));
                }
                let q = s.mem.malloc(n, 16);
                if p != 0 {
                    let (o, off) = self.robj(s, p, 0)?;
                    if off != 0 {
                        return Err(Stop::Viol("memory".into(), "realloc of interior pointer".into()));
                    }
                    let k = (o.data.len() as u64).min(n);
                    self.copy(s, q, p, k)?;
                    drop(o);
                    self.free(s, p)?;
                }
                Val::C(q)
            }
            Bi::Free => {
                let p = self.pc64(s, &av[0])?;
                if p != 0 {
                    self.free(s, p)?;
                }
                Val::C(0)
            }
            Bi::MemCmp | Bi::Bcmp => {
                let n = self.pc64(s, &av[2])?;
                let p = self.pc64(s, &av[0])?;
                let q = self.pc64(s, &av[1])?;
                let a = self.bytes(s, p, n)?;
                let b = self.bytes(s, q, n)?;
                let mut r = self.ts.konst(0, 32);
                for i in (0..n as usize).rev() {
                    if let (Val::C(x), Val::C(y)) = (&a[i], &b[i]) {
                        if x != y {
                            r = self.ts.konst(if x < y { mask(32) } else { 1 }, 32);
                        }
                        continue;
                    }
                    let x = mk(&mut self.ts, &a[i], 8);
                    let y = mk(&mut self.ts, &b[i], 8);
                    let e = self.ts.eq(x, y);
                    let d = if bi == Bi::Bcmp {
                        self.ts.konst(1, 32)
                    } else {
                        let lt = self.ts.ult(x, y);
                        let m = self.ts.konst(mask(32), 32);
                        let o = self.ts.konst(1, 32);
                        self.ts.ite(lt, m, o)
                    };
                    r = self.ts.ite(e, r, d);
                }
                if bi == Bi::Bcmp {
                    // normalise to 0/1
                    if let Some(k) = self.ts.as_const(r) {
                        r = self.ts.konst((k != 0) as u128, 32);
                    }
                }
                from_t(&self.ts, r)
            }
            Bi::StrLen => {
                let p = self.pc64(s, &av[0])?;
                let mut n = 0u64;
                loop {
                    let v = self.load(s, &Val::C(p + n), &Ty::Int(8))?;
                    if self.pc64(s, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            Bi::MemChr => {
                let p = self.pc64(s, &av[0])?;
                let c = self.pc64(s, &av[1])? & 0xff;
                let n = self.pc64(s, &av[2])?;
                let mut r = 0;
                for i in 0..n {
                    let v = self.load(s, &Val::C(p + i), &Ty::Int(8))?;
                    if self.pc64(s, &v)? == c {
                        r = p + i;
                        break;
                    }
                }
                Val::C(r)
            }
            Bi::Errno => {
                let g = self.m.gindex.get("tsym_errno").copied();
                match g {
                    Some(g) => Val::C(self.m.globals[g].addr),
                    None => return Err(Stop::Fatal("no tsym_errno".into())),
                }
            }
            Bi::GetEnv => Val::C(0),
            // ---- harness interface
            Bi::TAny => {
                let bits = self.pc64(s, &av[0])? as u16;
                if bits == 0 || bits > 64 {
                    return Err(Stop::Fatal("tsym_any width".into()));
                }
                let idx = s.inputs.len();
                // reuse the variable for the same input position and width across paths
                let v = self.input_var(idx, bits);
                Rc::make_mut(&mut s.inputs).push(Input { kind: 0, w: bits, t: v });
                if s.mvals.len() < self.ts.nvars as usize {
                    let same = self.memo_for == Rc::as_ptr(&s.mvals) as usize;
                    Rc::make_mut(&mut s.mvals).resize(self.ts.nvars as usize, 0);
                    if same {
                        self.memo_for = Rc::as_ptr(&s.mvals) as usize;
                    }
                }
                let z = self.ts.zext(v, 64);
                from_t(&self.ts, z)
            }
            Bi::TAssume => {
                let c = self.boolarg(&av[0]);
                match c {
                    Val::C(0) => return Err(Stop::Kill("assume")),
                    Val::C(_) => {}
                    Val::T(t) => {
                        if let Some(k) = self.resolve(s, t) {
                            if k == 0 {
                                return Err(Stop::Kill("assume"));
                            }
                        } else if self.eval(s, t) == 1 {
                            self.assume(s, t, true);
                        } else {
                            match self.sat(s, t)? {
                                None => return Err(Stop::Kill("assume")),
                                Some(m) => {
                                    s.mvals = Rc::new(m);
                                    self.memo_for = 0;
                                    self.assume(s, t, true);
                                }
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                Val::C(0)
            }
            Bi::TAssert => {
                let p = self.pc64(s, &av[1])?;
                let n = self.pc64(s, &av[2])?;
                self.asserts += 1;
                let c = self.boolarg(&av[0]);
                match c {
                    Val::C(0) => {
                        let msg = self.cstr(s, p, n);
                        return Err(Stop::Viol("assert".into(), msg));
                    }
                    Val::C(_) => {}
                    Val::T(t) => match self.resolve(s, t) {
                        Some(1) => {}
                        Some(_) => {
                            let msg = self.cstr(s, p, n);
                            return Err(Stop::Viol("assert".into(), msg));
                        }
                        None => {
                            let nt = self.ts.not(t);
                            match self.sat_(s, nt, true)? {
                                None => {
                                    self.learn(s, t);
                                }
                                Some(m) => {
                                    let msg = self.cstr(s, p, n);
                                    self.violate(s, "assert".into(), msg, &m);
                                    // continue on the paths where it holds, if any
                                    if self.eval(s, t) == 1 {
                                        self.assume(s, t, true);
                                    } else {
                                        match self.sat(s, t)? {
                                            None => return Err(Stop::Kill("assert")),
                                            Some(m) => {
                                                s.mvals = Rc::new(m);
                                                self.memo_for = 0;
                                                self.assume(s, t, true);
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    },
                    _ => unreachable!(),
                }
                Val::C(0)
            }
            Bi::TFail => {
                let p = self.pc64(s, &av[0])?;
                let n = self.pc64(s, &av[1])?;
                let msg = self.cstr(s, p, n);
                return Err(Stop::Viol("assert".into(), msg));
            }
            Bi::TReach => {
                let p = self.pc64(s, &av[0])?;
                let n = self.pc64(s, &av[1])?;
                let msg = self.cstr(s, p, n);
                *self.reach.entry(msg).or_insert(0) += 1;
                Val::C(0)
            }
            Bi::TObserve => {
                Rc::make_mut(&mut s.obs).push(av[0].clone());
                Val::C(0)
            }
            Bi::TConc => Val::C(self.pc64(s, &av[0])?),
            Bi::TIsSym => Val::C(!is_conc(&av[0]) as u64),
            Bi::TParam => {
                let i = self.pc64(s, &av[0])? as usize;
                match self.cfg.params.get(i) {
                    Some(v) => Val::C(*v),
                    None => return Err(Stop::Fatal(format!("missing parameter {}", i))),
                }
            }
            Bi::TNow => Val::C(0),
            Bi::TNote => {
                if self.cfg.verbose {
                    let p = self.pc64(s, &av[0])?;
                    let n = self.pc64(s, &av[1])?;
                    let v = match &av[2] {
                        Val::T(t) => format!("{} (model {})", self.ts.show(*t, 5), self.eval(s, *t)),
                        v => format!("{:?}", v),
                    };
                    eprintln!("note {} {}", self.cstr(s, p, n), v);
                }
                Val::C(0)
            }
        })
    }
    fn boolarg(&mut self, v: &Val) -> Val {
        match v {
            Val::C(x) => Val::C((*x & 0xff != 0) as u64),
            Val::T(t) => {
                let w = self.ts.w(*t);
                if w == 1 {
                    return v.clone();
                }
                let z = self.ts.konst(0, w);
                let r = self.ts.ne(*t, z);
                from_t(&self.ts, r)
            }
            _ => panic!("bool"),
        }
    }
    fn input_var(&mut self, idx: usize, bits: u16) -> T {
        // one variable per (position, width): paths share them, so cached queries carry over
        if let Some(&t) = self.ts.input_vars.get(&(idx, bits)) {
            return t;
        }
        let t = self.ts.var(bits);
        self.ts.input_vars.insert((idx, bits), t);
        t
    }
    fn free(&mut self, s: &mut State, p: u64) -> R<()> {
        match s.mem.heap.binary_search_by_key(&p, |x| x.0) {
            Ok(i) => {
                s.mem.heap.remove(i);
                Ok(())
            }
            Err(_) => Err(Stop::Viol("memory".into(), format!("free of invalid pointer {:#x}", p))),
        }
    }
    /// floor, ceil, trunc, round of an arbitrary number
    fn rounded(&mut self, bi: Bi, a: T, w: u16) -> T {
        let (one, half, big) = if w == 64 {
            (1f64.to_bits() as u128, 0.5f64.to_bits() as u128, (1u64 << 53) as f64)
        } else {
            (1f32.to_bits() as u128, 0.5f32.to_bits() as u128, (1u64 << 24) as f64)
        };
        let big = self.ts.konst(if w == 64 { big.to_bits() as u128 } else { (big as f32).to_bits() as u128 }, w);
        let m = self.ts.konst(mask(w) >> 1, w);
        let sgn = self.ts.extract(a, w - 1, w - 1);
        let ab = self.ts.and(a, m);
        // works on the absolute value
        let small = self.ts.fcmp(Op::FLt, ab, big);
        let i = self.ts.fconv(Op::FPToSISat, ab, 64);
        let t = self.ts.fconv(Op::SIToFP, i, w);
        let o = self.ts.konst(one, w);
        let up = self.ts.fbin(Op::FAdd, t, o);
        let exact = self.ts.fcmp(Op::FEq, t, ab);
        let neg = self.ts.konst(1, 1);
        let neg = self.ts.eq(sgn, neg);
        let away = match bi {
            Bi::FFloor => {
                let n = self.ts.not(exact);
                self.ts.and(neg, n)
            }
            Bi::FCeil => {
                let p = self.ts.or(neg, exact);
                self.ts.not(p)
            }
            Bi::FRound => {
                let d = self.ts.fbin(Op::FSub, ab, t);
                let h = self.ts.konst(half, w);
                self.ts.fcmp(Op::FLe, h, d)
            }
            _ => self.ts.konst(0, 1),
        };
        let r = self.ts.ite(away, up, t);
        let low = self.ts.extract(r, w - 2, 0);
        let r = self.ts.concat(sgn, low);
        self.ts.ite(small, r, a)
    }
    fn clz(&mut self, x: T, w: u16, lead: bool) -> T {
        let mut r = self.ts.konst(w as u128, w);
        for k in 0..w {
            // build from least significant decision outwards
            let i = if lead { k } else { w - 1 - k };
            let b = self.ts.extract(x, i, i);
            let c = self.ts.konst(if lead { (w - 1 - i) as u128 } else { i as u128 }, w);
            r = self.ts.ite(b, c, r);
        }
        r
    }
}

fn bad(addr: u64) -> Stop {
    Stop::Viol("memory".into(), format!("access to invalid memory {:#x}", addr))
}
#[inline]
fn vref<'a>(fr: &'a Frame, o: &'a Opd) -> &'a Val {
    match o {
        Opd::R(r) => &fr.regs[*r as usize],
        Opd::C(v) => v,
    }
}
#[inline]
fn val(fr: &Frame, o: &Opd) -> Val {
    vref(fr, o).clone()
}
fn vecv(v: &Val) -> Rc<Vec<Val>> {
    match v {
        Val::A(x) => x.clone(),
        v => panic!("vector expected {:?}", v),
    }
}
#[inline]
fn ccmp(p: Pred, x: u64, y: u64, w: u16) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx(x, w) > sx(y, w),
        Pred::Sge => sx(x, w) >= sx(y, w),
        Pred::Slt => sx(x, w) < sx(y, w),
        Pred::Sle => sx(x, w) <= sx(y, w),
    }
}
#[inline]
fn cbin(op: Bin, x: u64, y: u64, w: u16) -> R<u64> {
    let m = m64(w);
    Ok(match op {
        Bin::Add => x.wrapping_add(y) & m,
        Bin::Sub => x.wrapping_sub(y) & m,
        Bin::Mul => x.wrapping_mul(y) & m,
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
        Bin::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        Bin::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Bin::AShr => (sx(x, w) >> y.min(63)) as u64 & m,
        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => {
            return Err(Stop::Viol("ub".into(), "division by zero".into()));
        }
        Bin::UDiv => x / y,
        Bin::URem => x % y,
        Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64 & m,
        Bin::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u64 & m,
        _ => return Err(Stop::Fatal("float op on int".into())),
    })
}

pub fn demangle(n: &str) -> String {
    // readable tail of a v0 mangled name: identifiers only
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && (i == 2 || !b[i - 1].is_ascii_digit()) {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

fn classify_name(n: &str, defined: bool) -> Bi {
    let panicky = (n.contains("4core9panicking") || n.contains("3std9panicking"))
        && !n.contains("11panic_count")
        && !n.contains("12catch_unwind")
        && !n.contains("is_zero_slow_path");
    if panicky && (n.starts_with("_RN") || n.starts_with("_RI")) && !n.contains("drop_glue") && !n.starts_with("_RNvX") && !n.starts_with("_RNvY") {
        return Bi::Panic;
    }
    if n.contains("17rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("7raw_vec12handle_error") || n.contains("capacity_overflow") {
        return Bi::Panic;
    }
    match n {
        "tsym_any" => return Bi::TAny,
        "tsym_assume" => return Bi::TAssume,
        "tsym_assert" => return Bi::TAssert,
        "tsym_fail" => return Bi::TFail,
        "tsym_reach" => return Bi::TReach,
        "tsym_observe" => return Bi::TObserve,
        "tsym_concretize" => return Bi::TConc,
        "tsym_is_sym" => return Bi::TIsSym,
        "tsym_param" => return Bi::TParam,
        "tsym_note" => return Bi::TNote,
        _ => {}
    }
    if defined {
        return Bi::Defined;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let tbl: &[(&str, Bi)] = &[
            ("memcpy.", Bi::MemCpy),
            ("memmove.", Bi::MemMove),
            ("memset.", Bi::MemSet),
            ("lifetime.", Bi::Nop),
            ("assume", Bi::Assume),
            ("experimental.noalias", Bi::Nop),
            ("dbg.", Bi::Nop),
            ("ctlz.", Bi::Ctlz),
            ("cttz.", Bi::Cttz),
            ("ctpop.", Bi::Ctpop),
            ("bswap.", Bi::Bswap),
            ("bitreverse.", Bi::Bitrev),
            ("fshl.", Bi::Fshl),
            ("fshr.", Bi::Fshr),
            ("uadd.with.overflow", Bi::UAddO),
            ("usub.with.overflow", Bi::USubO),
            ("umul.with.overflow", Bi::UMulO),
            ("sadd.with.overflow", Bi::SAddO),
            ("ssub.with.overflow", Bi::SSubO),
            ("smul.with.overflow", Bi::SMulO),
            ("uadd.sat", Bi::UAddSat),
            ("usub.sat", Bi::USubSat),
            ("sadd.sat", Bi::SAddSat),
            ("ssub.sat", Bi::SSubSat),
            ("umin.", Bi::UMin),
            ("umax.", Bi::UMax),
            ("smin.", Bi::SMin),
            ("smax.", Bi::SMax),
            ("abs.", Bi::Abs),
            ("ucmp.", Bi::UCmp),
            ("scmp.", Bi::SCmp),
            ("is.constant", Bi::IsConst),
            ("fptosi.sat", Bi::FToSiSat),
            ("fptoui.sat", Bi::FToUiSat),
            ("maximumnum", Bi::FMaxNum),
            ("minimumnum", Bi::FMinNum),
            ("maxnum", Bi::FMaxNum),
            ("minnum", Bi::FMinNum),
            ("log.", Bi::FLog),
            ("log2.", Bi::FLog2),
            ("log10.", Bi::FLog10),
            ("fabs.", Bi::FAbs),
            ("floor.", Bi::FFloor),
            ("ceil.", Bi::FCeil),
            ("trunc.", Bi::FTrunc),
            ("sqrt.", Bi::FSqrt),
            ("round.", Bi::FRound),
            ("pow.", Bi::FPow),
            ("exp.", Bi::FExp),
            ("copysign", Bi::CopySign),
            ("load.relative", Bi::LoadRel),
            ("threadlocal.address", Bi::Tls),
            ("expect", Bi::Expect),
            ("ptrmask", Bi::PtrMask),
            ("trap", Bi::Abort),
            ("ubsantrap", Bi::Abort),
            ("x86.sse2.pause", Bi::Nop),
            ("vector.reduce.or", Bi::VReduce(0)),
            ("vector.reduce.and", Bi::VReduce(1)),
            ("vector.reduce.add", Bi::VReduce(2)),
            ("vector.reduce.xor", Bi::VReduce(3)),
            ("stackrestore", Bi::Nop),
            ("prefetch", Bi::Nop),
        ];
        for (p, b) in tbl {
            if r.starts_with(p) {
                return *b;
            }
        }
        return Bi::Unknown;
    }
    match n {
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "memcmp" => Bi::MemCmp,
        "bcmp" => Bi::Bcmp,
        "strlen" => Bi::StrLen,
        "memchr" => Bi::MemChr,
        "memcpy" => Bi::MemCpy,
        "memmove" => Bi::MemMove,
        "memset" => Bi::MemSet,
        "__errno_location" => Bi::Errno,
        "getenv" => Bi::GetEnv,
        "abort" => Bi::Abort,
        "log" => Bi::FLog,
        "log2" => Bi::FLog2,
        "log10" => Bi::FLog10,
        "log2f" => Bi::FLog2,
        "tsym_sys_write" => Bi::RetArg2,
        "dlsym" => Bi::DlSym,
        "statx" | "syscall" => Bi::RetM1,
        // thread-local destructors never run: a job ends its process
        "pthread_key_create" => Bi::KeyCreate,
        "pthread_setspecific" | "pthread_getspecific" => Bi::RetZero,
        "gettid" | "pthread_self" | "sigaction" | "signal" | "__cxa_thread_atexit_impl" => Bi::RetZero,
        _ => Bi::Unknown,
    }
}
