//! Hash-consed bit-vector / IEEE-754 terms with simplification.
//! Width 1 terms are Booleans in the SMT output. Widths go up to 128.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    // floating point over bit patterns; w of operands decides format
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FNan,
    FPExt,   // f32 -> f64
    FPTrunc, // f64 -> f32
    SIToFP,  // k = unused, w = result
    UIToFP,
    FPToSISat,
    FPToUISat,
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub kz: Vec<u128>,
    pub ko: Vec<u128>,
    varset: Vec<u32>,
    index: FxMap<Node, T>,
    pub nvars: u32,
    pub var_term: Vec<T>,
    pub varsets: Vec<std::rc::Rc<Vec<u32>>>,
    vs_index: HashMap<Vec<u32>, u32>,
    vs_union: FxMap<(u32, u32), u32>,
    ext_memo: FxMap<(T, u16, u16), T>,
    pub input_vars: FxMap<(usize, u16), T>,
    /// index of the set of values a term can take, when that set is small (0: not known)
    dom: Vec<u32>,
    fpf: Vec<bool>,
    maxes: FxMap<T, (T, T)>,
    doms: Vec<std::rc::Rc<Vec<u128>>>,
    dom_index: HashMap<Vec<u128>, u32>,
}
/// terms with at most this many values are split on as a whole
const DOM: usize = 66;

pub struct Model {
    pub vals: Vec<u128>, // by var index; missing = 0
    pub memo: FxMap<T, u128>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Model {
        Model { vals, memo: FxMap::default() }
    }
}

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            nodes: vec![],
            kz: vec![],
            ko: vec![],
            varset: vec![],
            index: FxMap::default(),
            nvars: 0,
            var_term: vec![],
            varsets: vec![std::rc::Rc::new(vec![])],
            vs_index: HashMap::new(),
            vs_union: FxMap::default(),
            ext_memo: FxMap::default(),
            input_vars: FxMap::default(),
            dom: vec![],
            fpf: vec![],
            maxes: FxMap::default(),
            doms: vec![std::rc::Rc::new(vec![])],
            dom_index: HashMap::new(),
        };
        t.vs_index.insert(vec![], 0);
        // reserve id 0
        t.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        t.kz.push(0);
        t.ko.push(0);
        t.varset.push(0);
        t.dom.push(0);
        t.fpf.push(false);
        t
    }
    /// the values the term can take, if they are few and it is no constant
    pub fn domain(&self, t: T) -> Option<&Vec<u128>> {
        match self.dom[t as usize] {
            0 => None,
            d => Some(&self.doms[d as usize]),
        }
    }
    pub fn umax2(&mut self, a: T, b: T) -> T {
        if self.as_const(a) == Some(0) || a == b {
            return b;
        }
        if self.as_const(b) == Some(0) {
            return a;
        }
        let c = self.ult(b, a);
        let r = self.ite(c, a, b);
        if self.op(r) == Op::Ite {
            self.maxes.insert(r, (a, b));
        }
        r
    }
    fn le_expand(&mut self, t: T, k: u128, memo: &mut FxMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let n = self.n(t);
        let all = self.domain(t).map(|d| d[d.len() - 1] <= k);
        let r = match (n.op, all) {
            (Op::Const, _) => self.konst((n.k <= k) as u128, 1),
            (_, Some(true)) => self.tru(),
            (Op::Ite, _) if self.maxes.contains_key(&t) => {
                let (a, b) = self.maxes[&t];
                let (x, y) = (self.le_expand(a, k, memo), self.le_expand(b, k, memo));
                self.and(x, y)
            }
            (Op::Ite, _) => {
                let x = self.le_expand(n.b, k, memo);
                let y = self.le_expand(n.c, k, memo);
                self.ite(n.a, x, y)
            }
            (Op::Concat, _) if self.as_const(n.a) == Some(0) => self.le_expand(n.b, k, &mut FxMap::default()),
            // 64 - x <= k
            (Op::Sub, _) if self.as_const(n.a).is_some() && self.domain(n.b).map(|d| d[d.len() - 1] <= self.as_const(n.a).unwrap()) == Some(true) => {
                let c = self.as_const(n.a).unwrap();
                if c <= k {
                    self.tru()
                } else {
                    let lt = self.le_expand(n.b, c - k - 1, &mut FxMap::default());
                    self.not(lt)
                }
            }
            _ => {
                let kt = self.konst(k, n.w);
                let l = self.ult(kt, t);
                self.not(l)
            }
        };
        memo.insert(t, r);
        r
    }
    /// t = k for a term of few values, as a formula over the conditions inside it
    pub fn eq_expand(&mut self, t: T, k: u128, memo: &mut FxMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let n = self.n(t);
        let hit = self.domain(t).map(|d| d.binary_search(&k).is_ok());
        let r = match (n.op, hit) {
            (Op::Const, _) => self.konst((n.k == k) as u128, 1),
            (_, Some(false)) => self.fls(),
            (Op::Ite, _) if self.maxes.contains_key(&t) => {
                let (a, b) = self.maxes[&t];
                let (x, y) = (self.le_expand(a, k, &mut FxMap::default()), self.le_expand(b, k, &mut FxMap::default()));
                let (p, q) = (self.eq_expand(a, k, memo), self.eq_expand(b, k, memo));
                let o = self.or(p, q);
                let a = self.and(x, y);
                self.and(a, o)
            }
            (Op::Ite, _) => {
                let x = self.eq_expand(n.b, k, memo);
                let y = self.eq_expand(n.c, k, memo);
                self.ite(n.a, x, y)
            }
            _ => {
                let kt = self.konst(k, n.w);
                let e = self.eq(t, kt);
                // t is an operation on one term of few values
                let e = self.n(e);
                match (e.op, self.as_const(e.b), self.as_const(e.a)) {
                    (Op::Eq, Some(v), _) if e.a != t && self.domain(e.a).is_some() => self.eq_expand(e.a, v, &mut FxMap::default()),
                    (Op::Eq, _, Some(v)) if e.b != t && self.domain(e.b).is_some() => self.eq_expand(e.b, v, &mut FxMap::default()),
                    _ => self.intern(e),
                }
            }
        };
        memo.insert(t, r);
        r
    }
    pub fn has_fp(&self, t: T) -> bool {
        self.fpf[t as usize]
    }
    fn few(&self, t: T) -> bool {
        matches!(self.domain(t), Some(d) if d.len() > 2)
    }
    fn dom_of(&mut self, n: &Node) -> u32 {
        if n.w <= 1 {
            return 0;
        }
        let mut set: Vec<u128> = vec![];
        match n.op {
            Op::Const | Op::Var => return 0,
            Op::Ite => {
                let (x, y) = (self.dom[n.b as usize], self.dom[n.c as usize]);
                if x == y && x != 0 {
                    return x;
                }
                for ch in [n.b, n.c] {
                    match (self.as_const(ch), self.dom[ch as usize]) {
                        (Some(k), _) => set.push(k),
                        (None, 0) => return 0,
                        (None, d) => set.extend(self.doms[d as usize].iter()),
                    }
                }
            }
            _ => {
                let one = std::rc::Rc::new(vec![0u128]);
                let mut cs = vec![];
                for ch in [n.a, n.b] {
                    cs.push(if ch == 0 {
                        one.clone()
                    } else {
                        match (self.as_const(ch), self.dom[ch as usize]) {
                            (Some(k), _) => std::rc::Rc::new(vec![k]),
                            (None, 0) => return 0,
                            (None, d) => self.doms[d as usize].clone(),
                        }
                    });
                }
                if cs[0].len() * cs[1].len() > 4 * DOM || n.c != 0 {
                    return 0;
                }
                let aw = self.w(n.a);
                let bw = if n.b != 0 { self.w(n.b) } else { 0 };
                for &a in cs[0].iter() {
                    for &b in cs[1].iter() {
                        set.push(eval_op(n, a, b, 0, aw, bw) & mask(n.w));
                    }
                }
            }
        }
        set.sort_unstable();
        set.dedup();
        if set.len() > DOM {
            return 0;
        }
        if let Some(&d) = self.dom_index.get(&set) {
            return d;
        }
        let d = self.doms.len() as u32;
        self.doms.push(std::rc::Rc::new(set.clone()));
        self.dom_index.insert(set, d);
        d
    }
    /// the value of a term of few values, given terms whose value is known
    pub fn fold(&self, t: T, known: &FxMap<T, u128>, memo: &mut FxMap<T, Option<u128>>, fuel: &mut u32) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            return Some(n.k);
        }
        if let Some(&k) = known.get(&t) {
            return Some(k);
        }
        if n.op == Op::Var || *fuel == 0 {
            return None;
        }
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        *fuel -= 1;
        let r = if n.op == Op::Ite {
            match known.get(&n.a) {
                Some(1) => self.fold(n.b, known, memo, fuel),
                Some(_) => self.fold(n.c, known, memo, fuel),
                None => None,
            }
        } else {
            let aw = self.w(n.a);
            let bw = if n.b != 0 { self.w(n.b) } else { 0 };
            let small = |x: T| x == 0 || n.w == 1 && self.w(x) == 1 || self.as_const(x).is_some() || self.dom[x as usize] != 0;
            if !small(n.a) || !small(n.b) {
                None
            } else {
                self.fold(n.a, known, memo, fuel).and_then(|a| {
                    let b = if n.b == 0 { Some(0) } else { self.fold(n.b, known, memo, fuel) };
                    b.map(|b| eval_op(n, a, b, 0, aw, bw) & mask(n.w))
                })
            }
        };
        memo.insert(t, r);
        r
    }
    /// the term of few values that alone decides t
    pub fn dom_root(&self, t: T) -> Option<T> {
        let mut x = t;
        loop {
            let n = &self.nodes[x as usize];
            if n.op == Op::Ite || n.op == Op::Const || n.op == Op::Var {
                break;
            }
            let mut next = None;
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && self.as_const(ch).is_none() {
                    if next.is_some() && next != Some(ch) {
                        next = None;
                        break;
                    }
                    next = Some(ch);
                }
            }
            match next {
                Some(c) if self.dom[c as usize] != 0 || n.w == 1 && self.w(c) == 1 => x = c,
                _ => break,
            }
        }
        if self.dom[x as usize] != 0 {
            Some(x)
        } else {
            None
        }
    }
    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    pub fn op(&self, t: T) -> Op {
        self.nodes[t as usize].op
    }
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn vars_of(&self, t: T) -> u32 {
        self.varset[t as usize]
    }
    fn union_vs(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vs_union.get(&key) {
            return r;
        }
        let x = self.varsets[a as usize].clone();
        let y = self.varsets[b as usize].clone();
        let mut m: Vec<u32> = x.iter().chain(y.iter()).copied().collect();
        m.sort_unstable();
        m.dedup();
        let r = match self.vs_index.get(&m) {
            Some(&r) => r,
            None => {
                let id = self.varsets.len() as u32;
                self.varsets.push(std::rc::Rc::new(m.clone()));
                self.vs_index.insert(m, id);
                id
            }
        };
        self.vs_union.insert(key, r);
        r
    }
    pub fn umin(&self, t: T) -> u128 {
        self.ko[t as usize]
    }
    pub fn umax(&self, t: T) -> u128 {
        mask(self.w(t)) & !self.kz[t as usize]
    }

    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.index.get(&n) {
            return t;
        }
        let id = self.nodes.len() as T;
        let (kz, ko) = self.known(&n);
        let m = mask(n.w);
        if kz | ko == m && n.op != Op::Const && n.op != Op::Var {
            let c = self.konst(ko, n.w);
            self.index.insert(n, c);
            return c;
        }
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => {
                let v = vec![n.k as u32];
                let id = self.varsets.len() as u32;
                self.varsets.push(std::rc::Rc::new(v.clone()));
                self.vs_index.insert(v, id);
                id
            }
            _ => {
                let mut v = self.varset[n.a as usize];
                if n.b != 0 {
                    v = self.union_vs(v, self.varset[n.b as usize]);
                }
                if n.c != 0 {
                    v = self.union_vs(v, self.varset[n.c as usize]);
                }
                v
            }
        };
        let d = self.dom_of(&n);
        self.nodes.push(n);
        self.dom.push(d);
        let fl = matches!(
            n.op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FNan | Op::FPExt | Op::FPTrunc | Op::SIToFP | Op::UIToFP | Op::FPToSISat | Op::FPToUISat
        );
        let fl = fl || [n.a, n.b, n.c].iter().any(|&x| self.fpf[x as usize]);
        self.fpf.push(fl);
        self.kz.push(kz);
        self.ko.push(ko);
        self.varset.push(vs);
        self.index.insert(n, id);
        id
    }

    fn known(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let z = |t: T| self.kz[t as usize];
        let o = |t: T| self.ko[t as usize];
        match n.op {
            Op::Const => (m & !n.k, n.k),
            Op::Not => (o(n.a), z(n.a)),
            Op::And => (z(n.a) | z(n.b), o(n.a) & o(n.b)),
            Op::Or => (z(n.a) & z(n.b), o(n.a) | o(n.b)),
            Op::Xor => ((z(n.a) & z(n.b)) | (o(n.a) & o(n.b)), (z(n.a) & o(n.b)) | (o(n.a) & z(n.b))),
            Op::Concat => {
                let lw = self.w(n.b);
                (z(n.b) | (z(n.a) << lw), o(n.b) | (o(n.a) << lw))
            }
            Op::Extract => ((z(n.a) >> n.k) & m, (o(n.a) >> n.k) & m),
            Op::Ite => (z(n.b) & z(n.c), o(n.b) & o(n.c)),
            Op::SExt => {
                let aw = self.w(n.a);
                let top = m & !mask(aw);
                let s = 1u128 << (aw - 1);
                let mut kz = z(n.a);
                let mut ko = o(n.a);
                if kz & s != 0 {
                    kz |= top;
                } else if ko & s != 0 {
                    ko |= top;
                }
                (kz, ko)
            }
            Op::Add | Op::Sub => {
                // trailing known bits, and a bound for add without overflow
                let mut kz = 0;
                let mut ko = 0;
                let known = (z(n.a) | o(n.a)) & (z(n.b) | o(n.b));
                let t = (!known).trailing_zeros().min(n.w as u32) as u16;
                if t > 0 {
                    let lm = mask(t);
                    let r = if n.op == Op::Add { o(n.a).wrapping_add(o(n.b)) } else { o(n.a).wrapping_sub(o(n.b)) } & lm;
                    ko |= r;
                    kz |= lm & !r;
                }
                if n.op == Op::Add && n.w < 128 {
                    let s = (m & !z(n.a)) + (m & !z(n.b));
                    if s <= m {
                        let hb = 128 - s.leading_zeros();
                        kz |= m & !mask(hb as u16);
                    }
                }
                (kz, ko)
            }
            Op::Mul => {
                let tz = ((m & !z(n.a)).trailing_zeros() + (m & !z(n.b)).trailing_zeros()).min(n.w as u32);
                let mut kz = mask(tz as u16);
                let ba = 128 - (m & !z(n.a)).leading_zeros();
                let bb = 128 - (m & !z(n.b)).leading_zeros();
                if ba + bb < n.w as u32 {
                    kz |= m & !mask((ba + bb) as u16);
                }
                (kz & m, 0)
            }
            Op::UDiv => {
                // result <= a (except div by zero, all ones)
                if o(n.b) != 0 {
                    let bits = 128 - ((m & !z(n.a)) / o(n.b).max(1)).leading_zeros();
                    (m & !mask(bits as u16), 0)
                } else {
                    (0, 0)
                }
            }
            Op::URem => {
                if let Some(k) = self.as_const(n.b) {
                    if k > 0 {
                        let bits = 128 - (k - 1).min(m & !z(n.a)).leading_zeros();
                        return (m & !mask(bits as u16), 0);
                    }
                }
                (0, 0)
            }
            Op::LShr => {
                // at least as small as a
                let bits = 128 - (m & !z(n.a)).leading_zeros();
                (m & !mask(bits as u16), 0)
            }
            Op::Shl => {
                let tz = (m & !z(n.a)).trailing_zeros().min(n.w as u32);
                (mask(tz as u16), 0)
            }
            _ => (0, 0),
        }
    }

    pub fn konst(&mut self, k: u128, w: u16) -> T {
        debug_assert!(w >= 1 && w <= 128);
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, w: u16) -> T {
        let i = self.nvars;
        self.nvars += 1;
        let t = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: i as u128 });
        self.var_term.push(t);
        t
    }
    fn raw(&mut self, op: Op, w: u16, a: T, b: T, c: T, k: u128) -> T {
        self.intern(Node { op, w, a, b, c, k })
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.konst(0, 1)
    }

    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(!n.k, n.w),
            Op::Not => n.a,
            _ => self.raw(Op::Not, n.w, a, 0, 0, 0),
        }
    }
    /// split a concat-with-const against the other operand for bitwise ops
    fn bit_split(&mut self, op: Op, a: T, b: T) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Op::Concat {
                let hi_c = self.op(n.a) == Op::Const;
                let lo_c = self.op(n.b) == Op::Const;
                let yn = self.n(y);
                let y_same = yn.op == Op::Concat && self.w(yn.b) == self.w(n.b);
                let ok = hi_c || lo_c || (y_same && (self.op(yn.a) == Op::Const || self.op(yn.b) == Op::Const)) || yn.op == Op::Const;
                if ok {
                    let lw = self.w(n.b);
                    let yh = self.extract(y, n.w - 1, lw);
                    let yl = self.extract(y, lw - 1, 0);
                    let h = self.bitop(op, n.a, yh);
                    let l = self.bitop(op, n.b, yl);
                    return Some(self.concat(h, l));
                }
            }
        }
        None
    }
    fn bitop(&mut self, op: Op, a: T, b: T) -> T {
        match op {
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            _ => self.xor(a, b),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x & y, w);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return b;
            }
            if k == m || (k | self.kz[a as usize]) == m {
                return a;
            }
            let k = k & !self.kz[a as usize];
            if k == 0 {
                return self.konst(0, w);
            }
            // contiguous ones at p
            let p = k.trailing_zeros() as u16;
            let l = (k >> p).trailing_ones() as u16;
            if k == mask(l) << p {
                let mid = self.extract(a, p + l - 1, p);
                let mut r = mid;
                if p > 0 {
                    let z = self.konst(0, p);
                    r = self.concat(r, z);
                }
                return self.zext(r, w);
            }
        }
        if self.kz[a as usize] | self.kz[b as usize] == m {
            return self.konst(0, w);
        }
        // a & ones-where-possible
        if (self.ko[b as usize] | self.kz[a as usize]) == m {
            return a;
        }
        if (self.ko[a as usize] | self.kz[b as usize]) == m {
            return b;
        }
        if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.konst(0, w);
        }
        if w == 1 {
            // absorb: a & (a & x)
            for (x, y) in [(a, b), (b, a)] {
                let n = self.n(y);
                if n.op == Op::And && (n.a == x || n.b == x) {
                    return y;
                }
                if n.op == Op::Or && (n.a == x || n.b == x) {
                    return x;
                }
            }
        } else if let Some(r) = self.bit_split(Op::And, a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x | y, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.as_const(x) {
                if k == 0 {
                    return y;
                }
                if k == m {
                    return x;
                }
            }
            if self.n(x).op == Op::Not && self.n(x).a == y {
                return self.konst(m, w);
            }
            if w == 1 {
                let n = self.n(y);
                if n.op == Op::And && (n.a == x || n.b == x) {
                    return x;
                }
                if n.op == Op::Or && (n.a == x || n.b == x) {
                    return y;
                }
            }
            // x adds nothing to y: every possible one-bit of x is known one in y
            if (m & !self.kz[x as usize]) & !self.ko[y as usize] == 0 {
                return y;
            }
        }
        if w > 1 {
            if let Some(r) = self.bit_split(Op::Or, a, b) {
                return r;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(0, w);
        }
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x ^ y, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(k) = self.as_const(x) {
                if k == 0 {
                    return y;
                }
                if k == m {
                    return self.not(y);
                }
                let n = self.n(y);
                if n.op == Op::Xor {
                    if let Some(k2) = self.as_const(n.b) {
                        let c = self.konst(k ^ k2, w);
                        return self.xor(n.a, c);
                    }
                }
            }
            let n = self.n(y);
            if n.op == Op::Xor {
                if n.a == x {
                    return n.b;
                }
                if n.b == x {
                    return n.a;
                }
            }
            if n.op == Op::Not {
                let r = self.xor(n.a, x);
                return self.not(r);
            }
        }
        if w > 1 {
            if let Some(r) = self.bit_split(Op::Xor, a, b) {
                return r;
            }
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(k2) = self.as_const(n.b) {
                    let c = self.konst(k.wrapping_add(k2), w);
                    return self.add(n.a, c);
                }
            }
            if n.op == Op::Sub {
                if let Some(k2) = self.as_const(n.a) {
                    let c = self.konst(k.wrapping_add(k2), w);
                    return self.sub(c, n.b);
                }
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(y);
            // x + (p - x) = p
            if n.op == Op::Sub && n.b == x {
                return n.a;
            }
            // pull constants out: x + (p + c) = (x + p) + c
            if n.op == Op::Add && self.as_const(n.b).is_some() && self.as_const(x).is_none() {
                let s = self.add(x, n.a);
                return self.add(s, n.b);
            }
        }
        // disjoint bits: or
        if self.kz[a as usize] | self.kz[b as usize] == mask(w) {
            return self.or(a, b);
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(0, w);
        }
        if let Some(k) = self.as_const(b) {
            let c = self.konst((0u128).wrapping_sub(k), w);
            return self.add(a, c);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if na.op == Op::Add && self.as_const(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if let Some(k) = self.as_const(nb.b) {
                let s = self.sub(a, nb.a);
                let c = self.konst((0u128).wrapping_sub(k), w);
                return self.add(s, c);
            }
            if nb.a == a {
                let z = self.konst(0, w);
                return self.sub(z, nb.b);
            }
            if nb.b == a {
                let z = self.konst(0, w);
                return self.sub(z, nb.a);
            }
        }
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        if na.op == Op::Sub && na.a == b {
            let z = self.konst(0, w);
            return self.sub(z, na.b);
        }
        self.raw(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x.wrapping_mul(y), w);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let c = self.konst(k.trailing_zeros() as u128, w);
                return self.shl(a, c);
            }
            let n = self.n(a);
            if n.op == Op::Mul {
                if let Some(k2) = self.as_const(n.b) {
                    let c = self.konst(k.wrapping_mul(k2), w);
                    return self.mul(n.a, c);
                }
            }
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(if y == 0 { !0 } else { x / y }, w);
        }
        if let Some(k) = self.as_const(b) {
            if k.is_power_of_two() {
                let c = self.konst(k.trailing_zeros() as u128, w);
                return self.lshr(a, c);
            }
            if k > self.umax(a) {
                return self.konst(0, w);
            }
        }
        self.raw(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(if y == 0 { x } else { x % y }, w);
        }
        if let Some(k) = self.as_const(b) {
            if k.is_power_of_two() {
                let c = self.konst(k - 1, w);
                return self.and(a, c);
            }
            if k > self.umax(a) {
                return a;
            }
        }
        self.raw(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(c_sdiv(x, y, w), w);
        }
        let s = 1u128 << (w - 1);
        if self.kz[a as usize] & s != 0 && self.kz[b as usize] & s != 0 {
            return self.udiv(a, b);
        }
        self.raw(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(c_srem(x, y, w), w);
        }
        let s = 1u128 << (w - 1);
        if self.kz[a as usize] & s != 0 && self.kz[b as usize] & s != 0 {
            return self.urem(a, b);
        }
        self.raw(Op::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(0, w);
            }
            let lo = self.extract(a, w - 1 - k as u16, 0);
            let z = self.konst(0, k as u16);
            return self.concat(lo, z);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(0, w);
            }
            let hi = self.extract(a, w - 1, k as u16);
            return self.zext(hi, w);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 {
                return a;
            }
            let k = k.min(w as u128 - 1) as u16;
            let hi = self.extract(a, w - 1, k);
            return self.sext(hi, w);
        }
        if self.kz[a as usize] >> (w - 1) & 1 == 1 {
            return self.lshr(a, b);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        assert!(w <= 128, "concat too wide");
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst(nh.k << nl.w | nl.k, w);
        }
        // right-assoc
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nl.op == Op::Concat {
            // merge hi with nl.a if possible
            if let Some(m) = self.try_merge(hi, nl.a) {
                return self.concat(m, nl.b);
            }
        } else if let Some(m) = self.try_merge(hi, lo) {
            return m;
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    fn try_merge(&mut self, hi: T, lo: T) -> Option<T> {
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Const && nl.op == Op::Const {
            return Some(self.konst(nh.k << nl.w | nl.k, nh.w + nl.w));
        }
        // extract(x, hi..m) ++ extract(x, m-1..lo)
        let (bx, blo) = if nl.op == Op::Extract { (nl.a, nl.k as u16) } else { (lo, 0) };
        if nh.op == Op::Extract && nh.a == bx && nh.k as u16 == blo + nl.w {
            let whole = blo == 0 && nh.k as u16 + nh.w == self.w(bx);
            if whole {
                return Some(bx);
            }
            return Some(self.raw(Op::Extract, nh.w + nl.w, bx, 0, 0, blo as u128));
        }
        // sign bits on top of value: handled by SExt op elsewhere
        if nh.op == Op::SExt && nl.op == Op::Extract {
            // sext(extract(x,top..m)) ++ extract(x,m-1..0)  => sext(x)
            let inner = self.n(nh.a);
            if inner.op == Op::Extract && inner.a == nl.a && inner.k as u16 == nl.k as u16 + nl.w {
                let m = self.try_merge(nh.a, lo)?;
                return Some(self.sext(m, nh.w + nl.w));
            }
        }
        None
    }
    pub fn extract(&mut self, a: T, hi: u16, lo: u16) -> T {
        if hi - lo + 1 == self.w(a) {
            return a;
        }
        if let Some(&t) = self.ext_memo.get(&(a, hi, lo)) {
            return t;
        }
        let t = self.extract_(a, hi, lo);
        self.ext_memo.insert((a, hi, lo), t);
        t
    }
    fn extract_(&mut self, a: T, hi: u16, lo: u16) -> T {
        let n = self.n(a);
        let w = hi - lo + 1;
        debug_assert!(hi < n.w);
        if w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, hi + n.k as u16, lo + n.k as u16),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let x = self.extract(n.a, iw - 1, lo);
                    return self.sext(x, w);
                }
                let s = self.extract(n.a, iw - 1, iw - 1);
                return self.sext(s, w);
            }
            Op::Ite => {
                if (self.op(n.b) == Op::Const || self.op(n.c) == Op::Const) && !self.few(a) {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                let m = mask(w);
                let triv = |k: Option<u128>| matches!(k, Some(k) if k == 0 || k == m);
                if triv(self.as_const(x)) || triv(self.as_const(y)) || self.op(n.b) == Op::Const {
                    return self.bitop(n.op, x, y);
                }
                if self.op(x) != Op::Extract && self.op(y) != Op::Extract {
                    return self.bitop(n.op, x, y);
                }
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            _ => {}
        }
        let m = mask(w);
        if (self.kz[a as usize] | self.ko[a as usize]) >> lo & m == m {
            return self.konst(self.ko[a as usize] >> lo, w);
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.konst(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(sext(n.k, n.w) as u128, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if self.kz[a as usize] >> (n.w - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: T, w: u16) -> T {
        self.extract(a, w - 1, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let (an, bn) = (self.n(a), self.n(b));
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        // common high zero part
        if w > 1 {
            let kz = self.kz[a as usize] & self.kz[b as usize];
            let hz = (!(kz | !mask(w))).leading_zeros() as i32 - (128 - w as i32);
            if hz > 0 && (hz as u16) < w {
                let k = hz as u16;
                // only narrow if operands are zexts or consts
                let isz = |n: &Node| n.op == Op::Const || n.op == Op::Concat;
                if isz(&an) && isz(&bn) {
                    let x = self.extract(a, w - 1 - k, 0);
                    let y = self.extract(b, w - 1 - k, 0);
                    let r = self.ite(c, x, y);
                    return self.zext(r, w);
                }
            }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "eq widths");
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst((x == y) as u128, 1);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if self.kz[a as usize] & self.ko[b as usize] != 0 || self.ko[a as usize] & self.kz[b as usize] != 0 {
            return self.fls();
        }
        if w == 1 {
            if let Some(k) = self.as_const(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.raw(Op::Eq, 1, a, b, 0, 0);
        }
        if let (Some(d), Some(k)) = (self.domain(a), self.as_const(b)) {
            if d.binary_search(&k).is_err() {
                return self.fls();
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            match na.op {
                Op::Add => {
                    if let Some(k) = self.as_const(na.b) {
                        let c = self.konst(nb.k.wrapping_sub(k), w);
                        return self.eq(na.a, c);
                    }
                }
                Op::Sub if nb.k == 0 => return self.eq(na.a, na.b),
                Op::Sub => {
                    if let Some(k) = self.as_const(na.a) {
                        let c = self.konst(k.wrapping_sub(nb.k), w);
                        return self.eq(na.b, c);
                    }
                }
                Op::Xor => {
                    if nb.k == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(k) = self.as_const(na.b) {
                        let c = self.konst(nb.k ^ k, w);
                        return self.eq(na.a, c);
                    }
                }
                Op::Not => {
                    let c = self.konst(!nb.k, w);
                    return self.eq(na.a, c);
                }
                Op::Or if nb.k == 0 => {
                    let z = b;
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kh = self.konst(nb.k >> lw, w - lw);
                    let kl = self.konst(nb.k, lw);
                    let x = self.eq(na.a, kh);
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    if sext(nb.k & mask(iw), iw) as u128 & mask(w) == nb.k {
                        let c = self.konst(nb.k, iw);
                        return self.eq(na.a, c);
                    }
                    return self.fls();
                }
                Op::Ite if self.few(a) => {}
                Op::Ite => {
                    let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                    if let (Some(x), Some(y)) = (x, y) {
                        return match (x == nb.k, y == nb.k) {
                            (true, true) => self.tru(),
                            (true, false) => na.a,
                            (false, true) => self.not(na.a),
                            _ => self.fls(),
                        };
                    }
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::Concat || nb.op == Op::Concat {
                let (x, y) = if na.op == Op::Concat { (a, b) } else { (b, a) };
                let nx = self.n(x);
                let ny = self.n(y);
                let same = ny.op == Op::Concat && self.w(ny.b) == self.w(nx.b);
                if same || self.op(nx.a) == Op::Const || self.op(nx.b) == Op::Const || (ny.op == Op::Concat) {
                    let lw = self.w(nx.b);
                    let yh = self.extract(y, w - 1, lw);
                    let yl = self.extract(y, lw - 1, 0);
                    let p = self.eq(nx.a, yh);
                    let q = self.eq(nx.b, yl);
                    return self.and(p, q);
                }
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && nb.op == Op::Add {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if p == r {
                            return self.eq(q, s);
                        }
                    }
                }
            }
            if na.op == Op::Sub && nb.op == Op::Sub {
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
            }
            for (x, y) in [(a, b), (b, a)] {
                let n = self.n(x);
                if n.op == Op::Add && (n.a == y || n.b == y) {
                    let o = if n.a == y { n.b } else { n.a };
                    let z = self.konst(0, w);
                    return self.eq(o, z);
                }
                if n.op == Op::Sub && n.a == y {
                    let z = self.konst(0, w);
                    return self.eq(n.b, z);
                }
                if n.op == Op::Ite && (n.b == y || n.c == y) {
                    // ite(c, y, o) == y
                    let (c, o) = if n.b == y { (n.a, n.c) } else { (self.not(n.a), n.b) };
                    let e = self.eq(o, y);
                    return self.or(c, e);
                }
            }
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.umax(a) < self.umin(b) {
            return self.tru();
        }
        if self.umin(a) >= self.umax(b) {
            return self.fls();
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(k) = self.as_const(b) {
            if k == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            // a < 2^p  <=>  high bits zero
            if k.is_power_of_two() {
                let p = k.trailing_zeros() as u16;
                let h = self.extract(a, w - 1, p);
                let z = self.konst(0, w - p);
                return self.eq(h, z);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if let Some(k) = self.as_const(a) {
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            // 2^p - 1 < b <=> high bits nonzero
            if (k + 1).is_power_of_two() {
                let p = (k + 1).trailing_zeros() as u16;
                if p < w {
                    let h = self.extract(b, w - 1, p);
                    let z = self.konst(0, w - p);
                    let e = self.eq(h, z);
                    return self.not(e);
                }
            }
        }
        // common known high zeros
        let kz = self.kz[a as usize] & self.kz[b as usize];
        let hz = ((!kz) << (128 - w)).leading_zeros() as u16;
        if hz > 0 && hz < w {
            let x = self.extract(a, w - 1 - hz, 0);
            let y = self.extract(b, w - 1 - hz, 0);
            return self.ult(x, y);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && self.op(na.b) == Op::Const && self.op(na.c) == Op::Const && nb.op == Op::Const {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && self.op(nb.b) == Op::Const && self.op(nb.c) == Op::Const && na.op == Op::Const {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let s = 1u128 << (w - 1);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let sa = (self.kz[a as usize] & s != 0, self.ko[a as usize] & s != 0);
        let sb = (self.kz[b as usize] & s != 0, self.ko[b as usize] & s != 0);
        if (sa.0 && sb.0) || (sa.1 && sb.1) {
            return self.ult(a, b);
        }
        if sa.1 && sb.0 {
            return self.tru();
        }
        if sa.0 && sb.1 {
            return self.fls();
        }
        // a < 0
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        // -1 < b
        if self.as_const(a) == Some(mask(w)) {
            let t = self.extract(b, w - 1, w - 1);
            return self.not(t);
        }
        if self.as_const(b) == Some(s) {
            return self.fls();
        }
        if self.as_const(a) == Some(s - 1) {
            return self.fls();
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::Ite && self.op(na.b) == Op::Const && self.op(na.c) == Op::Const && nb.op == Op::Const {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let r = self.slt(b, a);
        self.not(r)
    }

    // ---- floating point -------------------------------------------------
    pub fn fbin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(c_fbin(op, x, y, w), w);
        }
        // +0.0 + x is x unless x is -0.0 (NaNs are canonical in terms)
        if op == Op::FAdd {
            if self.as_const(a) == Some(0) && self.never_neg_zero(b) {
                return b;
            }
            if self.as_const(b) == Some(0) && self.never_neg_zero(a) {
                return a;
            }
        }
        // addition and multiplication are commutative up to NaN payload
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && a > b { (b, a) } else { (a, b) };
        self.raw(op, w, a, b, 0, 0)
    }
    /// an arithmetic result that is not -0.0 (round to nearest: x + y is -0.0 only if both are)
    fn never_neg_zero(&self, t: T) -> bool {
        match self.op(t) {
            Op::SIToFP | Op::UIToFP => true,
            Op::FAdd => {
                let (a, b) = (self.n(t).a, self.n(t).b);
                self.as_const(a) == Some(0) || self.as_const(b) == Some(0) || self.never_neg_zero(a) || self.never_neg_zero(b)
            }
            _ => false,
        }
    }
    pub fn fcmp(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(c_fcmp(op, x, y, w) as u128, 1);
        }
        let (a, b) = if op == Op::FEq && a > b { (b, a) } else { (a, b) };
        self.raw(op, 1, a, b, 0, 0)
    }
    pub fn fnan(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.as_const(a) {
            return self.konst(c_isnan(x, w) as u128, 1);
        }
        match self.op(a) {
            Op::SIToFP | Op::UIToFP => return self.fls(),
            Op::FPExt => {
                let x = self.n(a).a;
                return self.fnan(x);
            }
            _ => {}
        }
        self.raw(Op::FNan, 1, a, 0, 0, 0)
    }
    pub fn fconv(&mut self, op: Op, a: T, w: u16) -> T {
        if let Some(x) = self.as_const(a) {
            let aw = self.w(a);
            return self.konst(c_fconv(op, x, aw, w), w);
        }
        self.raw(op, w, a, 0, 0, 0)
    }

    // ---- rewriting under facts of a path --------------------------------
    pub fn rebuild(&mut self, n: &Node, a: T, b: T, c: T) -> T {
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Not => self.not(a),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::SRem => self.srem(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, n.k as u16 + n.w - 1, n.k as u16),
            Op::SExt => self.sext(a, n.w),
            Op::Ite => self.ite(a, b, c),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => self.fbin(n.op, a, b),
            Op::FEq | Op::FLt | Op::FLe => self.fcmp(n.op, a, b),
            Op::FNan => self.fnan(a),
            Op::FPExt | Op::FPTrunc | Op::SIToFP | Op::UIToFP | Op::FPToSISat | Op::FPToUISat => self.fconv(n.op, a, n.w),
        }
    }
    /// t under the facts: values of terms, and bits of terms (zeros, ones)
    pub fn rewrite(&mut self, t: T, known: &FxMap<T, u128>, bits: &FxMap<T, (u128, u128)>, memo: &mut FxMap<T, T>) -> T {
        let n = self.n(t);
        if n.op == Op::Const {
            return t;
        }
        if let Some(&k) = known.get(&t) {
            return self.konst(k, n.w);
        }
        if n.op == Op::Var {
            return t;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let mut f = |me: &mut Self, x: T| if x == 0 { 0 } else { me.rewrite(x, known, bits, memo) };
        let (a, b, c) = (f(self, n.a), f(self, n.b), f(self, n.c));
        let mut r = if (a, b, c) == (n.a, n.b, n.c) { t } else { self.rebuild(&n, a, b, c) };
        let m = self.n(r);
        match m.op {
            Op::Extract if m.k == 0 && matches!(self.n(m.a).op, Op::Add | Op::Sub) && !bits.contains_key(&m.a) => {
                let q = self.n(m.a);
                let x = self.extract(q.a, m.w - 1, 0);
                let y = self.extract(q.b, m.w - 1, 0);
                r = if q.op == Op::Add { self.add(x, y) } else { self.sub(x, y) };
            }
            Op::Extract => {
                if let Some(&(z, o)) = bits.get(&m.a) {
                    let kn = ((z | o) >> m.k) & mask(m.w);
                    let top = (!(kn << (128 - m.w))).leading_zeros().min(m.w as u32) as u16;
                    if top > 0 {
                        let hv = (o >> (m.k as u16 + m.w - top)) & mask(top);
                        let h = self.konst(hv, top);
                        r = if top == m.w {
                            h
                        } else {
                            let l = self.extract(m.a, m.k as u16 + m.w - top - 1, m.k as u16);
                            self.concat(h, l)
                        };
                    }
                }
            }
            Op::Concat => {
                let l = self.n(m.b);
                if let (Some(h), Op::Extract, 0) = (self.as_const(m.a), l.op, l.k) {
                    let bw = self.w(l.a);
                    if bw <= m.w {
                        if let Some(&(z, o)) = bits.get(&l.a) {
                            let hm = mask(bw) & !mask(l.w);
                            if (z | o) & hm == hm && o & hm == (h << l.w) & hm {
                                r = l.a;
                                if bw < m.w {
                                    let hk = self.konst(h >> (bw - l.w), m.w - bw);
                                    r = self.concat(hk, r);
                                }
                            }
                        }
                    }
                }
            }
            Op::Eq if self.w(m.a) > 1 => {
                let (p, q) = (self.n(m.a).op, self.n(m.b).op);
                if matches!(p, Op::Add | Op::Sub) || matches!(q, Op::Add | Op::Sub) {
                    let mut lin = FxMap::default();
                    let mut k = 0;
                    let w = self.w(m.a);
                    self.linear(m.a, 1, &mut lin, &mut k);
                    self.linear(m.b, mask(w), &mut lin, &mut k);
                    let zero = |l: &FxMap<T, u128>| l.values().all(|v| *v & mask(w) == 0);
                    if !zero(&lin) {
                        // sums whose value is known eliminate a variable each
                        let mut facts: Vec<(T, FxMap<T, u128>, u128)> = vec![];
                        for (&x, &(z, o)) in bits {
                            if z | o != mask(w) || self.w(x) != w || !matches!(self.n(x).op, Op::Add | Op::Sub) {
                                continue;
                            }
                            let (mut l, mut c) = (FxMap::default(), o.wrapping_neg());
                            self.linear(x, 1, &mut l, &mut c);
                            let p = l.iter().filter(|(t, v)| self.n(**t).op == Op::Var && (**v & mask(w) == 1 || **v & mask(w) == mask(w))).map(|x| *x.0).max();
                            if let Some(p) = p {
                                facts.push((p, l, c));
                            }
                        }
                        facts.sort_by(|x, y| y.0.cmp(&x.0));
                        facts.dedup_by_key(|x| x.0);
                        for (p, l, c) in facts {
                            let have = lin.get(&p).copied().unwrap_or(0) & mask(w);
                            if have == 0 {
                                continue;
                            }
                            let f = if l[&p] & mask(w) == 1 { have.wrapping_neg() } else { have };
                            for (t, v) in l {
                                let e = lin.entry(t).or_insert(0);
                                *e = e.wrapping_add(v.wrapping_mul(f));
                            }
                            k = k.wrapping_add(c.wrapping_mul(f));
                        }
                    }
                    if zero(&lin) {
                        r = self.konst((k & mask(w) == 0) as u128, 1);
                    }
                }
            }
            _ => {}
        }
        memo.insert(t, r);
        r
    }
    fn linear(&self, t: T, coef: u128, lin: &mut FxMap<T, u128>, k: &mut u128) {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const => *k = k.wrapping_add(coef.wrapping_mul(n.k)),
            Op::Add => {
                self.linear(n.a, coef, lin, k);
                self.linear(n.b, coef, lin, k);
            }
            Op::Sub => {
                self.linear(n.a, coef, lin, k);
                self.linear(n.b, coef.wrapping_neg(), lin, k);
            }
            _ => {
                let e = lin.entry(t).or_insert(0);
                *e = e.wrapping_add(coef);
            }
        }
    }

    // ---- evaluation under a model ---------------------------------------
    pub fn eval(&self, t: T, m: &mut Model) -> u128 {
        let vals = std::mem::take(&mut m.vals);
        let r = self.eval_with(t, &vals, &mut m.memo);
        m.vals = vals;
        r
    }
    pub fn eval_with(&self, t: T, vals: &[u128], memo: &mut FxMap<T, u128>) -> u128 {
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = &self.nodes[x as usize];
            match n.op {
                Op::Const => {
                    memo.insert(x, n.k);
                    stack.pop();
                }
                Op::Var => {
                    let v = vals.get(n.k as usize).copied().unwrap_or(0);
                    memo.insert(x, v & mask(n.w));
                    stack.pop();
                }
                _ => {
                    let mut ready = true;
                    for ch in [n.a, n.b, n.c] {
                        if ch != 0 && !memo.contains_key(&ch) {
                            stack.push(ch);
                            ready = false;
                        }
                    }
                    if ready {
                        let g = |t: T| if t == 0 { 0 } else { memo[&t] };
                        let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                        let aw = self.w(n.a);
                        let bw = if n.b != 0 { self.w(n.b) } else { 0 };
                        let v = eval_op(n, a, b, c, aw, bw) & mask(n.w);
                        memo.insert(x, v);
                        stack.pop();
                    }
                }
            }
        }
        memo[&t]
    }

    pub fn show(&self, t: T, depth: usize) -> String {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => format!("t{}", t),
            _ => {
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Extract {
                    s += &format!("[{}..{}]", n.k + n.w as u128 - 1, n.k);
                }
                for ch in [n.a, n.b, n.c] {
                    if ch != 0 {
                        s += " ";
                        s += &self.show(ch, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

pub fn c_sdiv(x: u128, y: u128, w: u16) -> u128 {
    let (a, b) = (sext(x, w), sext(y, w));
    if b == 0 {
        if a >= 0 {
            mask(w)
        } else {
            1
        }
    } else {
        a.wrapping_div(b) as u128 & mask(w)
    }
}
pub fn c_srem(x: u128, y: u128, w: u16) -> u128 {
    let (a, b) = (sext(x, w), sext(y, w));
    if b == 0 {
        x
    } else {
        a.wrapping_rem(b) as u128 & mask(w)
    }
}
pub fn c_isnan(x: u128, w: u16) -> bool {
    if w == 32 {
        f32::from_bits(x as u32).is_nan()
    } else {
        f64::from_bits(x as u64).is_nan()
    }
}
pub fn c_fbin(op: Op, x: u128, y: u128, w: u16) -> u128 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op {
            Op::FAdd => a + b,
            Op::FSub => a - b,
            Op::FMul => a * b,
            _ => a / b,
        })
        .to_bits() as u128
    } else {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        (match op {
            Op::FAdd => a + b,
            Op::FSub => a - b,
            Op::FMul => a * b,
            _ => a / b,
        })
        .to_bits() as u128
    }
}
pub fn c_fcmp(op: Op, x: u128, y: u128, w: u16) -> bool {
    let (a, b) = if w == 32 {
        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
    } else {
        (f64::from_bits(x as u64), f64::from_bits(y as u64))
    };
    match op {
        Op::FEq => a == b,
        Op::FLt => a < b,
        _ => a <= b,
    }
}
pub fn c_fconv(op: Op, x: u128, aw: u16, w: u16) -> u128 {
    match op {
        Op::FPExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Op::FPTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        Op::SIToFP => {
            let v = sext(x, aw);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::UIToFP => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FPToSISat | Op::FPToUISat => {
            let v = if aw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            if v.is_nan() {
                return 0;
            }
            if op == Op::FPToSISat {
                let lo = -(1i128 << (w - 1));
                let hi = (1i128 << (w - 1)) - 1;
                ((v as i128).clamp(lo, hi)) as u128 & mask(w)
            } else {
                (v as u128).min(mask(w))
            }
        }
        _ => unreachable!(),
    }
}
fn eval_op(n: &Node, a: u128, b: u128, c: u128, aw: u16, bw: u16) -> u128 {
    let w = n.w;
    match n.op {
        Op::Const | Op::Var => unreachable!(),
        Op::Not => !a,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                !0
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => c_sdiv(a, b, w),
        Op::SRem => c_srem(a, b, w),
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
        Op::Concat => a << bw | b,
        Op::Extract => a >> n.k,
        Op::SExt => sext(a, aw) as u128,
        Op::Ite => {
            if a == 1 {
                b
            } else {
                c
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => c_fbin(n.op, a, b, w),
        Op::FEq | Op::FLt | Op::FLe => c_fcmp(n.op, a, b, aw) as u128,
        Op::FNan => c_isnan(a, aw) as u128,
        Op::FPExt | Op::FPTrunc | Op::SIToFP | Op::UIToFP | Op::FPToSISat | Op::FPToUISat => c_fconv(n.op, a, aw, w),
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// random terms: the simplifier must agree with direct evaluation
    #[test]
    fn simplifier_agrees_with_eval() {
        let mut seed = 12345u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for _round in 0..3000 {
            let mut ts = Terms::new();
            let vals: Vec<u128> = (0..4)
                .map(|_| match rnd() % 4 {
                    0 => rnd() as u128,
                    1 => (rnd() % 4) as u128,
                    2 => !0 - (rnd() % 4) as u128,
                    _ => 1u128 << (rnd() % 64),
                })
                .collect();
            let mut pool: Vec<(T, u128)> = vec![];
            for v in &vals {
                let w = [8u16, 16, 32, 64][(rnd() % 4) as usize];
                let t = ts.var(w);
                pool.push((t, v & mask(w)));
            }
            for _ in 0..60 {
                let i = (rnd() % pool.len() as u64) as usize;
                let j = (rnd() % pool.len() as u64) as usize;
                let (a, av) = pool[i];
                let w = ts.w(a);
                let (mut b, mut bv) = pool[j];
                if rnd() % 3 == 0 || ts.w(b) != w {
                    let k = match rnd() % 4 {
                        0 => rnd() as u128,
                        1 => (rnd() % 70) as u128,
                        2 => mask((rnd() % 65) as u16),
                        _ => 1u128 << (rnd() % 64),
                    } & mask(w);
                    b = ts.konst(k, w);
                    bv = k;
                }
                let nd = |op: Op, w: u16, k: u128| Node { op, w, a, b, c: 0, k };
                let (t, v) = match rnd() % 24 {
                    0 => (ts.and(a, b), av & bv),
                    1 => (ts.or(a, b), av | bv),
                    2 => (ts.xor(a, b), av ^ bv),
                    3 => (ts.add(a, b), av.wrapping_add(bv)),
                    4 => (ts.sub(a, b), av.wrapping_sub(bv)),
                    5 => (ts.mul(a, b), av.wrapping_mul(bv)),
                    6 => (ts.udiv(a, b), eval_op(&nd(Op::UDiv, w, 0), av, bv, 0, w, w)),
                    7 => (ts.urem(a, b), eval_op(&nd(Op::URem, w, 0), av, bv, 0, w, w)),
                    8 => (ts.shl(a, b), eval_op(&nd(Op::Shl, w, 0), av, bv, 0, w, w)),
                    9 => (ts.lshr(a, b), eval_op(&nd(Op::LShr, w, 0), av, bv, 0, w, w)),
                    10 => (ts.ashr(a, b), eval_op(&nd(Op::AShr, w, 0), av, bv, 0, w, w)),
                    11 => (ts.eq(a, b), (av == bv) as u128),
                    12 => (ts.ult(a, b), (av < bv) as u128),
                    13 => (ts.slt(a, b), (sext(av, w) < sext(bv, w)) as u128),
                    14 => (ts.not(a), !av),
                    15 | 16 => {
                        let hi = (rnd() % w as u64) as u16;
                        let lo = (rnd() % (hi as u64 + 1)) as u16;
                        (ts.extract(a, hi, lo), av >> lo)
                    }
                    17 | 18 => {
                        let (c, cv) = pool[j];
                        let cw = ts.w(c);
                        if cw + w > 128 {
                            continue;
                        }
                        (ts.concat(a, c), av << cw | cv)
                    }
                    19 => {
                        let nw = w + (rnd() % 20) as u16;
                        if nw > 128 {
                            continue;
                        }
                        (ts.sext(a, nw), sext(av, w) as u128)
                    }
                    20 => {
                        let nw = w + (rnd() % 20) as u16;
                        if nw > 128 {
                            continue;
                        }
                        (ts.zext(a, nw), av)
                    }
                    21 | 22 => {
                        let c = pool.iter().find(|x| ts.w(x.0) == 1).copied();
                        match c {
                            Some((c, cv)) => (ts.ite(c, a, b), if cv == 1 { av } else { bv }),
                            None => continue,
                        }
                    }
                    _ => (ts.sdiv(a, b), c_sdiv(av, bv, w)),
                };
                let v = v & mask(ts.w(t));
                let mut m = Model::new(vals.clone());
                assert_eq!(ts.eval(t, &mut m), v, "{}", ts.show(t, 6));
                assert_eq!(ts.kz[t as usize] & v, 0);
                assert_eq!(ts.ko[t as usize] & !v, 0);
                pool.push((t, v));
            }
        }
    }
}
