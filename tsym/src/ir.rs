//! Textual LLVM IR front end: module index and lazy function parsing.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Vec(Rc<Ty>, u32),
    Arr(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Other,
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                // alloc size rounds to ABI alignment
                let al = self.align();
                b.div_ceil(al) * al
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(t, n) => (t.bits() as u64 * *n as u64).div_ceil(8).next_power_of_two(),
            Ty::Arr(t, n) => t.size() * n,
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = o.div_ceil(a) * a;
                        al = al.max(a);
                    }
                    o += f.size();
                }
                o.div_ceil(al) * al
            }
        }
    }
    /// bytes touched by a load or store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(t, n) => (t.bits() as u64 * *n as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().min(64),
            Ty::Arr(t, _) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field")
            }
            Ty::Arr(t, _) => t.size() * i as u64,
            Ty::Vec(t, _) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(t, _) | Ty::Vec(t, _) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
}

/// A run-time or constant value.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    T(u32),
    W(Rc<u128>), // constants wider than 64 bits
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FPTrunc,
    FPExt,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    Bitcast, // includes ptrtoint / inttoptr (resized)
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, ty: Ty, dst: u32, a: Opd, b: Opd },
    ICmp { p: Pred, ty: Ty, dst: u32, a: Opd, b: Opd },
    FCmp { p: u8, ty: Ty, dst: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, dst: u32, a: Opd },
    Cast { op: Cast, from: Ty, to: Ty, dst: u32, a: Opd },
    Select { cty: Ty, ty: Ty, dst: u32, c: Opd, a: Opd, b: Opd },
    Load { ty: Ty, dst: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, p: Opd, off: i64, idx: Vec<(Opd, u16, i64)> },
    Alloca { dst: u32, size: u64, cnt: Opd, align: u64 },
    Call { dst: Option<u32>, ret: Ty, f: Callee, args: Vec<(Ty, Opd)>, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opd, idx: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<Option<u32>> },
    Rmw { op: &'static str, ty: Ty, dst: u32, p: Opd, v: Opd },
    CmpXchg { ty: Ty, dst: u32, p: Opd, c: Opd, n: Opd },
    Copy { dst: u32, a: Opd },
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ninsts: usize,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub is_const: bool,
    pub init: Option<(usize, usize)>, // text range of "TYPE INIT"
}

pub struct FnInfo {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000;

pub struct Module {
    pub text: String,
    pub globals: Vec<Global>,
    pub gindex: HashMap<String, usize>,
    pub fns: RefCell<Vec<FnInfo>>,
    pub findex: RefCell<HashMap<String, u32>>,
    pub types: HashMap<String, (usize, usize)>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Str(Vec<u8>),
    P(u8),
    Label(String),
    Nl,
    Eof,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

struct Lex {
    toks: Vec<Tok>,
    pos: usize,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            out.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut t = vec![];
    let mut i = 0;
    let n = b.len();
    let mut bol = true;
    while i < n {
        let c = b[i];
        match c {
            b'\n' => {
                t.push(Tok::Nl);
                i += 1;
                bol = true;
                continue;
            }
            b' ' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'%' | b'@' | b'!' | b'#' | b'^' => {
                let mut j = i + 1;
                let name;
                if j < n && b[j] == b'"' {
                    let st = j + 1;
                    j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st..j])).to_string();
                    j += 1;
                } else {
                    let st = j;
                    while j < n && is_id(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                }
                t.push(match c {
                    b'%' => Tok::Local(name),
                    b'@' => Tok::Global(name),
                    _ => Tok::Meta(name),
                });
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                let v = unescape(&b[st..j]);
                i = j + 1;
                if i < n && b[i] == b':' && bol {
                    t.push(Tok::Label(String::from_utf8_lossy(&v).to_string()));
                    i += 1;
                } else {
                    t.push(Tok::Str(v));
                }
            }
            _ if is_id(c) => {
                let st = i;
                // "..." varargs
                while i < n && (is_id(b[i]) || (b[i] == b'+' && i > st && b[i - 1] == b'e')) {
                    i += 1;
                }
                let w = &s[st..i];
                if i < n && b[i] == b':' && bol {
                    t.push(Tok::Label(w.to_string()));
                    i += 1;
                } else if w == "c" && i < n && b[i] == b'"' {
                    let st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    t.push(Tok::Str(unescape(&b[st..j])));
                    i = j + 1;
                } else {
                    t.push(Tok::Word(w.to_string()));
                }
            }
            _ => {
                t.push(Tok::P(c));
                i += 1;
            }
        }
        bol = false;
    }
    t.push(Tok::Eof);
    t
}

impl Lex {
    fn peek(&self) -> &Tok {
        &self.toks[self.pos]
    }
    fn next(&mut self) -> Tok {
        let t = self.toks[self.pos].clone();
        if self.pos + 1 < self.toks.len() {
            self.pos += 1;
        }
        t
    }
    fn is_p(&self, c: u8) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.pos += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected {} got {:?} near {:?}", c as char, self.peek(), &self.toks[self.pos.saturating_sub(12)..(self.pos + 6).min(self.toks.len())]);
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.pos += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            Tok::Word(w) => w,
            t => panic!("expected word, got {:?}", t),
        }
    }
    fn skip_nl(&mut self) {
        while *self.peek() == Tok::Nl {
            self.pos += 1;
        }
    }
    fn skip_line(&mut self) {
        while !matches!(self.peek(), Tok::Nl | Tok::Eof) {
            self.pos += 1;
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            globals: vec![],
            gindex: HashMap::new(),
            fns: RefCell::new(vec![]),
            findex: RefCell::new(HashMap::new()),
            types: HashMap::new(),
            aliases: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let n = b.len();
        let mut raw_globals: Vec<(String, usize, usize, bool, bool)> = vec![];
        while i < n {
            let e = text[i..].find('\n').map(|x| i + x).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with("define ") {
                // until line "}"
                let mut j = e + 1;
                loop {
                    let e2 = text[j..].find('\n').map(|x| j + x).unwrap_or(n);
                    if &text[j..e2] == "}" {
                        let name = fn_name(line);
                        let id = m.fns.borrow().len() as u32;
                        m.fns.borrow_mut().push(FnInfo { name: name.clone(), text: Some((i, e2)), parsed: RefCell::new(None) });
                        m.findex.borrow_mut().insert(name, id);
                        i = e2 + 1;
                        break;
                    }
                    j = e2 + 1;
                }
                continue;
            } else if line.starts_with('@') {
                // @name = [linkage..] (global|constant) TYPE [INIT], align ..
                let l = &text[i..e];
                let (name, rest_off) = if l.as_bytes()[1] == b'"' {
                    let q = l[2..].find('"').unwrap() + 2;
                    (String::from_utf8_lossy(&unescape(l[2..q].as_bytes())).to_string(), q + 1)
                } else {
                    let q = l.find(' ').unwrap();
                    (l[1..q].to_string(), q)
                };
                let r = &l[rest_off..];
                if let Some(p) = find_kw(r, "alias") {
                    let t = r[p..].rfind('@').unwrap();
                    let target = r[p + t + 1..].trim().trim_matches('"').to_string();
                    m.aliases.insert(name, target);
                } else {
                    let (k, is_const) = match (find_kw(r, "global"), find_kw(r, "constant")) {
                        (Some(a), Some(b)) => {
                            if a < b {
                                (a + 6, false)
                            } else {
                                (b + 8, true)
                            }
                        }
                        (Some(a), None) => (a + 6, false),
                        (None, Some(b)) => (b + 8, true),
                        _ => panic!("global? {}", l),
                    };
                    let ext = r[..k].contains("external ") || r[..k].contains("extern_weak ");
                    raw_globals.push((name, i + rest_off + k, e, is_const, ext));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let q = line.find(" = type ").unwrap();
                m.types.insert(line[1..q].trim_matches('"').to_string(), (i + q + 8, e));
            }
            i = e + 1;
        }
        m.text = text;
        let mut addr = GLOB_BASE;
        for (name, s, e, is_const, ext) in raw_globals {
            let ty = {
                // only lex a bounded prefix when the initializer is large
                let toks = lex(&m.text[s..e.min(floor_char(&m.text, s + 400, e))]);
                let mut lx = Lex { toks, pos: 0 };
                m.ty(&mut lx)
            };
            let size = ty.size();
            let idx = m.globals.len();
            m.globals.push(Global { name: name.clone(), addr, size, is_const, init: if ext { None } else { Some((s, e)) } });
            m.gindex.insert(name, idx);
            addr += (size + 31) / 16 * 16 + 16;
        }
        m
    }

    pub fn fn_id(&self, name: &str) -> u32 {
        let name = self.aliases.get(name).map(|s| s.as_str()).unwrap_or(name);
        if let Some(&i) = self.findex.borrow().get(name) {
            return i;
        }
        let mut fns = self.fns.borrow_mut();
        let id = fns.len() as u32;
        fns.push(FnInfo { name: name.to_string(), text: None, parsed: RefCell::new(None) });
        self.findex.borrow_mut().insert(name.to_string(), id);
        id
    }
    pub fn global_addr(&self, name: &str) -> u64 {
        if let Some(&g) = self.gindex.get(name) {
            return self.globals[g].addr;
        }
        if let Some(a) = self.aliases.get(name) {
            if let Some(&g) = self.gindex.get(a.as_str()) {
                return self.globals[g].addr;
            }
        }
        FUNC_BASE + self.fn_id(name) as u64 * 16
    }

    pub fn global_init(&self, g: usize) -> Option<(Ty, Val)> {
        let (s, e) = self.globals[g].init?;
        let toks = lex(&self.text[s..e]);
        let mut lx = Lex { toks, pos: 0 };
        let ty = self.ty(&mut lx);
        let v = self.konst(&mut lx, &ty);
        Some((ty, v))
    }

    fn ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" => Ty::Meta,
                "label" | "token" | "half" | "fp128" | "x86_fp80" | "opaque" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type? {} near {:?}", w, &l.toks[l.pos.saturating_sub(12)..(l.pos + 6).min(l.toks.len())]),
            },
            Tok::P(b'[') => {
                let n: u64 = l.word().parse().unwrap();
                assert_eq!(l.word(), "x");
                let t = self.ty(l);
                l.need(b']');
                Ty::Arr(Rc::new(t), n)
            }
            Tok::P(b'{') => self.struct_body(l, false),
            Tok::P(b'<') => {
                if l.is_p(b'{') {
                    l.next();
                    let s = self.struct_body(l, true);
                    l.need(b'>');
                    s
                } else {
                    let n: u32 = l.word().parse().unwrap();
                    assert_eq!(l.word(), "x");
                    let t = self.ty(l);
                    l.need(b'>');
                    Ty::Vec(Rc::new(t), n)
                }
            }
            Tok::Local(n) => {
                let (s, e) = *self.types.get(&n).unwrap_or_else(|| panic!("named type {}", n));
                let toks = lex(&self.text[s..e]);
                self.ty(&mut Lex { toks, pos: 0 })
            }
            t => panic!("type? {:?}", t),
        };
        if l.is_w("addrspace") {
            l.next();
            l.skip_parens();
        }
        t
    }
    fn struct_body(&self, l: &mut Lex, packed: bool) -> Ty {
        let mut fs = vec![];
        if l.eat_p(b'}') {
            return Ty::Struct(Rc::new(fs), packed);
        }
        loop {
            fs.push(self.ty(l));
            if l.eat_p(b'}') {
                break;
            }
            l.need(b',');
        }
        Ty::Struct(Rc::new(fs), packed)
    }

    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Vec(t, n) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Arr(t, n) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(Self::zero).collect())),
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            _ => Val::C(0),
        }
    }

    fn parse_int(w: &str, ty: &Ty) -> Option<Val> {
        let bits = match ty {
            Ty::Int(b) => *b,
            Ty::F32 | Ty::F64 | Ty::Ptr => return Self::parse_fp(w, ty),
            _ => return None,
        };
        let v: u128 = match w {
            "true" => 1,
            "false" => 0,
            _ => {
                if let Some(r) = w.strip_prefix('-') {
                    (r.parse::<u128>().ok()? as i128).wrapping_neg() as u128
                } else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                    u128::from_str_radix(h, 16).ok()?
                } else {
                    w.parse::<u128>().ok()?
                }
            }
        };
        let v = v & crate::term::mask(bits);
        Some(if bits > 64 { Val::W(Rc::new(v)) } else { Val::C(v as u64) })
    }
    fn parse_fp(w: &str, ty: &Ty) -> Option<Val> {
        match ty {
            Ty::F64 => {
                if let Some(h) = w.strip_prefix("f0x").or(w.strip_prefix("0x")) {
                    return Some(Val::C(u64::from_str_radix(h, 16).ok()?));
                }
                Self::named_fp(w).or(w.parse::<f64>().ok()).map(|f| Val::C(f.to_bits()))
            }
            Ty::F32 => {
                if let Some(h) = w.strip_prefix("f0x") {
                    return Some(Val::C(u64::from_str_radix(h, 16).ok()?));
                }
                if let Some(h) = w.strip_prefix("0x") {
                    let d = f64::from_bits(u64::from_str_radix(h, 16).ok()?);
                    return Some(Val::C((d as f32).to_bits() as u64));
                }
                Self::named_fp(w).or(w.parse::<f64>().ok()).map(|f| Val::C((f as f32).to_bits() as u64))
            }
            _ => None,
        }
    }
    fn named_fp(w: &str) -> Option<f64> {
        match w {
            "inf" | "pinf" => Some(f64::INFINITY),
            "-inf" | "ninf" => Some(f64::NEG_INFINITY),
            "qnan" | "nan" => Some(f64::NAN),
            _ => None,
        }
    }

    fn konst(&self, l: &mut Lex, ty: &Ty) -> Val {
        match l.next() {
            Tok::Word(w) => match w.as_str() {
                "null" | "zeroinitializer" | "undef" | "poison" | "none" => Self::zero(ty),
                "splat" => {
                    l.need(b'(');
                    let t = self.ty(l);
                    let v = self.konst(l, &t);
                    l.need(b')');
                    match ty {
                        Ty::Vec(_, n) => Val::A(Rc::new(vec![v; *n as usize])),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while !l.is_p(b'(') {
                        l.next();
                    }
                    l.need(b'(');
                    let et = self.ty(l);
                    l.need(b',');
                    let pt = self.ty(l);
                    let base = self.konst(l, &pt);
                    let mut addr = cval(&base);
                    let mut cur = et.clone();
                    let mut first = true;
                    while l.eat_p(b',') {
                        // inrange annotations are before '('; skip attributes
                        let it = self.ty(l);
                        let iv = self.konst(l, &it);
                        let k = sx(cval(&iv), it.bits());
                        if first {
                            addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(k) as u64);
                            first = false;
                        } else {
                            addr = addr.wrapping_add(match &cur {
                                Ty::Struct(..) => cur.field_off(k as usize),
                                _ => (cur.elem(0).size() as i64).wrapping_mul(k) as u64,
                            });
                            cur = cur.elem(if let Ty::Struct(..) = cur { k as usize } else { 0 });
                        }
                    }
                    l.need(b')');
                    Val::C(addr)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    while !l.is_p(b'(') {
                        l.next();
                    }
                    l.need(b'(');
                    let ft = self.ty(l);
                    let v = self.konst(l, &ft);
                    assert_eq!(l.word(), "to");
                    let tt = self.ty(l);
                    l.need(b')');
                    let mut x = cval(&v);
                    if w == "sext" {
                        x = sx(x, ft.bits()) as u64;
                    }
                    Val::C(x & crate::term::mask(tt.bits().min(64)) as u64)
                }
                "sub" | "add" | "xor" | "mul" | "shl" | "and" | "or" => {
                    while !l.is_p(b'(') {
                        l.next();
                    }
                    l.need(b'(');
                    let t1 = self.ty(l);
                    let a = cval(&self.konst(l, &t1));
                    l.need(b',');
                    let t2 = self.ty(l);
                    let b = cval(&self.konst(l, &t2));
                    l.need(b')');
                    let r = match w.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "xor" => a ^ b,
                        "mul" => a.wrapping_mul(b),
                        "and" => a & b,
                        "or" => a | b,
                        _ => a << b,
                    };
                    Val::C(r & crate::term::mask(t1.bits().min(64)) as u64)
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(l, ty),
                _ => match Self::parse_int(&w, ty) {
                    Some(v) => v,
                    None => panic!("const? {} : {:?}", w, ty),
                },
            },
            Tok::P(b'+') => self.konst(l, ty),
            Tok::Global(g) => Val::C(self.global_addr(&g)),
            Tok::Str(s) => Val::A(Rc::new(s.iter().map(|&b| Val::C(b as u64)).collect())),
            Tok::P(b'[') => {
                let mut v = vec![];
                if !l.eat_p(b']') {
                    loop {
                        let t = self.ty(l);
                        v.push(self.konst(l, &t));
                        if l.eat_p(b']') {
                            break;
                        }
                        l.need(b',');
                    }
                }
                Val::A(Rc::new(v))
            }
            Tok::P(b'{') => self.agg(l),
            Tok::P(b'<') => {
                if l.eat_p(b'{') {
                    let v = self.agg(l);
                    l.need(b'>');
                    v
                } else {
                    let mut v = vec![];
                    loop {
                        let t = self.ty(l);
                        v.push(self.konst(l, &t));
                        if l.eat_p(b'>') {
                            break;
                        }
                        l.need(b',');
                    }
                    Val::A(Rc::new(v))
                }
            }
            Tok::Meta(_) => Val::C(0),
            t => panic!("const? {:?} : {:?}", t, ty),
        }
    }
    fn agg(&self, l: &mut Lex) -> Val {
        let mut v = vec![];
        if l.eat_p(b'}') {
            return Val::A(Rc::new(v));
        }
        loop {
            let t = self.ty(l);
            v.push(self.konst(l, &t));
            if l.eat_p(b'}') {
                break;
            }
            l.need(b',');
        }
        Val::A(Rc::new(v))
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        {
            let fns = self.fns.borrow();
            let fi = &fns[id as usize];
            if let Some(f) = fi.parsed.borrow().as_ref() {
                return Some(f.clone());
            }
            fi.text?;
        }
        let (s, e) = self.fns.borrow()[id as usize].text.unwrap();
        let name = self.fns.borrow()[id as usize].name.clone();
        let f = Rc::new(self.parse_fn(&name, s, e));
        *self.fns.borrow()[id as usize].parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }

    fn skip_attrs(&self, l: &mut Lex) {
        loop {
            match l.peek().clone() {
                Tok::Word(w) => {
                    match w.as_str() {
                        "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "nofree" | "zeroext"
                        | "signext" | "inreg" | "returned" | "immarg" | "nest" | "noext" | "writable" | "dead_on_unwind" | "swiftself"
                        | "allocptr" | "allocalign" | "dead_on_return" | "nofpclass" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval"
                        | "initializes" | "elementtype" | "memory" | "inalloca" | "preallocated" | "byref" | "alignstack" => {
                            l.next();
                            if l.is_p(b'(') {
                                l.skip_parens();
                            }
                        }
                        "align" => {
                            l.next();
                            if l.is_p(b'(') {
                                l.skip_parens();
                            } else {
                                l.next();
                            }
                        }
                        _ => return,
                    }
                }
                Tok::Meta(_) | Tok::Str(_) => return,
                _ => return,
            }
        }
    }

    fn parse_fn(&self, name: &str, s: usize, e: usize) -> Func {
        let toks = lex(&self.text[s..e]);
        let mut l = Lex { toks, pos: 0 };
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header: find @name token then '('
        loop {
            match l.next() {
                Tok::Global(_) => break,
                Tok::Eof => panic!("no name"),
                _ => {}
            }
        }
        l.need(b'(');
        let mut nparams = 0usize;
        if !l.eat_p(b')') {
            loop {
                if l.eat_p(b'.') || matches!(l.peek(), Tok::Word(w) if w == "...") {
                    l.next();
                    l.need(b')');
                    break;
                }
                let _t = self.ty(&mut l);
                self.skip_attrs(&mut l);
                match l.peek().clone() {
                    Tok::Local(n) => {
                        l.next();
                        regs.insert(n, nparams as u32);
                    }
                    _ => {
                        regs.insert(format!("{}", nparams), nparams as u32);
                    }
                }
                nparams += 1;
                if l.eat_p(b')') {
                    break;
                }
                l.need(b',');
            }
        }
        // skip to body '{' at end of header line
        loop {
            let t = l.next();
            if t == Tok::P(b'{') && *l.peek() == Tok::Nl {
                break;
            }
            if t == Tok::Eof {
                panic!("no body in {}", name);
            }
        }
        let mut p = FnP { m: self, regs, nregs: nparams as u32, blocks: HashMap::new(), names: vec![] };
        // unnamed entry block label = number of unnamed params
        let mut out: Vec<Block> = vec![];
        l.skip_nl();
        let first = match l.peek().clone() {
            Tok::Label(n) => {
                l.next();
                l.skip_line();
                n
            }
            _ => {
                let cnt = (0..nparams).filter(|i| p.regs.contains_key(&i.to_string())).count();
                cnt.to_string()
            }
        };
        let b0 = p.bb(&first);
        assert_eq!(b0, 0);
        let mut cur = Block { name: first, phis: vec![], insts: vec![] };
        let mut cur_id = 0u32;
        let mut done: Vec<(u32, Block)> = vec![];
        loop {
            l.skip_nl();
            match l.peek().clone() {
                Tok::Eof | Tok::P(b'}') => break,
                Tok::Label(n) => {
                    l.next();
                    l.skip_line();
                    done.push((cur_id, cur));
                    cur_id = p.bb(&n);
                    cur = Block { name: n, phis: vec![], insts: vec![] };
                }
                _ => p.inst(&mut l, &mut cur),
            }
        }
        done.push((cur_id, cur));
        done.sort_by_key(|x| x.0);
        for (i, (id, b)) in done.into_iter().enumerate() {
            assert_eq!(i as u32, id, "missing block in {}", name);
            out.push(b);
        }
        let ninsts = out.iter().map(|b| b.insts.len() + b.phis.len()).sum();
        Func { name: name.to_string(), nparams, nregs: p.nregs as usize, blocks: out, ninsts }
    }
}

fn floor_char(s: &str, mut i: usize, e: usize) -> usize {
    i = i.min(e);
    while i < e && !s.is_char_boundary(i) {
        i += 1;
    }
    // do not cut inside a quoted string or nested type: extend until a space boundary outside is not needed for types,
    // except for very long struct types
    let seg = &s[..i];
    let start = seg.rfind('\n').unwrap_or(0);
    let part = &s[start..i];
    if part.matches('"').count() % 2 == 1 || part.matches('{').count() != part.matches('}').count() || part.matches('<').count() != part.matches('>').count() {
        return e;
    }
    i
}

fn find_kw(s: &str, kw: &str) -> Option<usize> {
    let mut from = 0;
    while let Some(p) = s[from..].find(kw) {
        let a = from + p;
        let before = a == 0 || s.as_bytes()[a - 1] == b' ';
        let after = a + kw.len() >= s.len() || s.as_bytes()[a + kw.len()] == b' ';
        if before && after {
            return Some(a);
        }
        from = a + kw.len();
    }
    None
}

fn fn_name(line: &str) -> String {
    let p = line.find('@').unwrap();
    let r = &line[p + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"').unwrap();
        String::from_utf8_lossy(&unescape(q[..e].as_bytes())).to_string()
    } else {
        let e = r.find('(').unwrap();
        r[..e].to_string()
    }
}

pub fn cval(v: &Val) -> u64 {
    match v {
        Val::C(x) => *x,
        Val::W(x) => **x as u64,
        v => panic!("cval {:?}", v),
    }
}
pub fn sx(v: u64, bits: u16) -> i64 {
    crate::term::sext(v as u128, bits) as i64
}

struct FnP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
    names: Vec<String>,
}

impl<'a> FnP<'a> {
    fn bb(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let id = self.names.len() as u32;
        self.blocks.insert(n.to_string(), id);
        self.names.push(n.to_string());
        id
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, l: &mut Lex, ty: &Ty) -> Opd {
        match l.peek().clone() {
            Tok::Local(n) => {
                l.next();
                Opd::R(self.reg(&n))
            }
            _ => Opd::C(self.m.konst(l, ty)),
        }
    }
    fn topd(&mut self, l: &mut Lex) -> (Ty, Opd) {
        let t = self.m.ty(l);
        self.m.skip_attrs(l);
        let o = self.opd(l, &t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lex) -> u32 {
        l.skip_nl();
        assert!(l.eat_w("label"), "label expected {:?}", l.peek());
        match l.next() {
            Tok::Local(n) => self.bb(&n),
            t => panic!("label {:?}", t),
        }
    }

    fn inst(&mut self, l: &mut Lex, b: &mut Block) {
        // debug records
        if let Tok::Meta(_) = l.peek() {
            l.skip_line();
            return;
        }
        let start = l.pos;
        let mut dst: Option<u32> = None;
        if let Tok::Local(n) = l.peek().clone() {
            l.next();
            l.need(b'=');
            dst = Some(self.reg(&n));
        }
        let mut w = l.word();
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = l.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let inst = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub"
            | "fmul" | "fdiv" | "frem" => {
                let op = match w.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                self.skip_flags(l);
                let ty = self.m.ty(l);
                let a = self.opd(l, &ty);
                l.need(b',');
                let bb = self.opd(l, &ty);
                Inst::Bin { op, ty, dst: d, a, b: bb }
            }
            "fneg" => {
                self.skip_flags(l);
                let (ty, a) = self.topd(l);
                Inst::FNeg { ty, dst: d, a }
            }
            "icmp" => {
                l.eat_w("samesign");
                let p = match l.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let ty = self.m.ty(l);
                let a = self.opd(l, &ty);
                l.need(b',');
                let bb = self.opd(l, &ty);
                Inst::ICmp { p, ty, dst: d, a, b: bb }
            }
            "fcmp" => {
                self.skip_flags(l);
                let p = match l.word().as_str() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    x => panic!("fpred {}", x),
                };
                let ty = self.m.ty(l);
                let a = self.opd(l, &ty);
                l.need(b',');
                let bb = self.opd(l, &ty);
                Inst::FCmp { p, ty, dst: d, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "bitcast" | "ptrtoint"
            | "inttoptr" | "ptrtoaddr" => {
                let op = match w.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptrunc" => Cast::FPTrunc,
                    "fpext" => Cast::FPExt,
                    "uitofp" => Cast::UIToFP,
                    "sitofp" => Cast::SIToFP,
                    "fptoui" => Cast::FPToUI,
                    "fptosi" => Cast::FPToSI,
                    "bitcast" => Cast::Bitcast,
                    _ => Cast::PtrInt,
                };
                self.skip_flags(l);
                let (from, a) = self.topd(l);
                assert_eq!(l.word(), "to");
                let to = self.m.ty(l);
                Inst::Cast { op, from, to, dst: d, a }
            }
            "select" => {
                self.skip_flags(l);
                let (cty, c) = self.topd(l);
                l.need(b',');
                let (ty, a) = self.topd(l);
                l.need(b',');
                let (_, bb) = self.topd(l);
                Inst::Select { cty, ty, dst: d, c, a, b: bb }
            }
            "phi" => {
                self.skip_flags(l);
                let ty = self.m.ty(l);
                let mut v = vec![];
                loop {
                    l.need(b'[');
                    let o = self.opd(l, &ty);
                    l.need(b',');
                    let bb = match l.next() {
                        Tok::Local(n) => self.bb(&n),
                        t => panic!("phi {:?}", t),
                    };
                    l.need(b']');
                    v.push((bb, o));
                    if !(l.is_p(b',') && l.toks[l.pos + 1] == Tok::P(b'[')) {
                        break;
                    }
                    l.next();
                }
                l.skip_line();
                b.phis.push((d, v));
                return;
            }
            "load" => {
                while matches!(l.peek(), Tok::Word(x) if x == "volatile" || x == "atomic") {
                    l.next();
                }
                let ty = self.m.ty(l);
                l.need(b',');
                let (_, p) = self.topd(l);
                Inst::Load { ty, dst: d, p }
            }
            "store" => {
                while matches!(l.peek(), Tok::Word(x) if x == "volatile" || x == "atomic") {
                    l.next();
                }
                let (ty, v) = self.topd(l);
                l.need(b',');
                let (_, p) = self.topd(l);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                self.skip_flags(l);
                let et = self.m.ty(l);
                l.need(b',');
                let (_, p) = self.topd(l);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while l.is_p(b',') && !matches!(l.toks[l.pos + 1], Tok::Meta(_)) {
                    l.next();
                    let (it, io) = self.topd(l);
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &io {
                                    Opd::C(v) => cval(v) as usize,
                                    _ => panic!("struct gep"),
                                };
                                off += cur.field_off(k) as i64;
                                cur = cur.elem(k);
                                continue;
                            }
                            _ => {
                                cur = cur.elem(0);
                                scale = cur.size() as i64;
                            }
                        }
                    }
                    match &io {
                        Opd::C(v) => off = off.wrapping_add(scale.wrapping_mul(sx(cval(v), it.bits()))),
                        _ => idx.push((io, it.bits(), scale)),
                    }
                }
                Inst::Gep { dst: d, p, off, idx }
            }
            "alloca" => {
                self.skip_flags(l);
                let ty = self.m.ty(l);
                let mut cnt = Opd::C(Val::C(1));
                let mut align = ty.align();
                while l.eat_p(b',') {
                    if l.eat_w("align") {
                        align = l.word().parse().unwrap();
                    } else if matches!(l.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        cnt = self.topd(l).1;
                    }
                }
                Inst::Alloca { dst: d, size: ty.size(), cnt, align }
            }
            "call" | "invoke" => {
                // attributes and calling conventions
                loop {
                    match l.peek().clone() {
                        Tok::Word(x) => match x.as_str() {
                            "fastcc" | "coldcc" | "ccc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "preserve_mostcc"
                            | "rustcoldcc" | "preserve_nonecc" => {
                                l.next();
                            }
                            "cc" => {
                                l.next();
                                l.next();
                            }
                            _ => {
                                let p0 = l.pos;
                                self.m.skip_attrs(l);
                                if l.pos == p0 {
                                    break;
                                }
                            }
                        },
                        _ => break,
                    }
                }
                let ret = self.m.ty(l);
                // possible function type: ret (args...)
                if l.is_p(b'(') {
                    l.skip_parens();
                }
                let f = match l.next() {
                    Tok::Global(g) => {
                        let a = self.m.global_addr(&g);
                        Callee::Fn(((a - FUNC_BASE) / 16) as u32)
                    }
                    Tok::Local(n) => Callee::Ind(Opd::R(self.reg(&n))),
                    Tok::Word(x) if x == "asm" => {
                        while !l.is_p(b'(') {
                            l.next();
                        }
                        Callee::Asm
                    }
                    Tok::Word(x) if x == "inttoptr" => {
                        l.pos -= 1;
                        let v = self.m.konst(l, &Ty::Ptr);
                        Callee::Ind(Opd::C(v))
                    }
                    t => panic!("callee {:?}", t),
                };
                l.need(b'(');
                let mut args = vec![];
                if !l.eat_p(b')') {
                    loop {
                        let t = self.m.ty(l);
                        self.m.skip_attrs(l);
                        if t == Ty::Meta {
                            // metadata operand: skip to , or )
                            let mut depth = 0;
                            loop {
                                match l.peek() {
                                    Tok::P(b'(') => depth += 1,
                                    Tok::P(b')') if depth > 0 => depth -= 1,
                                    Tok::P(b')') | Tok::P(b',') if depth == 0 => break,
                                    _ => {}
                                }
                                l.next();
                            }
                            args.push((t, Opd::C(Val::C(0))));
                        } else {
                            let o = self.opd(l, &t);
                            args.push((t, o));
                        }
                        if l.eat_p(b')') {
                            break;
                        }
                        l.need(b',');
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    while !l.is_w("to") {
                        l.next();
                    }
                    l.next();
                    normal = Some(self.label(l));
                    l.skip_nl();
                    assert_eq!(l.word(), "unwind");
                    let _ = self.label(l);
                }
                Inst::Call { dst, ret, f, args, normal }
            }
            "extractvalue" => {
                let (_, a) = self.topd(l);
                let idx = self.indices(l);
                Inst::ExtractValue { dst: d, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.topd(l);
                l.need(b',');
                let (_, v) = self.topd(l);
                let idx = self.indices(l);
                Inst::InsertValue { dst: d, ty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.topd(l);
                l.need(b',');
                let (_, i) = self.topd(l);
                Inst::ExtractElem { dst: d, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.topd(l);
                l.need(b',');
                let (_, v) = self.topd(l);
                l.need(b',');
                let (_, i) = self.topd(l);
                Inst::InsertElem { dst: d, ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.topd(l);
                l.need(b',');
                let (_, bb) = self.topd(l);
                l.need(b',');
                let mt = self.m.ty(l);
                let n = match &mt {
                    Ty::Vec(_, n) => *n as usize,
                    _ => panic!(),
                };
                let mask = if l.eat_w("zeroinitializer") {
                    vec![Some(0); n]
                } else if l.eat_w("poison") || l.eat_w("undef") {
                    vec![None; n]
                } else if l.is_w("splat") {
                    match self.m.konst(l, &mt) {
                        Val::A(v) => v.iter().map(|x| Some(cval(x) as u32)).collect(),
                        _ => panic!(),
                    }
                } else {
                    l.need(b'<');
                    let mut v = vec![];
                    loop {
                        let _ = self.m.ty(l);
                        let x = l.word();
                        v.push(x.parse::<u32>().ok());
                        if l.eat_p(b'>') {
                            break;
                        }
                        l.need(b',');
                    }
                    v
                };
                Inst::Shuffle { dst: d, ty, a, b: bb, mask }
            }
            "atomicrmw" => {
                l.eat_w("volatile");
                let op: &'static str = match l.word().as_str() {
                    "xchg" => "xchg",
                    "add" => "add",
                    "sub" => "sub",
                    "and" => "and",
                    "or" => "or",
                    "xor" => "xor",
                    "umax" => "umax",
                    "umin" => "umin",
                    x => panic!("rmw {}", x),
                };
                let (_, p) = self.topd(l);
                l.need(b',');
                let (ty, v) = self.topd(l);
                Inst::Rmw { op, ty, dst: d, p, v }
            }
            "cmpxchg" => {
                while matches!(l.peek(), Tok::Word(x) if x == "volatile" || x == "weak") {
                    l.next();
                }
                let (_, p) = self.topd(l);
                l.need(b',');
                let (ty, c) = self.topd(l);
                l.need(b',');
                let (_, n) = self.topd(l);
                Inst::CmpXchg { ty, dst: d, p, c, n }
            }
            "freeze" => {
                let (_, a) = self.topd(l);
                Inst::Copy { dst: d, a }
            }
            "fence" => Inst::Nop,
            "br" => {
                if l.is_w("label") {
                    Inst::Br(self.label(l))
                } else {
                    let (_, c) = self.topd(l);
                    l.need(b',');
                    let t = self.label(l);
                    l.need(b',');
                    let f = self.label(l);
                    Inst::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (ty, v) = self.topd(l);
                l.need(b',');
                let def = self.label(l);
                l.need(b'[');
                let mut cases = vec![];
                loop {
                    l.skip_nl();
                    if l.eat_p(b']') {
                        break;
                    }
                    let (_, o) = self.topd(l);
                    l.need(b',');
                    let bb = self.label(l);
                    let k = match o {
                        Opd::C(Val::C(x)) => x as u128,
                        Opd::C(Val::W(x)) => *x,
                        _ => panic!("switch case"),
                    };
                    cases.push((k, bb));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => {
                if l.is_w("void") {
                    Inst::Ret(None)
                } else {
                    let (_, o) = self.topd(l);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                l.skip_line();
                loop {
                    let p0 = l.pos;
                    l.skip_nl();
                    if matches!(l.peek(), Tok::Word(x) if x == "cleanup" || x == "catch" || x == "filter") {
                        l.skip_line();
                    } else {
                        l.pos = p0;
                        break;
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => Inst::Unsupported("resume".into()),
            x => {
                let _ = start;
                Inst::Unsupported(x.to_string())
            }
        };
        l.skip_line();
        b.insts.push(inst);
    }
    fn skip_flags(&self, l: &mut Lex) {
        loop {
            match l.peek() {
                Tok::Word(w)
                    if matches!(
                        w.as_str(),
                        "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
                            | "afn" | "reassoc" | "fast" | "inalloca" | "samesign"
                    ) =>
                {
                    l.next();
                }
                Tok::Word(w) if w == "inrange" => {
                    l.next();
                    l.skip_parens();
                }
                _ => break,
            }
        }
    }
    fn indices(&mut self, l: &mut Lex) -> Vec<u32> {
        let mut v = vec![];
        while l.is_p(b',') {
            if let Tok::Word(w) = &l.toks[l.pos + 1] {
                if let Ok(k) = w.parse::<u32>() {
                    l.next();
                    l.next();
                    v.push(k);
                    continue;
                }
            }
            break;
        }
        v
    }
}
