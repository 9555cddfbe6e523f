//! Object memory: copy-on-write byte objects with optional symbolic bytes.
use crate::term::T;
use std::rc::Rc;

/// symbolic byte `k` of term `t` (t == 0: concrete)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SymB {
    pub t: T,
    pub k: u16,
}
pub const NOSYM: SymB = SymB { t: 0, k: 0 };

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<SymB>>,
    pub heap: bool,
}
impl Obj {
    pub fn new(size: u64, heap: bool) -> Obj {
        Obj { data: vec![0; size as usize], sym: None, heap }
    }
    pub fn has_sym(&self, o: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[o..o + n].iter().any(|b| b.t != 0),
        }
    }
    pub fn clear_sym(&mut self, o: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for b in &mut s[o..o + n] {
                *b = NOSYM;
            }
        }
    }
    pub fn set_sym(&mut self, o: usize, b: SymB) {
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![NOSYM; n]);
        s[o] = b;
    }
}

pub const HEAP_BASE: u64 = 0x1_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Mem {
    pub heap: Vec<(u64, Rc<Obj>)>,
    pub stack: Vec<(u64, Rc<Obj>)>,
    pub globals: Vec<(u32, Rc<Obj>)>, // written globals, sorted by index
    pub next: u64,
    pub snext: u64,
    pub hit: usize,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { heap: vec![], stack: vec![], globals: vec![], next: HEAP_BASE, snext: STACK_BASE, hit: 0 }
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = self.next.div_ceil(a) * a;
        self.next = base + size + 32;
        self.heap.push((base, Rc::new(Obj::new(size, true))));
        base
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = self.snext.div_ceil(a) * a;
        self.snext = base + size + 16;
        self.stack.push((base, Rc::new(Obj::new(size, false))));
        base
    }
    pub fn find(v: &[(u64, Rc<Obj>)], hit: usize, addr: u64) -> Option<usize> {
        if let Some(e) = v.get(hit) {
            if addr >= e.0 && addr - e.0 <= e.1.data.len() as u64 {
                return Some(hit);
            }
        }
        let i = v.partition_point(|e| e.0 <= addr);
        if i == 0 {
            return None;
        }
        let e = &v[i - 1];
        if addr - e.0 <= e.1.data.len() as u64 {
            Some(i - 1)
        } else {
            None
        }
    }
}
