//! The harness' window to the symbolic executor (and, natively, to the replayer).
extern "C" {
    fn tsym_any(bits: u32) -> u64;
    fn tsym_assume(c: bool);
    fn tsym_assert(c: bool, p: *const u8, l: usize);
    fn tsym_fail(p: *const u8, l: usize) -> !;
    fn tsym_reach(p: *const u8, l: usize);
    fn tsym_observe(v: u64);
    fn tsym_concretize(v: u64) -> u64;
    fn tsym_param(i: u64) -> u64;
}
#[inline(never)]
pub fn any(bits: u32) -> u64 {
    unsafe { tsym_any(bits) }
}
pub fn any_i64() -> i64 {
    any(64) as i64
}
pub fn any_i32() -> i32 {
    any(32) as u32 as i32
}
pub fn any_u8() -> u8 {
    any(8) as u8
}
pub fn any_bool() -> bool {
    any(1) != 0
}
/// an arbitrary number below n; every value becomes a path of its own
pub fn choose(n: u64) -> u64 {
    let v = any(32);
    assume(v < n);
    conc(v)
}
pub fn assume(c: bool) {
    unsafe { tsym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { tsym_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { tsym_fail(m.as_ptr(), m.len()) }
}
pub fn reach(m: &str) {
    unsafe { tsym_reach(m.as_ptr(), m.len()) }
}
pub fn observe(v: u64) {
    unsafe { tsym_observe(v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { tsym_concretize(v) }
}
pub fn param(i: u64) -> u64 {
    unsafe { tsym_param(i) }
}
/// Collects equalities without branching on them.
pub struct Acc {
    diff: u64,
}
impl Acc {
    pub fn new() -> Acc {
        Acc { diff: 0 }
    }
    #[inline(always)]
    pub fn eq(&mut self, a: u64, b: u64) {
        self.diff |= a ^ b;
    }
    #[inline(always)]
    pub fn t(&mut self, c: bool) {
        self.diff |= (!c) as u64;
    }
    pub fn done(self, m: &str) {
        check(self.diff == 0, m)
    }
}
pub fn bytes_eq(a: &[u8], b: &[u8], m: &str) {
    if a.len() != b.len() {
        fail(m);
    }
    let mut acc = Acc::new();
    for i in 0..a.len() {
        acc.eq(a[i] as u64, b[i] as u64);
    }
    acc.done(m);
}
