//! The metadata log of the sync sender.
use crate::base::*;
use crate::model::*;
use crate::reader::*;
use crate::rt::*;
use std::io::Write;
use tsfile_writer::sync::verif::{write_mlog, Log};

/// CRC-32 by its definition, bit by bit
fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b {
        c ^= x as u32;
        for _ in 0..8 {
            c = (c >> 1) ^ (0xedb8_8320 & 0u32.wrapping_sub(c & 1));
        }
    }
    !c
}
#[derive(Clone, PartialEq)]
enum Plan {
    Group(Vec<u8>),
    Create(Vec<u8>, u8, u8, u8),
}
struct In<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        if n > self.b.len() - self.p {
            fail("the log ends early");
        }
        self.p += n;
        &self.b[self.p - n..self.p]
    }
    fn be(&mut self, n: usize) -> u64 {
        let mut v = 0;
        for &x in self.take(n) {
            v = v << 8 | x as u64;
        }
        v
    }
}
fn plan(i: &mut In) -> Plan {
    let tag = i.be(1);
    let n = conc(i.be(4)) as usize;
    match conc(tag) {
        3 => {
            let p = i.take(n).to_vec();
            check(i.be(8) == 0, "index of a storage group plan");
            Plan::Group(p)
        }
        4 => {
            let p = i.take(n).to_vec();
            let (d, e, c) = (i.be(1), i.be(1), i.be(1));
            check(i.be(8) == u64::MAX, "offset of the tags");
            check(i.be(4) == 0, "alias, properties, tags and attributes are absent");
            check(i.be(8) == 0, "index of a time series plan");
            Plan::Create(p, d as u8, e as u8, c as u8)
        }
        _ => fail("a plan of unknown kind"),
    }
}
/// every frame of the log
fn decode(b: &[u8], how: u64) -> Vec<Vec<Plan>> {
    let mut i = In { b, p: 0 };
    let mut all = vec![];
    while i.p < b.len() {
        let n = conc(i.be(4)) as usize;
        let body = i.take(n);
        // the sum itself is decided by h_crc; here the library's own is enough where bytes are arbitrary
        let want = if how == 0 { crc(body) } else { crc32fast::hash(body) };
        check(i.be(8) == want as u64, "check sum of a frame");
        let mut j = In { b: body, p: 0 };
        let mut ps = vec![];
        while j.p < n {
            ps.push(plan(&mut j));
        }
        all.push(ps);
    }
    all
}
fn same(a: &[Plan], b: &[Plan]) {
    if a.len() != b.len() {
        fail("another number of plans");
    }
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Plan::Group(p), Plan::Group(q)) => bytes_eq(p, q, "path of a storage group"),
            (Plan::Create(p, d, e, c), Plan::Create(q, g, h, k)) => {
                bytes_eq(p, q, "path of a time series");
                check(*d == *g, "data type in a plan");
                check(*e == *h, "encoding in a plan");
                check(*c == *k, "compression in a plan");
            }
            _ => fail("another kind of plan"),
        }
    }
}
/// n bytes of arbitrary text, or (where the check sum is computed by definition) a fixed one.  Every fourth
/// place begins a character of two bytes, every ninth one of four
fn text(n: u64, fixed: bool) -> String {
    let mut b: Vec<u8> = vec![];
    let mut k = 0;
    while k < n {
        if k % 9 == 8 && k + 4 <= n {
            b.extend_from_slice(&[0xf0, 0x9f, 0x80]);
            let c = if fixed { 0x8a } else { any_u8() };
            assume(c & 0xc0 == 0x80);
            b.push(c);
            k += 4;
        } else if k % 4 == 1 && k + 2 <= n {
            let (c, d) = if fixed { (0xc3, 0xa9) } else { (any_u8(), any_u8()) };
            assume(c >= 0xc2 && c < 0xe0 && d & 0xc0 == 0x80);
            b.push(c);
            b.push(d);
            k += 2;
        } else {
            let c = if fixed { b'a' + (k * 7 % 23) as u8 } else { any_u8() };
            assume(c < 0x80);
            b.push(c);
            k += 1;
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}
struct Part {
    b: Vec<u8>,
    /// bytes accepted by a call
    k: usize,
}
impl Write for Part {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        let n = x.len().min(self.k);
        self.b.extend_from_slice(&x[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// C13: params: steps, length of paths, check sum (0 by definition, 1 by the library), bytes a write accepts (0: all).
/// Arbitrary steps: add a storage group, add a series of arbitrary type, flush
fn log() {
    let (n, len, how, part) = (param(0), param(1), param(2), param(3));
    let mut l = Log::new();
    let mut out = Part { b: vec![], k: if part == 0 { usize::MAX } else { part as usize } };
    let mut want: Vec<Vec<Plan>> = vec![vec![]];
    for s in 0..=n {
        let op = if s == n { 2 } else { choose(3) };
        match op {
            0 => {
                let p = text(len, how == 0);
                if l.storage_group(&p).is_err() {
                    fail("a plan is refused");
                }
                want.last_mut().unwrap().push(Plan::Group(p.into_bytes()));
            }
            1 => {
                let p = text(len, how == 0);
                let (d, e, c) = ([I32, I64, F32][choose(3) as usize], [0u8, 4][choose(2) as usize], [0u8, 1][choose(2) as usize]);
                if l.create(&p, dtype(d), enc(e), comp(c)).is_err() {
                    fail("a plan is refused");
                }
                want.last_mut().unwrap().push(Plan::Create(p.into_bytes(), d, e, c));
            }
            _ => {
                if l.flush(&mut out).is_err() {
                    fail("flush is refused");
                }
                want.push(vec![]);
                reach("flush");
            }
        }
    }
    want.pop();
    let got = decode(&out.b, how);
    if got.len() != want.len() {
        fail("another number of frames");
    }
    for (g, w) in got.iter().zip(&want) {
        if w.len() > 1 {
            reach("several plans in a frame");
        }
        same(g, w);
    }
    for x in out.b.iter().take(80) {
        observe(*x as u64);
    }
}
/// C13: params: n, k.  A path of n bytes of which the one at k (all if k = n) is arbitrary, check sum by definition
fn crcs() {
    let (n, k) = (param(0), param(1));
    let p = if k >= n { text(n, false) } else { text(k, true) + &text(1, false) + &text(n - k - 1, true) };
    let mut l = Log::new();
    let mut out: Vec<u8> = vec![];
    if l.storage_group(&p).is_err() || l.flush(&mut out).is_err() {
        fail("a plan is refused");
    }
    let got = decode(&out, 0);
    if got.len() != 1 {
        fail("another number of frames");
    }
    same(&got[0], &[Plan::Group(p.into_bytes())]);
    reach("check sum");
}
/// C13: params: devices, measurements, shape of names.  The log the sender writes for a schema
fn schema_log() {
    let (nd, nm, shape) = (param(0), param(1), param(2));
    let mut specs = vec![];
    for d in 0..nd {
        for k in 0..nm {
            let (dev, name) = names(shape, d, k);
            let t = [I32, I64, F32][choose(3) as usize];
            let e = if t == F32 { 0 } else { [0, 4][choose(2) as usize] };
            specs.push(sp(dev, name, t, e, choose(2) as u8));
        }
    }
    let b = match write_mlog("root.sg", schema(&specs)) {
        Ok(b) => b,
        Err(_) => fail("the log is refused"),
    };
    let got = decode(&b, 0);
    let mut all: Vec<Plan> = got.into_iter().flatten().collect();
    if all.len() != specs.len() + 1 {
        fail("another number of plans");
    }
    same(&all[..1], &[Plan::Group(b"root.sg".to_vec())]);
    all.remove(0);
    for s in specs.iter() {
        let p = [b"root.sg." as &[u8], s.dev.as_bytes(), b".", s.name.as_bytes()].concat();
        let w = Plan::Create(p, s.dtype, s.enc, s.comp);
        match all.iter().position(|x| *x == w) {
            Some(k) => {
                all.remove(k);
            }
            None => fail("a series of the schema is missing in the log"),
        }
    }
    reach("schema");
}

entries! {
    h_log => log,
    h_crc => crcs,
    h_schema_log => schema_log,
}
