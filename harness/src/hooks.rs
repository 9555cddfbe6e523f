//! Entries that need the accessors of `tsfile_writer::writer::verif`.
use crate::base::*;
use crate::fs;
use crate::model::*;
use crate::reader::*;
use crate::rt::*;
use tsfile_writer::writer::verif as v;

fn rd(c: &mut &[u8]) -> u64 {
    match v::read_var_u32(c) {
        Ok(x) => x as u64,
        Err(_) => fail("an encoded number cannot be read back"),
    }
}
/// C08: every unsigned value
fn varu() {
    let x = any(32) as u32;
    let mut b: Vec<u8> = vec![];
    let n = match v::write_var_u32(x, &mut b) {
        Ok(n) => n,
        Err(_) => fail("a number cannot be encoded"),
    };
    check(n as usize == b.len(), "number of bytes reported by the writer");
    check(v::size_var_u32(x) as usize == b.len(), "predicted size");
    reach(["", "one byte", "two bytes", "three bytes", "four bytes", "five bytes"][conc(b.len() as u64) as usize % 6]);
    let mut s = &b[..];
    check(rd(&mut s) == x as u64, "the library reads another number back");
    check(s.is_empty(), "the library does not consume what was written");
    let mut c = Cur::new(&b, 0);
    check(get(c.var(), "format") == x, "the format says another number");
    check(c.p == b.len(), "the number is followed by other bytes");
}
/// C08: every signed value
fn vari() {
    let x = any_i32();
    let mut b: Vec<u8> = vec![];
    let n = match v::write_var_i32(x, &mut b) {
        Ok(n) => n,
        Err(_) => fail("a number cannot be encoded"),
    };
    check(n as usize == b.len(), "number of bytes reported by the writer");
    check(v::size_var_i32(x) as usize == b.len(), "predicted size");
    let mut c = Cur::new(&b, 0);
    check(get(c.ivar(), "format") == x, "the format says another number");
    check(c.p == b.len(), "the number is followed by other bytes");
    let mut s = &b[..];
    let u = rd(&mut s) as u32;
    check(((u >> 1) as i32) ^ (0u32.wrapping_sub(u & 1) as i32) == x, "the library reads another number back");
}
/// C08: params: n.  Numbers written one after another
fn vars() {
    let n = param(0);
    let mut b: Vec<u8> = vec![];
    let xs: Vec<u32> = (0..n).map(|_| any(32) as u32).collect();
    for &x in xs.iter() {
        if v::write_var_u32(x, &mut b).is_err() {
            fail("a number cannot be encoded");
        }
    }
    let mut s = &b[..];
    let mut acc = Acc::new();
    for &x in xs.iter() {
        acc.eq(rd(&mut s), x as u64);
    }
    acc.t(s.is_empty());
    acc.done("numbers read back one after another differ");
}
/// C08: params: n.  n arbitrary bytes are decoded to the number the format gives them, or refused, never a panic
/// (at most five bytes of a number)
fn varbytes() {
    let n = param(0);
    let b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    // numbers beyond 32 bits are outside
    if n >= 5 {
        assume((b[0] & 0x80 == 0) | (b[1] & 0x80 == 0) | (b[2] & 0x80 == 0) | (b[3] & 0x80 == 0) | (b[4] < 16));
    }
    let mut s = &b[..];
    let r = v::read_var_u32(&mut s);
    let mut c = Cur::new(&b, 0);
    match (r, c.var()) {
        (Ok(x), Ok(y)) => {
            check(x == y, "the library reads another number");
            check(s.len() == b.len() - c.p, "the library consumes another number of bytes");
            reach("number");
        }
        (Err(_), Err(_)) => reach("truncated"),
        _ => fail("the library accepts exactly the complete numbers"),
    }
}
/// C09: params: type, n (values, the first and last arbitrary ones given by a, b; b<a: all), rounds.
/// The encoder alone, used again after reset.
fn diff() {
    let (d, n, a, b, rounds) = (param(0) as u8, param(1), param(2), param(3), param(4));
    let mut e = match v::encoder(dtype(d), enc(4)) {
        Ok(e) => e,
        Err(_) => fail("TS2DIFF is not supported"),
    };
    for r in 0..rounds {
        let mut want = vec![];
        for k in 0..n {
            let x = if b < a || (k >= a && k <= b) { any_value(d) } else { (1000 + 13 * k + k * k % 7) & 0x7fff_ffff };
            want.push(x);
            if e.write(&value(d, x)).is_err() {
                fail("a value is refused");
            }
        }
        let mut out: Vec<u8> = vec![];
        e.serialize(&mut out);
        e.reset();
        let got = get(ts2diff(&out, if d == I64 { 8 } else { 4 }), "decoding");
        if got.len() != want.len() {
            fail("another number of values is decoded");
        }
        let mut acc = Acc::new();
        for i in 0..got.len() {
            acc.eq(got[i], want[i]);
        }
        acc.done("other values are decoded");
        for i in 0..out.len().min(64) {
            observe(out[i] as u64);
        }
        reach(if r > 0 { "encoder used again" } else { "encoder" });
    }
}
/// C07: params: length, wide (1: two-byte characters), first.  The hash of every string of that length whose first bytes are fixed;
/// first = 1000: of every string in which one character, at an arbitrary place, is arbitrary
fn hash() {
    let (n, wide, hi) = (param(0), param(1), param(2));
    let mut b: Vec<u8> = vec![];
    let at = if hi == 1000 { choose(n) } else { 0 };
    for k in 0..n {
        let w = wide == 1 && (k % 2 == 1 || k + 1 < n);
        if if hi == 1000 { k != at } else { k < hi } {
            b.push(if !w { b'a' + (k * 7 % 26) as u8 } else if k % 2 == 0 { 0xc3 } else { 0x80 + (k * 11 % 64) as u8 });
            continue;
        }
        let c = any_u8();
        if wide == 1 && k % 2 == 0 && k + 1 < n {
            assume((c >= 0xc2) & (c < 0xe0));
        } else if wide == 1 && k % 2 == 1 {
            assume((c >= 0x80) & (c < 0xc0));
        } else {
            assume(c < 0x80);
        }
        b.push(c);
    }
    if hi == 1000 {
        b[at as usize] = conc(b[at as usize] as u64) as u8;
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    for seed in SEEDS {
        let h = v::murmur(s, seed as i32);
        check(h == murmur(&b, seed) as i32, "hash of a path");
    }
    reach("hashed");
}
/// C06 with small nodes.  params: flags, degree, devices, measurements, shape, data (0 all, 1 arbitrary subset,
/// 2 an arbitrary one missing)
fn index() {
    let (degree, nd, nm, shape, data) = (param(0), param(1), param(2), param(3), param(4));
    let mut specs = vec![];
    for d in 0..nd {
        for k in 0..nm {
            let (dev, name) = names(shape, d, k);
            specs.push(sp(dev, name, [I64, F32, I32][(d + k) as usize % 3], 0, 0));
        }
    }
    let n = specs.len() as u64;
    let special = if data == 2 { choose(n) } else { n };
    let mut m = Model::new(&specs);
    let mut w = create_with(A, &specs, v::config(degree as usize));
    for k in 0..n {
        let has = match data {
            0 => true,
            1 => choose(2) == 1,
            _ => k != special,
        };
        if has {
            put(&mut w, &mut m, k as usize, 1, 100 + k);
        }
    }
    let none = m.series.iter().all(|s| s.ts.is_empty());
    finish(w);
    if none {
        return;
    }
    let b = fs::bytes(A);
    let sc = get(scan(b), "sequential scan");
    crate::model::index(b, &sc, &m, degree as usize);
    let t = get(tail(b), "footer");
    let w = get(walk(b, &t), "metadata index");
    if w.kinds & 1 != 0 {
        reach("inner device node");
    }
    if w.kinds & 4 != 0 {
        reach("inner measurement node");
    }
    if w.depth > 4 {
        reach("several inner levels");
    }
}

entries! {
    h_varu => varu,
    h_vari => vari,
    h_vars => vars,
    h_varbytes => varbytes,
    h_diff => diff,
    h_hash => hash,
    h_index => index,
}
