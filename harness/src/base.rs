//! Entries that need nothing but the public interface.
use crate::fs;
use crate::model::*;
use crate::reader::*;
use crate::rt::*;
use std::fs::File;
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::{TSDataType, WriteWrapper};

pub type W = TsFileWriter<'static, WriteWrapper<File>>;

pub fn create(path: &'static str, specs: &[Spec]) -> W {
    create_with(path, specs, Default::default())
}
pub fn create_with(path: &'static str, specs: &[Spec], config: tsfile_writer::writer::ts_file_config::TsFileConfig) -> W {
    match TsFileWriter::new(path, schema(specs), config) {
        Ok(w) => w,
        Err(_) => fail("the file cannot be created"),
    }
}
/// write without recording
pub fn raw(w: &mut W, s: &Spec, t: i64, v: u64) -> bool {
    w.write(s.dev, s.name, t, value(s.dtype, v)).is_ok()
}
/// a write the properties say is accepted
pub fn put(w: &mut W, m: &mut Model, i: usize, t: i64, v: u64) {
    let s = m.series[i].spec;
    if !raw(w, &s, t, v) {
        fail("a legal write is refused");
    }
    m.accept(i, t, v);
}
/// a write that is accepted or refused as the code decides
pub fn offer(w: &mut W, m: &mut Model, i: usize, t: i64, v: u64) -> bool {
    let s = m.series[i].spec;
    let ok = raw(w, &s, t, v);
    if ok {
        m.accept(i, t, v);
    }
    ok
}
pub fn finish(mut w: W) {
    if w.close().is_err() {
        fail("the file cannot be closed");
    }
    drop(w);
    // the replayer compares the whole file with the executor's prediction
    if let Some(f) = fs::sys().files.last() {
        observe(f.data.len() as u64);
        let n = f.data.len().min(4000);
        let mut i = 0;
        while i + 8 <= n {
            let mut v = 0u64;
            for k in 0..8 {
                v = v << 8 | f.data[i + k] as u64;
            }
            observe(v);
            i += 8;
        }
    }
}
pub const A: &str = "/tsym/d/a.tsfile";
pub const B: &str = "/tsym/d/b.tsfile";
pub const C: &str = "/tsym/d/c.tsfile";

pub fn nth(dtype: u8, k: u64) -> u64 {
    let x = (k.wrapping_mul(2654435761) >> 3) % 977;
    match dtype {
        I32 => x as u32 as u64,
        I64 => x,
        _ => (x as f32).to_bits() as u64,
    }
}

/// params: flags, type, encoding, compression, n.  Arbitrary values at fixed timestamps.
fn values() {
    let (flags, d, e, c, n) = (param(0), param(1) as u8, param(2) as u8, param(3) as u8, param(4));
    let specs = [sp("root.d1", "s1", d, e, c)];
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    for k in 0..n {
        put(&mut w, &mut m, 0, 10 + 3 * k as i64, any_value(d));
    }
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
/// params: flags, type, encoding, compression, n.  Arbitrary timestamps, accepted or refused.
fn times() {
    let (flags, d, e, c, n) = (param(0), param(1) as u8, param(2) as u8, param(3) as u8, param(4));
    let specs = [sp("root.d1", "s1", d, e, c)];
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    for k in 0..n {
        let v = nth(d, k);
        offer(&mut w, &mut m, 0, any_i64(), v);
    }
    if m.series[0].ts.is_empty() {
        return;
    }
    reach("points");
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
pub const MIX: [Spec; 4] = [
    sp("root.sg.d1", "s1", I64, 0, 0),
    sp("root.sg.d1", "s2", F32, 0, 0),
    sp("root.sg.d2", "s1", I32, 4, 0),
    sp("root.sg.d2", "s2", I64, 4, 0),
];
/// params: flags, n.  Writes to arbitrary series of two devices, arbitrary values.
fn mix() {
    let (flags, n) = (param(0), param(1));
    let mut m = Model::new(&MIX);
    let mut w = create(A, &MIX);
    for k in 0..n {
        let i = choose(4) as usize;
        put(&mut w, &mut m, i, 5 * k as i64, any_value(MIX[i].dtype));
    }
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
/// params: flags, type, encoding, compression, n, a, b.  A long history; the values number a and b
/// and their successors are arbitrary.
fn long() {
    let (flags, d, e, c, n) = (param(0), param(1) as u8, param(2) as u8, param(3) as u8, param(4));
    let (x, y) = (param(5), param(6));
    let specs = [sp("root.d1", "s1", d, e, c)];
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    for k in 0..n {
        let v = if k == x || k == x + 1 || k == y || k == y + 1 { any_value(d) } else { nth(d, k) };
        put(&mut w, &mut m, 0, 1000 + 7 * k as i64 + (k * k % 5) as i64, v);
    }
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
/// params: flags, type, encoding, compression, n, kind of data, x.  A history of data that does not
/// compress (0), or is always the same (1), or comes in runs (2), or is the same at first and does not
/// compress then, so that a page gets far larger than its limit (3); x and x+1 arbitrary.
fn noise() {
    let (flags, d, e, c, n) = (param(0), param(1) as u8, param(2) as u8, param(3) as u8, param(4));
    let (kind, x) = (param(5), param(6));
    let specs = [sp("root.d1", "s1", d, e, c)];
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    let mut r = 88172645463325252u64;
    let mut t = 0i64;
    for k in 0..n {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        let v = match kind {
            0 => r,
            1 => 7,
            2 => k / 100 * 3,
            _ => {
                if k < 8000 {
                    7
                } else {
                    r
                }
            }
        };
        t += if kind == 0 || kind == 3 && k >= 8000 { 1 + (r >> 20 & 0xffff_ffff) as i64 } else { 5 };
        let v = if k == x || k == x + 1 { any_value(d) } else if d == I64 { v } else { v & 0x7f7f_ffff };
        put(&mut w, &mut m, 0, t, v);
    }
    finish(w);
    verify(fs::bytes(A), &m, flags);
}

fn out_of_order(r: &Result<(), TsFileError>) -> bool {
    matches!(r, Err(TsFileError::OutOfOrderData))
}
/// C04.  params: flags, number of series (1..4), n.  Writes to arbitrary series of two devices at
/// arbitrary timestamps.
fn accept() {
    let (flags, ns, n) = (param(0), param(1), param(2));
    let mut m = Model::new(&MIX);
    let mut w = create(A, &MIX);
    let mut any = false;
    for k in 0..n {
        let i = if ns == 1 { 0 } else { choose(ns) as usize };
        let s = MIX[i];
        let t = any_i64();
        let v = nth(s.dtype, k);
        let r = w.write(s.dev, s.name, t, value(s.dtype, v));
        let ok = t > m.series[i].last;
        if r.is_ok() {
            check(ok, "a write whose timestamp does not advance its series is accepted");
            m.accept(i, t, v);
            any = true;
        } else {
            check(!ok, "a write whose timestamp advances its series is refused");
            if !out_of_order(&r) {
                fail("a late write is not reported as out of order");
            }
            reach("refused");
        }
        observe(r.is_ok() as u64);
    }
    if !any {
        return;
    }
    reach("accepted");
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
/// C04 across flushes (small limits).  params: flags, n fixed writes, then one write to an arbitrary
/// series at an arbitrary timestamp after an arbitrary number of them, then the rest.
fn accept_flush() {
    let (flags, n, lone) = (param(0), param(1), param(2));
    let mut m = Model::new(&MIX);
    let mut w = create(A, &MIX);
    let at = choose(n + 1);
    let pat = if lone > 0 { 0 } else { choose(4) as usize };
    for k in 0..=n {
        if k == at {
            let i = choose(4) as usize;
            let s = MIX[i];
            let t = any_i64();
            let r = w.write(s.dev, s.name, t, value(s.dtype, 77));
            let ok = t > m.series[i].last;
            if r.is_ok() {
                check(ok, "a write whose timestamp does not advance its series is accepted");
                m.accept(i, t, 77);
            } else {
                check(!ok, "a write whose timestamp advances its series is refused");
                if !out_of_order(&r) {
                    fail("a late write is not reported as out of order");
                }
            }
        }
        if k < n {
            // fixed writes: the ones the arbitrary timestamp overtook are refused
            let i = [k as usize % 4, (k / 2) as usize % 4, 3 - k as usize % 4, (k * k) as usize % 4][pat];
            // or one series for long, after a single point of each other one
            let i = if lone > 0 { (k.min(3) + lone) as usize % 4 } else { i };
            let s = MIX[i];
            let t = 100 + 10 * k as i64;
            let r = w.write(s.dev, s.name, t, value(s.dtype, nth(s.dtype, k)));
            let ok = t > m.series[i].last;
            check(r.is_ok() == ok, "acceptance after an arbitrary write");
            if r.is_ok() {
                m.accept(i, t, nth(s.dtype, k));
            }
        }
    }
    let flushed = fs::bytes(A).len() > 8;
    if flushed {
        reach("flushed");
    }
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
/// series of MIX plus one whose encoding its type does not support
pub const BAD: [Spec; 5] = [MIX[0], MIX[1], MIX[2], MIX[3], sp("root.sg.d2", "s3", F32, 4, 0)];
/// C05.  params: flags, n, snappy.  n legal writes, one arbitrary invalid write at an arbitrary place; the
/// file has to be the one of the legal writes alone.
fn invalid() {
    let (flags, n) = (param(0), param(1));
    let mut m = Model::new(&BAD);
    let mut w = create(A, &BAD);
    let mut x = create(B, &BAD);
    let at = choose(n + 1);
    for k in 0..=n {
        if k == at {
            let dev = ["root.sg.d1", "root.sg.d2", "root.sg.d", "root.sg.d1.s1", ""][choose(5) as usize];
            let name = ["s1", "s2", "s3", "s4", ""][choose(5) as usize];
            let ty = choose(4) as u8 + 1;
            let s = BAD.iter().position(|s| s.dev == dev && s.name == name);
            let legal = match s {
                Some(i) => BAD[i].dtype == ty && !(BAD[i].dtype == F32 && BAD[i].enc == 4),
                None => false,
            };
            if legal {
                assume(false);
            }
            let t = any_i64();
            let v = any(64);
            let r = w.write(dev, name, t, value(ty, v));
            if r.is_ok() {
                fail("an invalid write is accepted");
            }
            reach("invalid write refused");
        }
        if k < n {
            let i = (k as usize * 3) % 4;
            let v = any_value(MIX[i].dtype);
            let t = 3 + 10 * k as i64;
            if !raw(&mut w, &MIX[i], t, v) {
                fail("a legal write is refused after an invalid one");
            }
            put(&mut x, &mut m, i, t, v);
        }
    }
    finish(w);
    finish(x);
    bytes_eq(fs::bytes(A), fs::bytes(B), "an invalid write changes the file");
    if n > 0 {
        verify(fs::bytes(A), &m, flags);
    }
}
/// C05.  params: n.  n arbitrary writes, valid or not, to any name with any type: no panic, and the file
/// is that of the accepted writes alone.
fn any_writes() {
    let (n, few) = (param(0), param(1));
    let mut w = create(A, &BAD);
    let mut x = create(B, &BAD);
    for _ in 0..n {
        let (d, s, ty) = if few == 1 {
            let c = choose(6) as usize;
            ([0, 0, 1, 1, 1, 2][c], [0, 1, 0, 1, 2, 0][c], [1u8, 2, 0, 2, 3, 1][choose(3) as usize + 0 * c])
        } else {
            (choose(3) as usize, choose(4) as usize, choose(4) as u8)
        };
        let dev = ["root.sg.d1", "root.sg.d2", "x"][d];
        let name = ["s1", "s2", "s3", "x"][s];
        let t = any_i64();
        let v = any(64);
        let r = w.write(dev, name, t, value(ty + 1, v));
        if r.is_ok() {
            if x.write(dev, name, t, value(ty + 1, v)).is_err() {
                fail("a refused write changes what is accepted later");
            }
        }
    }
    finish(w);
    finish(x);
    bytes_eq(fs::bytes(A), fs::bytes(B), "a refused write changes the file");
}
/// C10 (small limits: two values per page, flush after a few).  params: flags, n, series (1..4), values
/// arbitrary (1) or fixed.  Writes to an arbitrary series each.
fn pages() {
    let (flags, n, ns, sym) = (param(0), param(1), param(2), param(3));
    // 10 and more: every series compressed
    let first = param(4) as usize % 10;
    let mut all = MIX.to_vec();
    if param(4) >= 10 {
        for s in all.iter_mut() {
            s.comp = 1;
        }
    }
    let mut m = Model::new(&all);
    let mut w = create(A, &all);
    for k in 0..n {
        let i = if ns == 1 { first } else { choose(ns) as usize };
        let v = if sym == 1 || sym == 2 && k + 2 >= n { any_value(all[i].dtype) } else { nth(all[i].dtype, k) };
        put(&mut w, &mut m, i, 5 + 3 * k as i64, v);
    }
    let early = fs::bytes(A).len();
    finish(w);
    let b = fs::bytes(A);
    shapes(b, early);
    verify(b, &m, flags);
}
/// report which layouts were met
fn shapes(b: &[u8], early: usize) {
    let sc = get(scan(b), "sequential scan");
    let mut per: Vec<(&[u8], &[u8], usize)> = vec![];
    for c in sc.chunks.iter() {
        reach(if c.pages.len() > 1 { "chunk of several pages" } else { "chunk of one page" });
        if c.pages.len() > 2 {
            reach("chunk of three pages");
        }
        let mut seen = false;
        for p in per.iter_mut() {
            if p.0 == &c.device[..] && p.1 == &c.name[..] {
                seen = true;
                p.2 += 1;
            }
        }
        if !seen {
            per.push((&c.device, &c.name, 1));
        }
    }
    for p in per {
        reach(if p.2 > 1 { "series of several chunks" } else { "series of one chunk" });
    }
    if early > 7 {
        reach("flush before close");
    }
}
/// C20.  params: n, which, limit of a page, limit of a chunk group.  What is not on disk and how large pages get,
/// for writes to arbitrary series of fixed size.
fn limits() {
    let (n, which, page, group) = (param(0), param(1), param(2) as usize, param(3) as usize);
    const PLAIN: [Spec; 4] = [
        sp("root.sg.d1", "s1", I64, 0, 0),
        sp("root.sg.d1", "s2", F32, 0, 0),
        sp("root.sg.d2", "s1", I32, 0, 0),
        sp("root.sg.d2", "s2", I64, 0, 0),
    ];
    let mut w = create(A, &PLAIN);
    let pat = if which >= 3 { 0 } else { choose(5) };
    // bytes of values accepted and bytes of the file
    let mut taken = 0usize;
    let mut most = 0usize;
    for k in 0..n {
        let i = match which {
            0 | 3 | 4 => pat.min(3) as usize,
            1 => (k * (pat + 1) / 2) as usize % 4,
            _ => choose(4) as usize,
        };
        if which == 4 {
            // all of a device at once
            let d = PLAIN[2 * (k % 2) as usize].dev;
            let mine: Vec<&Spec> = PLAIN.iter().filter(|s| s.dev == d).collect();
            let free = k + 2 > n || n <= 200 && k == 5;
            let all = mine.iter().map(|s| DataPoint::new(s.name, value(s.dtype, if free { any_value(s.dtype) } else { nth(s.dtype, k) })));
            if w.write_many(d, 5 + (k * k * 977) as i64, all).is_err() {
                fail("a legal batch is refused");
            }
            taken += 12;
            most = most.max(taken.saturating_sub(fs::bytes(A).len()));
            continue;
        }
        let free = if n > 200 { k + 3 > n } else { k % 6 == 0 && k <= 12 };
        let v = if free { any_value(PLAIN[i].dtype) } else { nth(PLAIN[i].dtype, k) };
        if !raw(&mut w, &PLAIN[i], 5 + (k * k * 977) as i64, v) {
            fail("a legal write is refused");
        }
        taken += if PLAIN[i].dtype == I64 { 8 } else { 4 };
        let disk = fs::bytes(A).len();
        if taken > disk + most {
            most = taken - disk;
        }
    }
    // value bytes alone, the file also holds times and headers
    check(most <= 2 * group, "more than twice the limit of a chunk group is held in memory");
    if fs::bytes(A).len() > 2 * group {
        reach("flushed again and again");
    }
    finish(w);
    let sc = get(scan(fs::bytes(A)), "sequential scan");
    for c in sc.chunks.iter() {
        for p in c.pages.iter() {
            let mut bytes = 0;
            for _ in p.times.iter() {
                bytes += if c.dtype == I64 { 8 } else { 4 };
            }
            check(bytes <= 2 * page, "a page of more than twice its limit");
            if bytes * 2 > page {
                reach("full page");
            }
        }
    }
}
/// C17.  params: n, with small limits.  Any prefix of the file gives back exactly the chunks completed in it.
fn prefix() {
    let (n, ns) = (param(0), param(1));
    let mut w = create(A, &MIX);
    for k in 0..n {
        let i = if ns == 1 { 0 } else { choose(ns) as usize };
        if !raw(&mut w, &MIX[i], 5 + 3 * k as i64, any_value(MIX[i].dtype)) {
            fail("a legal write is refused");
        }
    }
    finish(w);
    let f = fs::file(A);
    if f.rewritten {
        fail("the file is not only appended to");
    }
    let b = &f.data[..];
    let full = get(scan(b), "sequential scan");
    let cut = any(32);
    assume(cut <= b.len() as u64);
    let cut = conc(cut) as usize;
    let got = get(scan(&b[..cut]), "scan of what a crash leaves");
    let mut whole = 0;
    for c in full.chunks.iter() {
        if c.end <= cut {
            whole += 1;
        }
    }
    if got.chunks.len() != whole {
        fail("a scan of what a crash leaves does not recover the completed chunks");
    }
    if whole > 0 && whole < full.chunks.len() {
        reach("some chunks recovered");
    }
    for k in 0..whole {
        let (a, c) = (&got.chunks[k], &full.chunks[k]);
        if a.device != c.device || a.name != c.name || a.pages.len() != c.pages.len() {
            fail("a recovered chunk differs");
        }
        let mut acc = Acc::new();
        for (p, q) in a.pages.iter().zip(c.pages.iter()) {
            if p.times.len() != q.times.len() {
                fail("a recovered chunk differs");
            }
            for i in 0..p.times.len() {
                acc.eq(p.times[i], q.times[i]);
                acc.eq(p.vals[i], q.vals[i]);
            }
        }
        acc.done("a recovered chunk differs");
    }
}
/// C17, the content half: what lies on disk after a flush and before close holds the points of the flushed
/// chunk groups.  params: n, series, arbitrary values or fixed ones
fn midway() {
    let (n, ns, sym) = (param(0), param(1), param(2));
    let mut m = Model::new(&MIX);
    let mut w = create(A, &MIX);
    for k in 0..n {
        let i = if ns == 1 { 0 } else { choose(ns) as usize };
        let v = if sym == 1 { any_value(MIX[i].dtype) } else { nth(MIX[i].dtype, k) };
        put(&mut w, &mut m, i, 5 + 3 * k as i64, v);
        let f = fs::file(A);
        let sc = get(scan(&f.data), "scan of an unfinished file");
        if sc.meta.is_some() {
            fail("metadata before the file is closed");
        }
        let mut acc = Acc::new();
        for (j, s) in m.series.iter().enumerate() {
            let mut p = 0;
            for c in sc.chunks.iter() {
                if c.device != MIX[j].dev.as_bytes() || c.name != MIX[j].name.as_bytes() {
                    continue;
                }
                reach("chunk on disk before close");
                for g in c.pages.iter() {
                    for x in 0..g.times.len() {
                        if p >= s.ts.len() {
                            fail("more points on disk than were accepted");
                        }
                        acc.eq(g.times[x], s.ts[p] as u64);
                        acc.eq(g.vals[x], s.vals[p]);
                        p += 1;
                    }
                }
            }
        }
        acc.done("points on disk differ from the points accepted");
    }
    let before = fs::file(A).data.len();
    let keep = fs::file(A).data.clone();
    finish(w);
    let f = fs::file(A);
    if f.rewritten || f.data.len() < before {
        fail("the file is not only appended to");
    }
    bytes_eq(&keep, &f.data[..before], "bytes on disk change at close");
}
/// C11.  params: n, series.  Two writers in turn and each of them alone.
fn beside() {
    let (n, ns) = (param(0), param(1));
    // two writers in turn against each of them alone
    let names = [A, B, "/tsym/c.tsfile", "/tsym/d.tsfile"];
    let mut two = [create(names[0], &MIX), create(names[1], &MIX)];
    let mut log = vec![];
    for k in 0..n {
        let (w, i) = (choose(2) as usize, choose(ns) as usize);
        let v = any_value(MIX[i].dtype);
        let t = if choose(2) == 0 { 5 + k as i64 } else { 100 - k as i64 };
        let ok = raw(&mut two[w], &MIX[i], t, v);
        log.push((w, i, t, v, ok));
        if k > 0 && log[k as usize - 1].0 != w {
            reach("writers in turn");
        }
    }
    let [a, b] = two;
    if choose(2) == 0 {
        finish(a);
        finish(b);
    } else {
        finish(b);
        finish(a);
    }
    for w in 0..2 {
        let mut x = create(names[2 + w], &MIX);
        for (q, i, t, v, ok) in log.iter() {
            if *q == w && raw(&mut x, &MIX[*i], *t, *v) != *ok {
                fail("acceptance depends on another writer");
            }
        }
        finish(x);
        bytes_eq(fs::bytes(names[w]), fs::bytes(names[2 + w]), "the file depends on another writer");
    }
}
/// equal as they stand
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// C18.  params: flags, n first singles, k points in the batch, first names (0 any, 1-4 the first, 5-8 s1 and the second).  The batch on one writer, its points one
/// by one on another, then one more write to each series.
fn many() {
    let (flags, n, k) = (param(0), param(1), param(2));
    let dev = "root.sg.d2";
    let mine = [BAD[2], BAD[3], BAD[4]];
    let mut m = Model::new(&BAD);
    let mut w = create(A, &BAD);
    let mut x = create(B, &BAD);
    for j in 0..n {
        let i = 2 + (j % 2) as usize;
        let v = nth(BAD[i].dtype, j);
        if !raw(&mut w, &BAD[i], 10 + j as i64, v) {
            fail("a legal write is refused");
        }
        put(&mut x, &mut m, i, 10 + j as i64, v);
    }
    let t = any_i64();
    let d = if choose(8) == 0 { "root.sg.dx" } else { dev };
    let mut batch = vec![];
    let mut copy = vec![];
    for j in 0..k {
        // the first names may be given, to share the work
        let which = match (j, param(3)) {
            (0, f @ 1..=4) => f - 1,
            (0, 5..=8) => 0,
            (1, f @ 5..=8) => f - 5,
            _ => choose(4),
        };
        let name = ["s1", "s2", "s3", "s4"][which as usize];
        let ty = [I32, I64, F32][choose(3) as usize];
        let v = any(64);
        batch.push(DataPoint::new(name, value(ty, v)));
        copy.push((name, ty, v));
    }
    let r = w.write_many(d, t, batch);
    let mut q = Ok(());
    for (name, ty, v) in copy {
        q = x.write(d, name, t, value(ty, v));
        if q.is_err() {
            break;
        }
        if let Some(i) = mine.iter().position(|s| s.name == name) {
            m.accept(2 + i, t, if ty == I64 { v } else { v & 0xffff_ffff });
        }
        reach("point of the batch accepted");
    }
    match (&r, &q) {
        (Ok(()), Ok(())) => reach("batch accepted"),
        (Err(a), Err(b)) => {
            if std::mem::discriminant(a) != std::mem::discriminant(b) {
                fail("the batch is refused with another error");
            }
            reach("batch refused")
        }
        _ => {
            // an empty batch for an unknown device is the only thing the writes one by one cannot refuse
            if k > 0 {
                fail("the batch is refused exactly if one of its points is")
            }
        }
    }
    // what comes later is accepted alike
    for i in [2usize, 3] {
        let v = nth(BAD[i].dtype, 5);
        let a = raw(&mut w, &BAD[i], 40, v);
        let b = raw(&mut x, &BAD[i], 40, v);
        if a != b {
            fail("later writes are accepted differently");
        }
        if b {
            m.accept(i, 40, v);
        }
    }
    finish(w);
    finish(x);
    if m.series.iter().all(|s| s.ts.is_empty()) {
        return;
    }
    verify(fs::bytes(A), &m, flags);
    if !same(fs::bytes(A), fs::bytes(B)) {
        verify(fs::bytes(B), &m, flags);
    }
}
fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        out.push(left.remove(k % i));
        k /= i;
    }
    out
}
/// C11.  params: seeds, order of (devices, measurements) permuted, n.  Two schemas built in different order
/// under different hash seeds, the same history with arbitrary values.
fn function() {
    let (seeds, orders, n, shape) = (param(0), param(1), param(2), param(3));
    let all = if shape == 0 { &MIX[..] } else { &WIDE[..] };
    // the standard library asks for keys once per thread and adds one to them for each map: the seed has to
    // be in place before the first map, and the two writers differ in any case
    fs::sys().seed = 1 + 0x9e3779b97f4a7c15u64.wrapping_mul(choose(seeds));
    let mut x = create(B, all);
    let p = perm(all.len(), choose(orders) as usize * 7);
    let specs: Vec<Spec> = p.iter().map(|&i| all[i]).collect();
    let sch = schema(&specs);
    // the order the hash maps of the schema list their devices in
    let mut first = true;
    for (d, _) in sch.get_devices() {
        if first {
            reach(if d == all[0].dev { "first device first" } else { "other device first" });
            first = false;
        }
    }
    let mut w = match TsFileWriter::new(A, sch, Default::default()) {
        Ok(w) => w,
        Err(_) => fail("the file cannot be created"),
    };
    for k in 0..n as usize {
        let i = (k * 5 + k / 3) % all.len();
        let v = any_value(all[i].dtype);
        if raw(&mut w, &all[i], 1 + k as i64, v) != raw(&mut x, &all[i], 1 + k as i64, v) {
            fail("acceptance depends on the schema's order");
        }
    }
    finish(w);
    finish(x);
    bytes_eq(fs::bytes(A), fs::bytes(B), "the file depends on hash seeds or on the order of the schema");
}
pub const WIDE: [Spec; 9] = [
    sp("root.sg.d1", "s1", I64, 0, 0),
    sp("root.sg.d1", "s10", F32, 0, 0),
    sp("root.sg.d1", "s2", F32, 0, 0),
    sp("root.sg.d2", "s1", I64, 4, 0),
    sp("root.sg.d2", "a", I64, 4, 0),
    sp("root.sg.d10", "s2", I64, 4, 0),
    sp("root.sg.d3", "s2", F32, 0, 0),
    sp("d", "s2", F32, 0, 0),
    sp("root.sg.D3", "s2", F32, 0, 0),
];
/// C19.  params: n, number of codes, number of names, whether a file is written.  Arbitrary steps on the builders: a measurement is added to one of two device
/// builders, one of these is built and registered under one of two names, the schema is built.
fn builders() {
    use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
    use tsfile_writer::writer::Schema;
    type Group = [Option<usize>; 3];
    const DEV: [&str; 3] = ["root.sg.d1", "root.sg.d10", "d\u{e9}"];
    const MEAS: [&str; 3] = ["s1", "s10", "s.\u{4e2d}"];
    const CODES: [(u8, u8, u8); 10] =
        [(I32, 0, 0), (I64, 4, 1), (F32, 0, 1), (I32, 4, 0), (I64, 0, 0), (F32, 0, 0), (I32, 0, 1), (I64, 4, 0), (I32, 4, 1), (I64, 0, 1)];
    let (n, codes, names) = (param(0), param(1), param(2));
    let mut schemas: Vec<(Schema<'static>, [Option<Group>; 3])> = vec![];
    let mut b = TsFileSchemaBuilder::new();
    let mut d = [DeviceBuilder::new(), DeviceBuilder::default()];
    let (mut reg, mut dev): ([Option<Group>; 3], [Group; 2]) = ([None; 3], [[None; 3]; 2]);
    for step in 0..n {
        let kind = if step == 0 { 0 } else { choose(3) };
        match kind {
            0 => {
                let (j, m, c) = (choose(2) as usize, choose(names) as usize, choose(codes) as usize);
                let (t, e, z) = (dtype(CODES[c].0), enc(CODES[c].1), comp(CODES[c].2));
                d[j].add(MEAS[m], t, e, z);
                dev[j][m] = Some(c);
            }
            1 => {
                let (j, x) = (choose(2) as usize, choose(names) as usize);
                if dev[j].iter().all(|m| m.is_none()) {
                    continue;
                }
                if reg[x].is_some() {
                    reach("device registered again");
                }
                b.add(DEV[x], d[j].build());
                reg[x] = Some(dev[j]);
            }
            _ => schemas.push((b.build(), reg)),
        }
    }
    schemas.push((b.build(), reg));
    for (s, want) in schemas.iter() {
        let mut seen = 0;
        for (name, g) in s.get_devices() {
            seen += 1;
            let want = match DEV.iter().position(|x| *x == name).and_then(|i| want[i]) {
                Some(w) => w,
                None => fail("a device that was not registered"),
            };
            let mut k = 0;
            for (name, got) in g.get_timeseries() {
                k += 1;
                let c = match MEAS.iter().position(|x| *x == name).and_then(|i| want[i]) {
                    Some(c) => CODES[c],
                    None => fail("a measurement that was not added to the device"),
                };
                if (got.data_type.serialize(), got.encoding.serialize(), got.compression.serialize()) != c {
                    fail("a measurement has other codes than it was added with last");
                }
            }
            if k != want.iter().flatten().count() {
                fail("a measurement is missing");
            }
            if k > 1 {
                reach("several measurements");
            }
        }
        if seen != want.iter().flatten().count() {
            fail("a device is missing");
        }
        if seen > 1 {
            reach("several devices");
        }
    }
    if param(3) == 0 {
        return;
    }
    // a file written with the last of them
    let (s, want) = schemas.pop().unwrap();
    let mut specs = vec![];
    for x in 0..3 {
        for m in 0..3 {
            if let Some(c) = want[x].and_then(|g| g[m]) {
                specs.push(sp(DEV[x], MEAS[m], CODES[c].0, CODES[c].1, CODES[c].2));
            }
        }
    }
    if specs.is_empty() {
        return;
    }
    let mut m = Model::new(&specs);
    let mut w = match TsFileWriter::new(A, s, Default::default()) {
        Ok(w) => w,
        Err(_) => fail("the file cannot be created"),
    };
    for i in 0..specs.len() {
        let wrong = if specs[i].dtype == I32 { I64 } else { I32 };
        check(!raw(&mut w, &Spec { dtype: wrong, ..specs[i] }, 3, 1), "a value of another type than that of the schema is accepted");
        put(&mut w, &mut m, i, 5, any_value(specs[i].dtype));
    }
    finish(w);
    verify(fs::bytes(A), &m, 3);
}
/// C19: the schema of one series
fn simple() {
    use tsfile_writer::writer::Schema;
    const NAMES: [(&str, &str); 4] = [("root.sg.d1", "s1"), ("d", "root.s"), ("d\u{e9}", ""), ("", "s")];
    let (dev, name) = NAMES[choose(4) as usize];
    for code in [(I32, 0, 0), (I64, 4, 1), (F32, 0, 1), (I32, 4, 1), (I64, 0, 0), (F32, 0, 0)] {
        let (t, e, z) = (dtype(code.0), enc(code.1), comp(code.2));
        let s = Schema::simple(dev, name, t, e, z);
        let mut n = 0;
        for (d, g) in s.get_devices() {
            for (k, got) in g.get_timeseries() {
                n += 1;
                if d != dev || k != name || (got.data_type.serialize(), got.encoding.serialize(), got.compression.serialize()) != code {
                    fail("the schema of one series is not that of this series");
                }
            }
        }
        check(n == 1, "the schema of one series has another number of series");
    }
}
/// C12.  params: n, kind of fault (0 short, 1 interrupted, 2 both in a row).  The fault hits an arbitrary write call.
fn short() {
    let (n, kind) = (param(0), param(1));
    let specs = [MIX[0], MIX[2], sp("root.sg.d3", "x", I64, 0, 1)];
    let vals: Vec<u64> = (0..n).map(|k| any_value(specs[k as usize % 3].dtype)).collect();
    let go = |path: &'static str| {
        let mut w = create(path, &specs);
        for k in 0..n {
            raw(&mut w, &specs[k as usize % 3], 1 + 2 * k as i64, vals[k as usize]);
        }
        finish(w);
    };
    go(A);
    let total = fs::sys().writes;
    fs::sys().writes = 0;
    let at = choose(total as u64) as u32;
    let f = &mut fs::sys().faults;
    match kind {
        0 => f.push((at, fs::Fault::ShortAny)),
        1 => f.push((at, fs::Fault::Eintr)),
        2 => {
            f.push((at, fs::Fault::Short(1)));
            f.push((at + 1, fs::Fault::Eintr));
            f.push((at + 2, fs::Fault::Short(2)));
        }
        _ => {
            // every call from here on accepts one byte only
            for k in at..4 * total {
                f.push((k, fs::Fault::Short(1)));
            }
        }
    }
    go(B);
    bytes_eq(fs::bytes(A), fs::bytes(B), "a partial or interrupted write changes the finished file");
}
/// a file whose writer says that it is complete; the last point of series `doubt` may be in it or not
fn whole(path: &str, specs: &[Spec], taken: &[u64], doubt: usize) {
    let b = fs::bytes(path);
    let sc = get(scan(b), "a file that lost a part of itself is closed as complete");
    if sc.meta.is_none() {
        fail("a file without metadata is closed as complete");
    }
    let t = get(tail(b), "footer");
    let _ = get(walk(b, &t), "index");
    for (i, s) in specs.iter().enumerate() {
        let mut n = 0;
        for c in sc.chunks.iter() {
            if c.device == s.dev.as_bytes() && c.name == s.name.as_bytes() {
                for p in c.pages.iter() {
                    n += p.times.len() as u64;
                }
            }
        }
        if n != taken[i] && !(i == doubt && n == taken[i] + 1) {
            fail("a file that lost or repeats points is closed as complete");
        }
    }
    reach("closed after a failure");
}
/// C22.  params: n, k.  n writes (up to two: to any series), close, then k arbitrary calls: they are refused and change nothing.
fn closed() {
    let (n, k) = (param(0), param(1));
    let mut w = create(A, &MIX);
    for j in 0..n {
        let i = if n > 2 { j % 4 } else { choose(4) } as usize;
        let v = if j < 2 { any_value(MIX[i].dtype) } else { nth(MIX[i].dtype, j) };
        if !raw(&mut w, &MIX[i], 5 + j as i64, v) {
            fail("a legal write is refused");
        }
    }
    if w.close().is_err() {
        fail("the file cannot be closed");
    }
    let before = fs::bytes(A).to_vec();
    for j in 0..k {
        let s = &MIX[choose(4) as usize];
        let ok = match choose(3) {
            0 => {
                let t = any_i64();
                let v = any_value(s.dtype);
                reach("write");
                raw(&mut w, s, t, v)
            }
            1 => {
                reach("batch");
                w.write_many(s.dev, 100 + j as i64, vec![DataPoint::new(s.name, value(s.dtype, any_value(s.dtype)))]).is_ok()
            }
            _ => {
                reach("close");
                w.close().is_ok()
            }
        };
        check(!ok, "a call on a closed file reports success");
        bytes_eq(fs::bytes(A), &before, "a closed file is changed");
    }
    drop(w);
    bytes_eq(fs::bytes(A), &before, "a closed file is changed");
}
/// C12.  params: n, kind (0 one call fails, 1 all from there on, 2 nothing is accepted from there on).  The call during
/// which the disk fails reports it.
fn disk() {
    let (n, kind) = (param(0), param(1));
    let specs = [MIX[0], MIX[2], sp("root.sg.d3", "x", I64, 0, 1), sp("root.sg.d3", "y", I64, 4, 0)];
    let vals: Vec<u64> = (0..n).map(|k| nth(specs[k as usize % 4].dtype, k)).collect();
    let run = |path: &'static str, at: u32| {
        let s = fs::sys();
        s.writes = 0;
        s.failed = false;
        s.faults.clear();
        let e = [libc::ENOSPC, libc::EIO][(at % 2) as usize];
        if at != u32::MAX {
            for k in 0..if kind == 0 { 1 } else { 300 } {
                s.faults.push((at + k, if kind == 2 { fs::Fault::Zero } else { fs::Fault::Error(e) }));
            }
        }
        let told = |ok: bool, what: &str| {
            if fs::sys().failed && ok {
                fail(what);
            }
            if !fs::sys().failed && !ok {
                fail("an error is reported although the disk works");
            }
            fs::sys().failed
        };
        let r = TsFileWriter::new(path, schema(&specs), Default::default());
        if told(r.is_ok(), "a failing disk is not reported by new") {
            reach("reported by new");
            return;
        }
        let mut w = match r {
            Ok(w) => w,
            Err(_) => return,
        };
        for k in 0..n {
            if told(raw(&mut w, &specs[k as usize % 4], 1 + 2 * k as i64, vals[k as usize]), "a failing disk is not reported by write") {
                reach("reported by write");
                // whatever follows does not panic, and success is only told of a file that is complete
                let mut taken = [0u64; 4];
                for j in 0..k {
                    taken[j as usize % 4] += 1;
                }
                let doubt = k as usize % 4;
                for j in k + 1..k + 9 {
                    if raw(&mut w, &specs[j as usize % 4], 1 + 2 * j as i64, nth(specs[j as usize % 4].dtype, j)) {
                        taken[j as usize % 4] += 1;
                    }
                }
                if w.close().is_ok() {
                    whole(path, &specs, &taken, doubt);
                }
                if w.close().is_ok() {
                    whole(path, &specs, &taken, doubt);
                }
                return;
            }
        }
        let ok = w.close().is_ok();
        if told(ok, "a failing disk is not reported by close") {
            reach("reported by close");
            if w.close().is_ok() {
                let mut taken = [0u64; 4];
                for j in 0..n {
                    taken[j as usize % 4] += 1;
                }
                whole(path, &specs, &taken, 9);
            }
        }
    };
    run(A, u32::MAX);
    let total = fs::sys().writes;
    run(B, choose(total as u64) as u32);
}
/// C12.  A path in folders that do not exist yet; a file that exists already is replaced.  params: flags, length of the old content
fn fresh() {
    let (flags, old) = (param(0), param(1));
    let junk: Vec<u8> = (0..old).map(|k| (k * 7 + 1) as u8).collect();
    let deep = choose(2) == 1;
    let p = if deep { "/tsym/new/folder/of/a.tsfile" } else { A };
    if !deep {
        fs::sys().dirs.push(b"/tsym/d".to_vec());
        fs::preset(A, &junk);
    }
    let mut m = Model::new(&MIX);
    let mut w = match TsFileWriter::new(p, schema(&MIX), Default::default()) {
        Ok(w) => w,
        Err(_) => fail("the file cannot be created"),
    };
    for k in 0..4 {
        let v = any_value(MIX[k].dtype);
        put(&mut w, &mut m, k, 1 + k as i64, v);
    }
    finish(w);
    if fs::file(p).rewritten {
        fail("the file is not only appended to");
    }
    verify(fs::bytes(p), &m, flags);
    reach(if deep { "folders made" } else { "file replaced" });
}
/// C12.  The file or its directory cannot be created.
fn no_file() {
    let which = choose(3);
    let e = [libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EISDIR, libc::EMFILE, libc::ENOENT][choose(6) as usize];
    let s = fs::sys();
    if which != 0 {
        s.open_errno = e;
    }
    if which != 1 {
        s.mkdir_errno = if e == libc::EISDIR { libc::ENOTDIR } else { e };
    }
    let r = TsFileWriter::new(A, schema(&MIX), Default::default());
    if r.is_ok() {
        fail("a file that cannot be created is not reported");
    }
    reach(if which == 0 { "directory refused" } else { "file refused" });
}
/// C12.  A path without parent, or other odd names: an error or a file, no panic.
fn odd_path() {
    let p = ["", "/", "/tsym", "/tsym/", "/tsym/..", "/tsym/x", "/tsym//a.tsfile"][choose(7) as usize];
    if !p.starts_with("/tsym/x") && !p.starts_with("/tsym//") {
        fs::sys().open_errno = libc::EISDIR;
    }
    match TsFileWriter::new(p, schema(&MIX), Default::default()) {
        Ok(_) => reach("created"),
        Err(_) => reach("refused"),
    }
}
/// C15.  Every byte.
fn codes() {
    let c = any_u8();
    let d: Result<TSDataType, ()> = TSDataType::try_from(c);
    match d {
        Ok(t) => {
            check(t.serialize() == c, "data type code round trip");
            let want = match t {
                TSDataType::INT32 => 1,
                TSDataType::INT64 => 2,
                TSDataType::FLOAT => 3,
            };
            check(c == want, "data type code of the format");
            reach("type");
        }
        Err(()) => check((c != 1) & (c != 2) & (c != 3), "a data type code is refused"),
    }
    match TSEncoding::try_from(c) {
        Ok(t) => {
            check(t.serialize() == c, "encoding code round trip");
            let want = match t {
                TSEncoding::PLAIN => 0,
                TSEncoding::TS2DIFF => 4,
            };
            check(c == want, "encoding code of the format");
            reach("encoding");
        }
        Err(_) => check((c != 0) & (c != 4), "an encoding code is refused"),
    }
    match CompressionType::try_from(c) {
        Ok(t) => {
            check(t.serialize() == c, "compression code round trip");
            let want = match t {
                CompressionType::UNCOMPRESSED => 0,
                CompressionType::SNAPPY => 1,
            };
            check(c == want, "compression code of the format");
            reach("compression");
        }
        Err(_) => check((c != 0) & (c != 1), "a compression code is refused"),
    }
    // and in the file
    let (d, e, k) = (choose(3) as u8 + 1, [0u8, 4][choose(2) as usize], choose(2) as u8);
    if d == F32 && e == 4 {
        return;
    }
    let specs = [sp("root.d1", "s1", d, e, k)];
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    put(&mut w, &mut m, 0, 1, 1);
    finish(w);
    verify(fs::bytes(A), &m, CONTENT | STRUCT);
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn num(n: u64) -> String {
    let mut s = String::new();
    for k in [1000, 100, 10, 1] {
        s.push((b'0' + (n / k % 10) as u8) as char);
    }
    s
}
/// C06, C07: params: flags, devices, measurements per device, shape of the names, which have data
/// (0 all, 1 all but every third, 2 an arbitrary one is left out, 3 an arbitrary one alone)
fn wide() {
    let (flags, nd, nm, shape, data) = (param(0), param(1), param(2), param(3), param(4));
    let mut specs = vec![];
    for d in 0..nd {
        for k in 0..nm {
            let (dev, name) = names(shape, d, k);
            specs.push(sp(dev, name, I64, 0, 0));
        }
    }
    let n = specs.len() as u64;
    let special = if data >= 2 { choose(n) } else { n };
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    for k in 0..n {
        let has = match data {
            0 => true,
            1 => k % 3 != 1,
            2 => k != special,
            _ => k == special,
        };
        if has {
            put(&mut w, &mut m, k as usize, 1, nth(I64, k));
        }
    }
    finish(w);
    verify(fs::bytes(A), &m, flags);
}
pub fn names(shape: u64, d: u64, k: u64) -> (&'static str, &'static str) {
    match shape {
        0 => (format_name("root.sg.d", d), format_name("s", k)),
        // names that contain dots, prefixes of each other, several lengths
        1 => (odd(d), odd2(k)),
        // lengths around those at which their varint gets longer, characters of several bytes
        3 => {
            const L: [u64; 12] = [63, 64, 127, 128, 1, 8191, 8192, 255, 256, 16383, 16384, 70000];
            (sized("root.", L[((d + 5) % 12) as usize], d), sized("m", L[(k % 12) as usize], k))
        }
        // a footer of more than 64 KiB
        4 => (sized("root.", 300, d), format_name("s", k)),
        // long names
        _ => {
            let mut a = String::from("root.");
            for _ in 0..(d * 17 + k * 3) % 120 {
                a.push('x');
            }
            a.push_str(&num(d));
            (leak(a), format_name("measurement_of_this_device", k))
        }
    }
}
/// a name of that many bytes, different for every n
fn sized(p: &str, len: u64, n: u64) -> &'static str {
    if len == 1 {
        return "\u{7f}";
    }
    let mut s = String::from(p);
    s.push_str(&num(n));
    let c = ['\u{e9}', '\u{4e2d}', 'x', '\u{1f980}'][(n % 4) as usize];
    while (s.len() + c.len_utf8()) as u64 <= len {
        s.push(c);
    }
    while (s.len() as u64) < len {
        s.push('y');
    }
    leak(s)
}
fn format_name(p: &str, n: u64) -> &'static str {
    let mut s = String::from(p);
    s.push_str(&num(n));
    leak(s)
}
fn odd(d: u64) -> &'static str {
    const N: [&str; 8] = ["root.sg", "root.sg.d1", "root.sg.d1.s1", "root", "r", "root.sg.d10", "root.sg-d", "root.sg.d\u{e9}"];
    if d < 8 {
        return N[d as usize];
    }
    format_name("root.sg.d", d)
}
fn odd2(d: u64) -> &'static str {
    const N: [&str; 8] = ["s1", "s1.x", "d1.s1", "s", "a.b.c", "s10", "\u{4e2d}", "sg.d1.s1"];
    if d < 8 {
        return N[d as usize];
    }
    format_name("s", d)
}
/// C06: arbitrary names are found iff they were written.  params: name length, devices, measurements
fn find() {
    let (len, nd, nm) = (param(0), param(1), param(2));
    let mut specs = vec![];
    for d in 0..nd {
        for k in 0..nm {
            specs.push(sp(["b", "ba", "c", "a", "bb", "", "aa"][d as usize], ["m", "ma", "l", "n", "mm", "", "la"][k as usize], I64, 0, 0));
        }
    }
    let mut m = Model::new(&specs);
    let mut w = create(A, &specs);
    for k in 0..specs.len() {
        put(&mut w, &mut m, k, 1, nth(I64, k as u64));
    }
    finish(w);
    let b = fs::bytes(A);
    let t = get(tail(b), "footer");
    let (l1, l2) = (choose(len + 1), choose(len + 1));
    let d: Vec<u8> = (0..l1).map(|_| any_u8()).collect();
    let n: Vec<u8> = (0..l2).map(|_| any_u8()).collect();
    let f = get(lookup(b, &t, &d, &n), "index lookup");
    let mut hit = false;
    for s in specs.iter() {
        if s.dev.as_bytes() == &d[..] && s.name.as_bytes() == &n[..] {
            hit = true;
        }
    }
    reach(if hit { "found" } else { "not found" });
    if hit != f.is_some() {
        fail("the index does not find exactly the series written");
    }
}

entries! {
    h_values => values,
    h_times => times,
    h_mix => mix,
    h_long => long,
    h_limits => limits,
    h_builders => builders,
    h_simple => simple,
    h_noise => noise,
    h_accept => accept,
    h_accept_flush => accept_flush,
    h_invalid => invalid,
    h_any_writes => any_writes,
    h_pages => pages,
    h_prefix => prefix,
    h_midway => midway,
    h_many => many,
    h_beside => beside,
    h_closed => closed,
    h_function => function,
    h_short => short,
    h_disk => disk,
    h_fresh => fresh,
    h_no_file => no_file,
    h_odd_path => odd_path,
    h_codes => codes,
    h_wide => wide,
    h_find => find,
}
