//! What the properties say about a history of writes, and the comparison of a finished file with it.
use crate::reader::*;
use crate::rt::*;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::{IoTDBValue, Schema, TSDataType};

#[derive(Clone, Copy)]
pub struct Spec {
    pub dev: &'static str,
    pub name: &'static str,
    pub dtype: u8,
    pub enc: u8,
    pub comp: u8,
}
pub const fn sp(dev: &'static str, name: &'static str, dtype: u8, enc: u8, comp: u8) -> Spec {
    Spec { dev, name, dtype, enc, comp }
}
pub fn dtype(d: u8) -> TSDataType {
    match d {
        I32 => TSDataType::INT32,
        I64 => TSDataType::INT64,
        _ => TSDataType::FLOAT,
    }
}
pub fn enc(e: u8) -> TSEncoding {
    if e == 0 {
        TSEncoding::PLAIN
    } else {
        TSEncoding::TS2DIFF
    }
}
pub fn comp(c: u8) -> CompressionType {
    if c == 0 {
        CompressionType::UNCOMPRESSED
    } else {
        CompressionType::SNAPPY
    }
}
pub fn value(d: u8, bits: u64) -> IoTDBValue {
    match d {
        I32 => IoTDBValue::INT(bits as u32 as i32),
        I64 => IoTDBValue::LONG(bits as i64),
        F32 => IoTDBValue::FLOAT(f32::from_bits(bits as u32)),
        _ => IoTDBValue::DOUBLE(f64::from_bits(bits)),
    }
}
pub fn any_value(d: u8) -> u64 {
    any(if d == I64 { 64 } else { 32 })
}
/// the schema, devices and measurements added in the order given
pub fn schema(specs: &[Spec]) -> Schema<'static> {
    let mut b = TsFileSchemaBuilder::new();
    let mut done: Vec<&'static str> = vec![];
    for s in specs {
        if done.contains(&s.dev) {
            continue;
        }
        done.push(s.dev);
        let mut d = DeviceBuilder::new();
        for m in specs {
            if m.dev == s.dev {
                d.add(m.name, dtype(m.dtype), enc(m.enc), comp(m.comp));
            }
        }
        b.add(s.dev, d.build());
    }
    b.build()
}
pub struct SeriesModel {
    pub spec: Spec,
    pub last: i64,
    pub ts: Vec<i64>,
    pub vals: Vec<u64>,
}
pub struct Model {
    pub series: Vec<SeriesModel>,
}
impl Model {
    pub fn new(specs: &[Spec]) -> Model {
        Model { series: specs.iter().map(|s| SeriesModel { spec: *s, last: -1, ts: vec![], vals: vec![] }).collect() }
    }
    pub fn accept(&mut self, i: usize, t: i64, v: u64) {
        let s = &mut self.series[i];
        s.last = t;
        s.ts.push(t);
        s.vals.push(v);
    }
}
pub const CONTENT: u64 = 1;
pub const STRUCT: u64 = 2;
pub const STATS: u64 = 4;
pub const INDEX: u64 = 8;
pub const BLOOM: u64 = 16;

pub fn get<T>(r: Rd<T>, what: &'static str) -> T {
    match r {
        Ok(x) => x,
        Err(Bad(m)) => {
            let mut s = String::with_capacity(128);
            s.push_str(what);
            s.push_str(": ");
            s.push_str(m);
            fail(&s)
        }
    }
}
pub fn verify(b: &[u8], m: &Model, flags: u64) {
    let sc = get(scan(b), "sequential scan");
    if flags & CONTENT != 0 {
        content(&sc, m);
    }
    if flags & STRUCT != 0 {
        structure(b, &sc, m);
    }
    if flags & STATS != 0 {
        statistics(b, &sc, m);
    }
    if flags & INDEX != 0 {
        index(b, &sc, m, 256);
    }
    if flags & BLOOM != 0 {
        bloom(b, m);
    }
}
/// C01: the scan yields exactly the accepted points
pub fn content(sc: &Scan, m: &Model) {
    if sc.meta.is_none() {
        fail("the sequential scan does not reach the metadata");
    }
    let mut total = 0;
    for s in m.series.iter() {
        let mut k = 0;
        let mut acc = Acc::new();
        for c in sc.chunks.iter() {
            if c.device != s.spec.dev.as_bytes() || c.name != s.spec.name.as_bytes() {
                continue;
            }
            for p in c.pages.iter() {
                total += p.times.len();
                if k + p.times.len() > s.ts.len() {
                    fail("more points in the file than were accepted");
                }
                for i in 0..p.times.len() {
                    acc.eq(p.times[i], s.ts[k] as u64);
                    acc.eq(p.vals[i], s.vals[k]);
                    k += 1;
                }
            }
        }
        if k != s.ts.len() {
            fail("accepted points are missing in the file");
        }
        acc.done("points read back differ from the points accepted");
    }
    let mut all = 0;
    for c in sc.chunks.iter() {
        for p in c.pages.iter() {
            all += p.times.len();
        }
    }
    if all != total {
        fail("the file contains points of a series nothing was written to");
    }
}
/// C02
pub fn structure(b: &[u8], sc: &Scan, m: &Model) {
    let t = get(tail(b), "footer");
    let meta = match sc.meta {
        Some(p) => p,
        None => fail("the sequential scan does not reach the metadata"),
    };
    if t.meta != meta as u64 {
        fail("metadata offset");
    }
    let w = get(walk(b, &t), "metadata index");
    // the items between marker and footer lie end to end
    let mut sp = w.spans.clone();
    let mut pos = meta + 1;
    while pos < t.footer {
        let mut next = None;
        for i in 0..sp.len() {
            if sp[i].0 == pos {
                next = Some(i);
            }
        }
        match next {
            Some(i) => {
                pos = sp[i].1;
                sp.swap_remove(i);
            }
            None => fail("gap in the metadata section"),
        }
    }
    if pos != t.footer || !sp.is_empty() {
        fail("metadata items overlap");
    }
    // chunk offsets
    let mut used = vec![false; sc.chunks.len()];
    for (dev, s) in w.series.iter() {
        let mut last = 0;
        for c in s.chunks.iter() {
            if c.off <= last {
                fail("chunk offsets of a series are not ascending");
            }
            last = c.off;
            let mut found = false;
            for (i, x) in sc.chunks.iter().enumerate() {
                if x.off as u64 == c.off {
                    found = true;
                    if used[i] {
                        fail("a chunk is listed twice");
                    }
                    used[i] = true;
                    if &x.device != dev || x.name != s.name || x.dtype != s.dtype {
                        fail("a chunk offset leads to the chunk of another series");
                    }
                }
            }
            if !found {
                fail("a chunk offset leads to no chunk");
            }
        }
    }
    for u in used {
        if !u {
            fail("a chunk is not listed in the metadata");
        }
    }
    for c in sc.chunks.iter() {
        let mut ok = false;
        for s in m.series.iter() {
            if s.spec.dev.as_bytes() == c.device && s.spec.name.as_bytes() == c.name {
                ok = s.spec.dtype == c.dtype && s.spec.enc == c.enc && s.spec.comp == c.comp;
            }
        }
        if !ok {
            fail("codes in a chunk header are not those of the schema");
        }
    }
}
fn f32b(x: u64) -> f32 {
    f32::from_bits(x as u32)
}
/// x < y in the order of the type (false if one is NaN)
fn lt(d: u8, x: u64, y: u64) -> bool {
    match d {
        I32 => (x as u32 as i32) < (y as u32 as i32),
        I64 => (x as i64) < (y as i64),
        _ => f32b(x) < f32b(y),
    }
}
fn nan(d: u8, x: u64) -> bool {
    d == F32 && f32b(x).is_nan()
}
struct Range<'a> {
    d: u8,
    ts: &'a [i64],
    vals: &'a [u64],
    /// lengths of the pages the points lie in, and of the chunks
    pages: Vec<usize>,
    chunks: Vec<usize>,
}
fn add(d: u8, acc: u64, v: u64) -> u64 {
    match d {
        I32 => (acc as i64).wrapping_add(v as u32 as i32 as i64) as u64,
        I64 => (f64::from_bits(acc) + (v as i64) as f64).to_bits(),
        _ => (f64::from_bits(acc) + f32b(v) as f64).to_bits(),
    }
}
fn join(d: u8, a: u64, b: u64) -> u64 {
    match d {
        I32 => (a as i64).wrapping_add(b as i64) as u64,
        _ => (f64::from_bits(a) + f64::from_bits(b)).to_bits(),
    }
}
/// sums of consecutive parts
fn sums(d: u8, vals: &[u64], parts: &[usize]) -> Vec<u64> {
    let mut k = 0;
    let mut out = Vec::with_capacity(parts.len());
    for &p in parts {
        let mut x = 0u64;
        for _ in 0..p {
            x = add(d, x, vals[k]);
            k += 1;
        }
        out.push(x);
    }
    out
}
fn joined(d: u8, parts: &[u64]) -> u64 {
    let mut x = parts[0];
    for &p in &parts[1..] {
        x = join(d, x, p);
    }
    x
}
fn judge(s: &Stats, r: &Range, what: &'static str) {
    let n = r.ts.len();
    if n == 0 {
        fail("statistics of no points");
    }
    let mut acc = Acc::new();
    acc.eq(s.count as u64, n as u64);
    acc.eq(s.first_t as u64, r.ts[0] as u64);
    acc.eq(s.last_t as u64, r.ts[n - 1] as u64);
    acc.eq(s.first, r.vals[0]);
    acc.eq(s.last, r.vals[n - 1]);
    let mut any = false;
    let (mut hasmin, mut hasmax) = (false, false);
    for i in 0..n {
        let v = r.vals[i];
        // nothing is smaller than the minimum or greater than the maximum
        acc.t(!lt(r.d, v, s.min));
        acc.t(!lt(r.d, s.max, v));
        let number = !nan(r.d, v);
        any |= number;
        hasmin |= number & (!lt(r.d, s.min, v) & !lt(r.d, v, s.min));
        hasmax |= number & (!lt(r.d, s.max, v) & !lt(r.d, v, s.max));
    }
    acc.t(!any | (hasmin & !nan(r.d, s.min)));
    acc.t(!any | (hasmax & !nan(r.d, s.max)));
    acc.done(what);
    // the sum: added up one by one, or page by page, or chunk by chunk
    let mut ok = same_sum(r.d, s.sum, sums(r.d, r.vals, &[n])[0]);
    if r.d != I32 && r.pages.len() > 1 {
        let ps = sums(r.d, r.vals, &r.pages);
        ok |= same_sum(r.d, s.sum, joined(r.d, &ps));
        if r.chunks.len() > 1 {
            ok |= same_sum(r.d, s.sum, joined(r.d, &sums(r.d, r.vals, &r.chunks)));
            // pages added up to chunks, chunks to the series
            let mut k = 0;
            let mut cs = vec![];
            for &c in &r.chunks {
                let (k0, mut n) = (k, 0);
                while n < c {
                    n += r.pages[k];
                    k += 1;
                }
                cs.push(joined(r.d, &ps[k0..k]));
            }
            ok |= same_sum(r.d, s.sum, joined(r.d, &cs));
        }
    }
    check(ok, "sum statistic");
}
fn same_sum(d: u8, s: u64, t: u64) -> bool {
    if d == I32 {
        return s == t;
    }
    let (a, b) = (f64::from_bits(s), f64::from_bits(t));
    // NaN sums are NaN; -0.0 and 0.0 are the same sum
    (s == t) | (a == b) | (a.is_nan() & b.is_nan())
}
/// C03: every statistics block against the points accepted
pub fn statistics(b: &[u8], sc: &Scan, m: &Model) {
    let t = get(tail(b), "footer");
    let w = get(walk(b, &t), "metadata index");
    for s in m.series.iter() {
        let d = s.spec.dtype;
        let (mut pages, mut chunks) = (vec![], vec![]);
        let meta = w.series.iter().find(|x| x.0 == s.spec.dev.as_bytes() && x.1.name == s.spec.name.as_bytes());
        let mut k = 0;
        for c in sc.chunks.iter() {
            if c.device != s.spec.dev.as_bytes() || c.name != s.spec.name.as_bytes() {
                continue;
            }
            let k0 = k;
            let np = pages.len();
            for p in c.pages.iter() {
                let e = k + p.times.len();
                if e > s.ts.len() {
                    fail("more points in the file than were accepted");
                }
                if let Some(st) = &p.stats {
                    reach("page statistics");
                    let r = Range { d, ts: &s.ts[k..e], vals: &s.vals[k..e], pages: vec![e - k], chunks: vec![e - k] };
                    judge(st, &r, "page statistics");
                }
                pages.push(e - k);
                k = e;
            }
            chunks.push(k - k0);
            if let Some((_, sm)) = meta {
                for cm in sm.chunks.iter() {
                    if cm.off == c.off as u64 {
                        if let Some(st) = &cm.stats {
                            reach("chunk statistics");
                            let r = Range { d, ts: &s.ts[k0..k], vals: &s.vals[k0..k], pages: pages[np..].to_vec(), chunks: vec![k - k0] };
                            judge(st, &r, "chunk statistics");
                        }
                    }
                }
            }
        }
        if k != s.ts.len() {
            fail("accepted points are missing in the file");
        }
        match meta {
            Some((_, sm)) => {
                reach("series statistics");
                judge(&sm.stats, &Range { d, ts: &s.ts, vals: &s.vals, pages, chunks }, "series statistics");
            }
            None if k > 0 => fail("a written series has no metadata"),
            None => {}
        }
    }
}
/// C06
pub fn index(b: &[u8], sc: &Scan, m: &Model, degree: usize) {
    let t = get(tail(b), "footer");
    let w = get(walk(b, &t), "metadata index");
    if w.max_entries > degree {
        fail("an index node holds more than the configured maximum of entries");
    }
    if !w.sorted {
        fail("names in an index node are not sorted");
    }
    let mut n = 0;
    for s in m.series.iter() {
        let d = s.spec.dev.as_bytes();
        let f = get(lookup(b, &t, d, s.spec.name.as_bytes()), "index lookup");
        match f {
            None => {
                if !s.ts.is_empty() {
                    fail("a written series is not found through the index");
                }
            }
            Some(x) => {
                if s.ts.is_empty() {
                    fail("the index finds a series without data");
                }
                n += 1;
                if x.name != s.spec.name.as_bytes() || x.dtype != s.spec.dtype {
                    fail("the index leads to the metadata of another series");
                }
                // the chunks are those of this series
                let mut k = 0;
                for c in sc.chunks.iter() {
                    if c.device == d && c.name == x.name {
                        if k >= x.chunks.len() || x.chunks[k].off != c.off as u64 {
                            fail("the series found does not list the chunks of the series");
                        }
                        k += 1;
                    }
                }
                if k != x.chunks.len() {
                    fail("the series found lists chunks of other series");
                }
            }
        }
        // close misses
        let mut name = s.spec.name.as_bytes().to_vec();
        name.push(b'~');
        absent(b, &t, m, d, &name);
        let mut dv = d.to_vec();
        dv.push(b'!');
        absent(b, &t, m, &dv, s.spec.name.as_bytes());
        absent(b, &t, m, &d[..d.len() - 1], s.spec.name.as_bytes());
    }
    absent(b, &t, m, b"", b"");
    absent(b, &t, m, b"\xff", b"\xff");
    if w.series.len() != n {
        fail("the index lists series without data");
    }
}
fn absent(b: &[u8], t: &Tail, m: &Model, d: &[u8], n: &[u8]) {
    for s in m.series.iter() {
        if s.spec.dev.as_bytes() == d && s.spec.name.as_bytes() == n {
            return;
        }
    }
    if get(lookup(b, t, d, n), "index lookup").is_some() {
        fail("the index finds a series that does not exist");
    }
}
pub const SEEDS: [u64; 8] = [5, 7, 11, 19, 31, 37, 43, 59];
/// C07
pub fn bloom(b: &[u8], m: &Model) {
    let t = get(tail(b), "footer");
    let bl = &t.bloom;
    if bl.hashes == 0 || bl.hashes > 8 || bl.size == 0 {
        fail("bloom filter parameters");
    }
    if bl.bytes.len() as u64 * 8 > (bl.size as u64 + 7) / 8 * 8 {
        fail("bloom filter longer than its size");
    }
    for s in m.series.iter() {
        if s.ts.is_empty() {
            continue;
        }
        let mut path = s.spec.dev.as_bytes().to_vec();
        path.push(b'.');
        path.extend_from_slice(s.spec.name.as_bytes());
        for k in 0..bl.hashes as usize {
            let h = murmur(&path, SEEDS[k]) as i32;
            let pos = h.unsigned_abs() as u64 % bl.size as u64;
            let set = (pos / 8) < bl.bytes.len() as u64 && bl.bytes[(pos / 8) as usize] >> (pos % 8) & 1 == 1;
            if !set {
                fail("a written series is missing in the bloom filter");
            }
        }
    }
}
fn rotl(x: u64, r: u32) -> u64 {
    (x << r) | (x >> (64 - r))
}
fn fmix(mut k: u64) -> u64 {
    k ^= k >> 33;
    k = k.wrapping_mul(0xff51afd7ed558ccd);
    k ^= k >> 33;
    k = k.wrapping_mul(0xc4ceb9fe1a85ec53);
    k ^ (k >> 33)
}
/// MurmurHash3 x64 128 (both halves added, as IoTDB uses it)
pub fn murmur(key: &[u8], seed: u64) -> u64 {
    const C1: u64 = 0x87c37b91114253d5;
    const C2: u64 = 0x4cf5ad432745937f;
    let n = key.len();
    let (mut h1, mut h2) = (seed, seed);
    let le = |o: usize| {
        let mut v = 0u64;
        for i in 0..8 {
            v |= (key[o + i] as u64) << (8 * i);
        }
        v
    };
    let blocks = n / 16;
    for i in 0..blocks {
        let k1 = le(i * 16);
        let k2 = le(i * 16 + 8);
        h1 ^= rotl(k1.wrapping_mul(C1), 31).wrapping_mul(C2);
        h1 = rotl(h1, 27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        h2 ^= rotl(k2.wrapping_mul(C2), 33).wrapping_mul(C1);
        h2 = rotl(h2, 31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let tail = &key[blocks * 16..];
    let (mut k1, mut k2) = (0u64, 0u64);
    for i in (0..tail.len()).rev() {
        if i >= 8 {
            k2 ^= (tail[i] as u64) << (8 * (i - 8));
        } else {
            k1 ^= (tail[i] as u64) << (8 * i);
        }
    }
    if tail.len() > 8 {
        h2 ^= rotl(k2.wrapping_mul(C2), 33).wrapping_mul(C1);
    }
    if !tail.is_empty() {
        h1 ^= rotl(k1.wrapping_mul(C1), 31).wrapping_mul(C2);
    }
    h1 ^= n as u64;
    h2 ^= n as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2)
}
