//! An independent reader for TsFile v3 (as far as the writer's feature set goes), written against
//! the format description, sharing no code with the crate under test. It looks only at bytes.
//! Lengths, counts and offsets are made concrete when they steer the parsing; payload stays symbolic.
use crate::rt::*;

pub const I32: u8 = 1;
pub const I64: u8 = 2;
pub const F32: u8 = 3;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bad(pub &'static str);
pub type Rd<T> = Result<T, Bad>;

/// where offsets were read
#[cfg(feature = "far")]
pub static mut OFFSETS: Vec<usize> = Vec::new();

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], p: usize) -> Cur<'a> {
        Cur { b, p }
    }
    pub fn u8(&mut self) -> Rd<u8> {
        if self.p >= self.b.len() {
            return Err(Bad("end of data"));
        }
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    /// a byte that steers parsing
    pub fn c8(&mut self) -> Rd<u8> {
        Ok(conc(self.u8()? as u64) as u8)
    }
    pub fn take(&mut self, n: usize) -> Rd<&'a [u8]> {
        if n > self.b.len() || self.p > self.b.len() - n {
            return Err(Bad("end of data"));
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    pub fn be(&mut self, n: usize) -> Rd<u64> {
        let s = self.take(n)?;
        let mut v = 0u64;
        for i in 0..n {
            v = (v << 8) | s[i] as u64;
        }
        Ok(v)
    }
    pub fn u32(&mut self) -> Rd<u32> {
        Ok(conc(self.be(4)?) as u32)
    }
    pub fn u64(&mut self) -> Rd<u64> {
        #[cfg(feature = "far")]
        unsafe {
            OFFSETS.push(self.b.as_ptr() as usize + self.p);
        }
        Ok(conc(self.be(8)?))
    }
    /// variable-length unsigned integer (value may stay symbolic, length may not)
    pub fn var(&mut self) -> Rd<u32> {
        let mut v = 0u64;
        let mut sh = 0;
        loop {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << sh;
            if b & 0x80 == 0 {
                break;
            }
            sh += 7;
            if sh > 28 {
                return Err(Bad("variable-length integer too long"));
            }
        }
        if v >> 32 != 0 {
            return Err(Bad("variable-length integer out of range"));
        }
        Ok(v as u32)
    }
    pub fn cvar(&mut self) -> Rd<usize> {
        Ok(conc(self.var()? as u64) as usize)
    }
    /// zigzag
    pub fn ivar(&mut self) -> Rd<i32> {
        let u = self.var()?;
        Ok(((u >> 1) as i32) ^ (0u32.wrapping_sub(u & 1) as i32))
    }
    pub fn str(&mut self) -> Rd<&'a [u8]> {
        let n = conc(self.ivar()? as u32 as u64) as u32 as i32;
        if n < 0 {
            return Err(Bad("negative string length"));
        }
        self.take(n as usize)
    }
}

#[derive(Clone, Copy)]
pub struct Stats {
    pub count: u32,
    pub first_t: i64,
    pub last_t: i64,
    pub min: u64,
    pub max: u64,
    pub first: u64,
    pub last: u64,
    pub sum: u64,
}
pub fn stats(c: &mut Cur, dtype: u8) -> Rd<Stats> {
    let n = width(dtype)?;
    let count = c.var()?;
    Ok(Stats {
        count,
        first_t: c.be(8)? as i64,
        last_t: c.be(8)? as i64,
        min: c.be(n)?,
        max: c.be(n)?,
        first: c.be(n)?,
        last: c.be(n)?,
        sum: c.be(8)?,
    })
}
pub fn width(dtype: u8) -> Rd<usize> {
    match dtype {
        I32 | F32 => Ok(4),
        I64 => Ok(8),
        _ => Err(Bad("unknown data type")),
    }
}
pub struct Page {
    pub times: Vec<u64>,
    pub vals: Vec<u64>,
    pub stats: Option<Stats>,
}
pub struct Chunk {
    pub device: Vec<u8>,
    pub off: usize,
    pub end: usize,
    pub name: Vec<u8>,
    pub dtype: u8,
    pub comp: u8,
    pub enc: u8,
    pub pages: Vec<Page>,
}
pub fn snappy(src: &[u8]) -> Rd<Vec<u8>> {
    let mut c = Cur::new(src, 0);
    let n = c.cvar()?;
    let mut out: Vec<u8> = Vec::new();
    while c.p < src.len() {
        let tag = c.c8()?;
        let (len, off) = match tag & 3 {
            0 => {
                let mut len = (tag >> 2) as usize + 1;
                if len > 60 {
                    let nb = len - 60;
                    let mut v = 0usize;
                    for i in 0..nb {
                        v |= (c.c8()? as usize) << (8 * i);
                    }
                    len = v + 1;
                }
                out.extend_from_slice(c.take(len)?);
                continue;
            }
            1 => (((tag >> 2) & 7) as usize + 4, ((tag as usize >> 5) << 8) | c.c8()? as usize),
            2 => ((tag >> 2) as usize + 1, c.c8()? as usize | (c.c8()? as usize) << 8),
            _ => {
                let mut o = 0usize;
                for i in 0..4 {
                    o |= (c.c8()? as usize) << (8 * i);
                }
                ((tag >> 2) as usize + 1, o)
            }
        };
        if off == 0 || off > out.len() {
            return Err(Bad("snappy: bad copy"));
        }
        for _ in 0..len {
            let b = out[out.len() - off];
            out.push(b);
        }
    }
    if out.len() != n {
        return Err(Bad("snappy: wrong length"));
    }
    Ok(out)
}
/// TS2DIFF blocks until the data ends; nbytes is 4 or 8
pub fn ts2diff(src: &[u8], nbytes: usize) -> Rd<Vec<u64>> {
    let mut out = vec![];
    let mut c = Cur::new(src, 0);
    let bits = nbytes * 8;
    while c.p < src.len() {
        let n = c.u32()? as usize;
        let w = c.u32()? as usize;
        if w > bits {
            return Err(Bad("TS2DIFF width"));
        }
        let min = c.be(nbytes)?;
        let mut prev = c.be(nbytes)?;
        out.push(prev);
        let total = match n.checked_mul(w) {
            Some(t) => (t + 7) / 8,
            None => return Err(Bad("TS2DIFF size")),
        };
        let body = c.take(total)?;
        for i in 0..n {
            let mut d = 0u64;
            // collect w bits starting at bit i*w, most significant first
            let mut pos = i * w;
            let mut left = w;
            while left > 0 {
                let avail = 8 - (pos & 7);
                let k = if left < avail { left } else { avail };
                let byte = body[pos >> 3];
                let part = (byte >> (avail - k)) as u64 & ((1u64 << k) - 1);
                d = (d << k) | part;
                pos += k;
                left -= k;
            }
            prev = if nbytes == 8 {
                prev.wrapping_add(min).wrapping_add(d)
            } else {
                (prev as u32).wrapping_add(min as u32).wrapping_add(d as u32) as u64
            };
            out.push(prev);
        }
    }
    Ok(out)
}
fn values(src: &[u8], dtype: u8, enc: u8, count: usize) -> Rd<Vec<u64>> {
    let w = width(dtype)?;
    match (enc, dtype) {
        (4, I32) | (4, I64) => {
            let v = ts2diff(src, w)?;
            if v.len() != count {
                return Err(Bad("number of values and timestamps differ"));
            }
            Ok(v)
        }
        (0, _) => {
            let mut c = Cur::new(src, 0);
            let mut v = vec![];
            for _ in 0..count {
                v.push(if dtype == I32 { c.ivar()? as u32 as u64 } else { c.be(w)? });
            }
            if c.p != src.len() {
                return Err(Bad("bytes left over after the values"));
            }
            Ok(v)
        }
        _ => Err(Bad("unknown encoding")),
    }
}
pub fn page_body(src: &[u8], dtype: u8, enc: u8) -> Rd<(Vec<u64>, Vec<u64>)> {
    let mut c = Cur::new(src, 0);
    let n = c.cvar()?;
    let times = ts2diff(c.take(n)?, 8)?;
    let vals = values(&src[c.p..], dtype, enc, times.len())?;
    Ok((times, vals))
}
/// a chunk whose marker byte is at c.p; None if the data ends inside it
pub fn chunk(c: &mut Cur, device: &[u8]) -> Rd<Chunk> {
    let off = c.p;
    let marker = c.c8()?;
    if marker != 5 && marker != 1 {
        return Err(Bad("unknown marker"));
    }
    let name = c.str()?.to_vec();
    let size = c.cvar()?;
    let dtype = c.c8()?;
    let comp = c.c8()?;
    let enc = c.c8()?;
    let body = c.take(size)?;
    let mut d = Cur::new(body, 0);
    let mut pages = vec![];
    while d.p < body.len() {
        let usize_ = d.cvar()?;
        let csize = d.cvar()?;
        let st = if marker == 1 { Some(stats(&mut d, dtype)?) } else { None };
        let raw = d.take(csize)?;
        let (times, vals) = match comp {
            0 => {
                if usize_ != csize {
                    return Err(Bad("page sizes differ without compression"));
                }
                page_body(raw, dtype, enc)?
            }
            1 => {
                let x = snappy(raw)?;
                if x.len() != usize_ {
                    return Err(Bad("uncompressed page size"));
                }
                page_body(&x, dtype, enc)?
            }
            _ => return Err(Bad("unknown compression")),
        };
        pages.push(Page { times, vals, stats: st });
    }
    if pages.is_empty() || (marker == 5 && pages.len() != 1) {
        return Err(Bad("number of pages does not fit the chunk marker"));
    }
    Ok(Chunk { device: device.to_vec(), off, end: c.p, name, dtype, comp, enc, pages })
}
pub struct Scan {
    pub chunks: Vec<Chunk>,
    /// position of the metadata marker, if reached
    pub meta: Option<usize>,
}
/// sequential scan from the start; ends at the metadata marker or where the data ends
pub fn scan(b: &[u8]) -> Rd<Scan> {
    let mut r = Scan { chunks: vec![], meta: None };
    if b.len() < 7 {
        return Ok(r);
    }
    let mut head = Acc::new();
    for (i, x) in b"TsFile\x03".iter().enumerate() {
        head.eq(b[i] as u64, *x as u64);
    }
    head.done("magic and version at the start of the file");
    let mut c = Cur::new(b, 7);
    let mut device: Option<Vec<u8>> = None;
    while c.p < b.len() {
        let m = conc(b[c.p] as u64) as u8;
        match m {
            0 => {
                c.p += 1;
                match c.str() {
                    Ok(s) => device = Some(s.to_vec()),
                    Err(e) => return end(r, e),
                }
            }
            2 => {
                r.meta = Some(c.p);
                return Ok(r);
            }
            1 | 5 => {
                let d = match &device {
                    Some(d) => d,
                    None => return Err(Bad("chunk outside of a chunk group")),
                };
                match chunk(&mut c, d) {
                    Ok(x) => r.chunks.push(x),
                    Err(e) => return end(r, e),
                }
            }
            _ => return Err(Bad("unknown marker")),
        }
    }
    Ok(r)
}
fn end(r: Scan, e: Bad) -> Rd<Scan> {
    if e == Bad("end of data") {
        Ok(r)
    } else {
        Err(e)
    }
}
pub struct Node {
    pub kind: u8,
    pub entries: Vec<(Vec<u8>, u64)>,
    pub end: u64,
    pub len: usize,
}
pub fn node(c: &mut Cur) -> Rd<Node> {
    let p = c.p;
    let n = c.cvar()?;
    let mut entries = vec![];
    for _ in 0..n {
        let s = c.str()?.to_vec();
        let o = c.u64()?;
        entries.push((s, o));
    }
    let end = c.u64()?;
    let kind = c.c8()?;
    if kind > 3 {
        return Err(Bad("unknown index node type"));
    }
    Ok(Node { kind, entries, end, len: c.p - p })
}
pub struct Bloom {
    pub bytes: Vec<u8>,
    pub size: u32,
    pub hashes: u32,
}
pub struct Tail {
    pub root: Node,
    pub meta: u64,
    pub bloom: Bloom,
    pub footer: usize,
}
pub fn tail(b: &[u8]) -> Rd<Tail> {
    let n = b.len();
    if n < 7 + 4 + 6 {
        return Err(Bad("file too short"));
    }
    let mut t = Acc::new();
    for (i, x) in b"TsFile".iter().enumerate() {
        t.eq(b[n - 6 + i] as u64, *x as u64);
    }
    t.done("magic at the end of the file");
    let size = Cur::new(b, n - 10).u32()? as usize;
    if size > n - 10 - 7 {
        return Err(Bad("footer size"));
    }
    let footer = n - 10 - size;
    let mut c = Cur::new(&b[..n - 10], footer);
    let root = node(&mut c)?;
    let meta = c.u64()?;
    let nb = c.cvar()?;
    let bytes = c.take(nb)?.to_vec();
    let sz = c.cvar()? as u32;
    let hashes = c.cvar()? as u32;
    if c.p != n - 10 {
        return Err(Bad("footer does not end where the size says"));
    }
    Ok(Tail { root, meta, bloom: Bloom { bytes, size: sz, hashes }, footer })
}
pub struct ChunkMeta {
    pub off: u64,
    pub stats: Option<Stats>,
}
pub struct Series {
    pub kind: u8,
    pub name: Vec<u8>,
    pub dtype: u8,
    pub stats: Stats,
    pub chunks: Vec<ChunkMeta>,
    pub off: usize,
    pub end: usize,
}
pub fn series(c: &mut Cur) -> Rd<Series> {
    let off = c.p;
    let kind = c.c8()?;
    let name = c.str()?.to_vec();
    let dtype = c.c8()?;
    let size = c.cvar()?;
    let st = stats(c, dtype)?;
    let body = c.take(size)?;
    let mut d = Cur::new(body, 0);
    let mut chunks = vec![];
    if kind & 0x3f > 1 {
        return Err(Bad("series metadata type"));
    }
    while d.p < body.len() {
        let o = d.u64()?;
        let s = if kind & 1 == 1 { Some(stats(&mut d, dtype)?) } else { None };
        chunks.push(ChunkMeta { off: o, stats: s });
    }
    if chunks.is_empty() || (kind & 1 == 0 && chunks.len() != 1) {
        return Err(Bad("number of chunks does not fit the series metadata type"));
    }
    Ok(Series { kind, name, dtype, stats: st, chunks, off, end: c.p })
}
/// The child of a node that is responsible for a name: the byte range of the last entry whose name
/// is not greater (exact: equal), found by binary search as a reader does it.
pub fn child(n: &Node, name: &[u8], exact: bool) -> Option<(u64, u64)> {
    let mut lo = 0i64;
    let mut hi = n.entries.len() as i64 - 1;
    while lo <= hi {
        let mid = (lo + hi) / 2;
        match n.entries[mid as usize].0.as_slice().cmp(name) {
            std::cmp::Ordering::Less => lo = mid + 1,
            std::cmp::Ordering::Greater => hi = mid - 1,
            std::cmp::Ordering::Equal => return Some(range(n, mid as usize)),
        }
    }
    if exact || lo == 0 {
        return None;
    }
    Some(range(n, lo as usize - 1))
}
fn range(n: &Node, i: usize) -> (u64, u64) {
    let e = if i + 1 < n.entries.len() { n.entries[i + 1].1 } else { n.end };
    (n.entries[i].1, e)
}
fn sub(b: &[u8], r: (u64, u64)) -> Rd<Node> {
    if r.0 >= r.1 || r.1 > b.len() as u64 {
        return Err(Bad("index offset outside of the file"));
    }
    let mut c = Cur::new(&b[..r.1 as usize], r.0 as usize);
    let n = node(&mut c)?;
    Ok(n)
}
/// look up one series through the index
pub fn lookup(b: &[u8], t: &Tail, device: &[u8], name: &[u8]) -> Rd<Option<Series>> {
    let mut n = Node { kind: t.root.kind, entries: t.root.entries.clone(), end: t.root.end, len: 0 };
    // device levels
    let mut depth = 0;
    while n.kind == 0 {
        n = match child(&n, device, false) {
            None => return Ok(None),
            Some(r) => sub(b, r)?,
        };
        depth += 1;
        if depth > 40 {
            return Err(Bad("index too deep"));
        }
    }
    if n.kind != 1 {
        return Err(Bad("device node expected"));
    }
    n = match child(&n, device, true) {
        None => return Ok(None),
        Some(r) => sub(b, r)?,
    };
    while n.kind == 2 {
        n = match child(&n, name, false) {
            None => return Ok(None),
            Some(r) => sub(b, r)?,
        };
        depth += 1;
        if depth > 40 {
            return Err(Bad("index too deep"));
        }
    }
    if n.kind != 3 {
        return Err(Bad("measurement node expected"));
    }
    let r = match child(&n, name, false) {
        None => return Ok(None),
        Some(r) => r,
    };
    if r.0 > r.1 || r.1 > b.len() as u64 {
        return Err(Bad("index offset outside of the file"));
    }
    let mut c = Cur::new(&b[..r.1 as usize], r.0 as usize);
    while c.p < r.1 as usize {
        let s = series(&mut c)?;
        if s.name == name {
            return Ok(Some(s));
        }
    }
    Ok(None)
}
/// everything the index leads to, in order, with the structural conditions checked
pub struct Walk {
    pub series: Vec<(Vec<u8>, Series)>,
    pub max_entries: usize,
    pub depth: usize,
    pub kinds: u8,
    pub sorted: bool,
    /// (start, end) of every item reached
    pub spans: Vec<(usize, usize)>,
}
pub fn walk(b: &[u8], t: &Tail) -> Rd<Walk> {
    let mut w = Walk { series: vec![], max_entries: 0, depth: 0, kinds: 0, sorted: true, spans: vec![] };
    go(b, &t.root, &[], &mut w, 1)?;
    Ok(w)
}
fn go(b: &[u8], n: &Node, device: &[u8], w: &mut Walk, depth: usize) -> Rd<()> {
    if depth > 40 {
        return Err(Bad("index too deep"));
    }
    w.kinds |= 1 << n.kind;
    if n.entries.len() > w.max_entries {
        w.max_entries = n.entries.len();
    }
    if depth > w.depth {
        w.depth = depth;
    }
    if n.entries.is_empty() && depth > 1 {
        return Err(Bad("empty index node"));
    }
    for i in 0..n.entries.len() {
        if i > 0 && n.entries[i - 1].0 >= n.entries[i].0 {
            w.sorted = false;
        }
        let r = range(n, i);
        if r.0 >= r.1 || r.1 > b.len() as u64 {
            return Err(Bad("index offset outside of the file"));
        }
        if n.kind == 3 {
            let mut c = Cur::new(&b[..r.1 as usize], r.0 as usize);
            let mut first = true;
            while c.p < r.1 as usize {
                let s = series(&mut c)?;
                if first && s.name != n.entries[i].0 {
                    return Err(Bad("index entry does not name the series it leads to"));
                }
                first = false;
                w.spans.push((s.off, s.end));
                w.series.push((device.to_vec(), s));
            }
            continue;
        }
        let c = sub(b, r)?;
        if r.0 + c.len as u64 != r.1 {
            return Err(Bad("index node does not fill the range its entry describes"));
        }
        w.spans.push((r.0 as usize, r.0 as usize + c.len));
        let ok = match n.kind {
            0 => c.kind == 0 || c.kind == 1,
            _ => c.kind == 2 || c.kind == 3,
        };
        if !ok {
            return Err(Bad("index node of an unexpected type"));
        }
        if n.kind != 1 && c.entries.first().map(|e| &e.0) != Some(&n.entries[i].0) {
            return Err(Bad("index entry does not name the node it leads to"));
        }
        // what does not belong to the node itself has to be reached from it
        let d = if n.kind == 1 { &n.entries[i].0[..] } else { device };
        go(b, &c, d, w, depth + 1)?;
    }
    Ok(())
}
