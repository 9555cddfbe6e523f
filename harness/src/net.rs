//! The handshake of the sync sender with a server that is part of the harness.
use crate::fs::{self, set_errno};
use crate::rt::*;
use std::os::raw::{c_int, c_void};
use tsfile_writer::sync::sync_sender::SyncSender;

extern "C" {
}
struct Net {
    connect_errno: c_int,
    /// what arrives from the server, and how much of it has been read
    reply: Vec<u8>,
    pos: usize,
    /// the first `cut` bytes arrive on their own; 0: everything at once
    cut: usize,
    /// every read gives one byte
    single: bool,
    /// error of a read once `fail_at` bytes have arrived
    recv_errno: c_int,
    fail_at: usize,
    /// reads interrupted before anything arrives
    eintr: u32,
    send_errno: c_int,
    /// bytes a send accepts (0: all)
    part: usize,
    sent: Vec<u8>,
    connects: u32,
}
static mut NET: Net = Net {
    connect_errno: 0,
    reply: Vec::new(),
    pos: 0,
    cut: 0,
    single: false,
    recv_errno: 0,
    fail_at: usize::MAX,
    eintr: 0,
    send_errno: 0,
    part: 0,
    sent: Vec::new(),
    connects: 0,
};
#[allow(static_mut_refs)]
fn net() -> &'static mut Net {
    unsafe { &mut NET }
}
#[no_mangle]
pub unsafe extern "C" fn socket(_d: c_int, _t: c_int, _p: c_int) -> c_int {
    2000
}
#[no_mangle]
pub unsafe extern "C" fn connect(_fd: c_int, _a: *const c_void, _l: u32) -> c_int {
    net().connects += 1;
    if net().connect_errno != 0 {
        set_errno(net().connect_errno);
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(_fd: c_int, _l: c_int, _n: c_int, _v: *const c_void, _s: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(_fd: c_int, _how: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn send(_fd: c_int, p: *const c_void, n: usize, _f: c_int) -> isize {
    out(std::slice::from_raw_parts(p as *const u8, n))
}
#[no_mangle]
pub unsafe extern "C" fn recv(_fd: c_int, p: *mut c_void, n: usize, _f: c_int) -> isize {
    inn(std::slice::from_raw_parts_mut(p as *mut u8, n))
}
pub fn out(b: &[u8]) -> isize {
    let s = net();
    if s.send_errno != 0 {
        set_errno(s.send_errno);
        return -1;
    }
    let n = if s.part == 0 { b.len() } else { b.len().min(s.part) };
    s.sent.extend_from_slice(&b[..n]);
    n as isize
}
pub fn inn(b: &mut [u8]) -> isize {
    let s = net();
    if s.eintr > 0 {
        s.eintr -= 1;
        set_errno(libc::EINTR);
        return -1;
    }
    if s.recv_errno != 0 && s.pos >= s.fail_at {
        set_errno(s.recv_errno);
        return -1;
    }
    let mut n = b.len().min(s.reply.len() - s.pos);
    if s.recv_errno != 0 {
        n = n.min(s.fail_at - s.pos);
    }
    if s.cut > s.pos {
        n = n.min(s.cut - s.pos);
    }
    if s.single {
        n = n.min(1);
    }
    for i in 0..n {
        b[i] = s.reply[s.pos + i];
    }
    s.pos += n;
    n as isize
}

// --- messages -------------------------------------------------------------------------------
const CALL: u8 = 1;
const REPLY: u8 = 2;
const EXCEPTION: u8 = 3;
const STRING: u8 = 11;
const STRUCT: u8 = 12;

fn be32(b: &mut Vec<u8>, v: u32) {
    b.extend_from_slice(&v.to_be_bytes());
}
fn field(b: &mut Vec<u8>, ty: u8, id: u16) {
    b.push(ty);
    b.extend_from_slice(&id.to_be_bytes());
}
fn string(b: &mut Vec<u8>, s: &[u8]) {
    be32(b, s.len() as u32);
    b.extend_from_slice(s);
}
/// a field no reader knows, of any type
fn extra(b: &mut Vec<u8>, which: u64, id: u16) {
    let ty = [2u8, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15][which as usize % 11];
    field(b, ty, id);
    match ty {
        2 | 3 => b.push(any_u8()),
        6 => b.extend_from_slice(&[any_u8(), any_u8()]),
        8 => be32(b, any(32) as u32),
        4 | 10 => {
            be32(b, any(32) as u32);
            be32(b, any(32) as u32);
        }
        11 => string(b, b"more"),
        12 => {
            field(b, 8, 1);
            be32(b, any(32) as u32);
            b.push(0);
        }
        13 => {
            b.extend_from_slice(&[8, 3]);
            be32(b, 2);
            for _ in 0..2 {
                be32(b, any(32) as u32);
                b.push(any_u8());
            }
        }
        _ => {
            b.push(6);
            be32(b, 3);
            for _ in 0..3 {
                b.extend_from_slice(&[any_u8(), any_u8()]);
            }
        }
    }
}
fn head(b: &mut Vec<u8>, kind: u8, name: &[u8], seq: u32) {
    b.extend_from_slice(&[0x80, 1, 0, kind]);
    string(b, name);
    be32(b, seq);
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut f = vec![];
    be32(&mut f, b.len() as u32);
    f.extend_from_slice(b);
    f
}
/// the answer of a server of the protocol
fn answer(code: u32, msg: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    head(&mut b, REPLY, b"check", 1);
    field(&mut b, STRUCT, 0);
    field(&mut b, 8, 1);
    be32(&mut b, code);
    field(&mut b, STRING, 2);
    string(&mut b, msg);
    b.push(0);
    b.push(0);
    b
}
fn ascii(n: u64) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..n {
        let c = any_u8();
        assume(c < 0x80);
        b.push(c);
    }
    b
}
fn shake() -> bool {
    let r = SyncSender::new("127.0.0.1:5555", Some("10.0.0.7"), Some("an-uuid"));
    let ok = r.is_ok();
    observe(ok as u64);
    reach(if ok { "connected" } else { "refused" });
    ok
}
fn expect(want: bool) {
    if shake() != want {
        fail(if want { "a handshake the server confirms is reported as an error" } else { "a handshake the server does not confirm is reported as a success" });
    }
}
/// params: length of the message, transport (0 at once, 1 arbitrary first part, 2 byte by byte, 3 interrupted reads, 4 partial sends)
fn status() {
    let (n, how) = (param(0), param(1));
    let code = any_i32();
    let msg = ascii(n);
    net().reply = frame(&answer(code as u32, &msg));
    match how {
        1 => net().cut = 1 + choose(net().reply.len() as u64 - 1) as usize,
        2 => net().single = true,
        3 => net().eintr = 1 + choose(3) as u32,
        4 => net().part = 1 + choose(4) as usize,
        _ => (),
    }
    let ok = shake();
    check(ok == (code >= 0), "the handshake succeeds exactly if the status of the server is a success");
}
/// Forms of an answer that say the same: fields in another order, fields nobody knows anywhere, header of the old protocol,
/// more data after the answer, characters of several bytes in the message
fn forms() {
    let code = any_i32();
    let form = choose(9);
    let mut b = vec![];
    if form == 7 {
        // the header without a version
        string(&mut b, b"check");
        b.push(REPLY);
        be32(&mut b, 1);
    } else {
        head(&mut b, REPLY, b"check", 1);
    }
    let w = if (2..=5).contains(&form) { choose(11) } else { 0 };
    if form == 2 {
        extra(&mut b, w, 7);
    }
    field(&mut b, STRUCT, 0);
    if form == 3 {
        extra(&mut b, w, 300);
    }
    let msg = if form == 6 { "ok \u{e9}\u{4e2d}".as_bytes() } else { b"ok" };
    if form == 1 {
        field(&mut b, STRING, 2);
        string(&mut b, msg);
    }
    field(&mut b, 8, 1);
    be32(&mut b, code as u32);
    if form != 1 {
        if form == 4 {
            extra(&mut b, w, 3);
        }
        field(&mut b, STRING, 2);
        string(&mut b, msg);
    }
    b.push(0);
    if form == 5 {
        extra(&mut b, w, 0xffff);
    }
    b.push(0);
    let mut f = frame(&b);
    if form == 8 {
        f.extend_from_slice(&frame(&[1, 2, 3]));
    }
    net().reply = f;
    let ok = shake();
    check(ok == (code >= 0), "the handshake succeeds exactly if the status of the server is a success");
}
/// Answers that confirm nothing: each is an error, whatever else they say
fn bad() {
    let kind = param(0);
    let code = any(32) as u32;
    let mut b = answer(code, b"fine");
    match kind {
        // no result
        0 => {
            b.clear();
            head(&mut b, REPLY, b"check", 1);
            b.push(0);
        }
        // no code, no message
        1 | 2 => {
            b.clear();
            head(&mut b, REPLY, b"check", 1);
            field(&mut b, STRUCT, 0);
            if kind == 2 {
                field(&mut b, 8, 1);
                be32(&mut b, code);
            } else {
                field(&mut b, STRING, 2);
                string(&mut b, b"fine");
            }
            b.push(0);
            b.push(0);
        }
        // an exception of the protocol, complete, empty, or followed by a status
        3 | 4 | 5 => {
            let status = b[13 + 4..].to_vec();
            b.clear();
            head(&mut b, EXCEPTION, b"check", 1);
            if kind == 3 {
                field(&mut b, STRING, 1);
                string(&mut b, b"no");
                field(&mut b, 8, 2);
                be32(&mut b, code);
                b.push(0);
            } else if kind == 4 {
                b.push(0);
            } else {
                b.extend_from_slice(&status);
            }
        }
        // another sequence number
        6 => {
            let s = any(32) as u32;
            assume(s != 1);
            for (i, x) in s.to_be_bytes().iter().enumerate() {
                b[13 + i] = *x;
            }
        }
        // another kind of message
        7 => {
            let k = any_u8();
            assume(k != REPLY);
            b[3] = k;
        }
        // another name
        8 => {
            let k = 8 + choose(5) as usize;
            let c = any_u8();
            assume(c != b[k]);
            b[k] = c;
        }
        // another version
        9 => {
            let (x, y) = (any_u8(), any_u8());
            assume(x >= 8 && !(x == 0x80 && y == 1));
            b[0] = x;
            b[1] = y;
        }
        // the connection ends after k bytes, closed or reset
        10 | 11 => {
            let f = frame(&b);
            let k = choose(f.len() as u64) as usize;
            if kind == 10 {
                net().reply = f[..k].to_vec();
            } else {
                net().reply = f;
                net().fail_at = k;
                net().recv_errno = libc::ECONNRESET;
            }
        }
        // the frame ends before the answer does
        12 => {
            let k = choose(b.len() as u64) as usize;
            b.truncate(k);
        }
        // the connection is refused
        13 => {
            net().connect_errno = [libc::ECONNREFUSED, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::EACCES, libc::EADDRNOTAVAIL][choose(6) as usize];
        }
        // the request cannot be sent, although an answer is there
        14 => net().send_errno = [libc::EPIPE, libc::ECONNRESET, libc::ENOBUFS][choose(3) as usize],
        // empty frames only
        15 => {
            b.clear();
            net().reply = vec![0; 12];
        }
        // the frame claims more than arrives
        _ => {
            let n = b.len();
            let mut f = frame(&b);
            let more = [1usize, 4, 100, 5000, 100_000][choose(5) as usize];
            f[..4].copy_from_slice(&((n + more) as u32).to_be_bytes());
            net().reply = f;
        }
    }
    if net().reply.is_empty() && kind != 10 {
        net().reply = frame(&b);
    }
    expect(false);
    if kind == 13 {
        check(net().sent.is_empty(), "something is sent without a connection");
    }
}
/// an independent reading of an answer: Some(code) if it carries a status.  As thrift's own readers do, it takes a field by
/// its number alone
struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.b.len() - self.p {
            return None;
        }
        self.p += n;
        Some(&self.b[self.p - n..self.p])
    }
    fn u8(&mut self) -> Option<u8> {
        Some(conc(self.take(1)?[0] as u64) as u8)
    }
    fn i16(&mut self) -> Option<u16> {
        let b = self.take(2)?;
        Some((b[0] as u16) << 8 | b[1] as u16)
    }
    fn i32(&mut self) -> Option<u32> {
        let b = self.take(4)?;
        Some(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn size(&mut self) -> Option<usize> {
        let n = self.i32()?;
        if n > 0x7fff_ffff {
            return None;
        }
        if n as usize > self.b.len() {
            return None;
        }
        Some(conc(n as u64) as usize)
    }
    fn ty(&mut self) -> Option<u8> {
        let t = self.u8()?;
        if t > 17 || t == 5 || t == 7 || t == 9 {
            return None;
        }
        Some(t)
    }
    /// a number of elements; thrift's readers take a negative one for none
    fn count(&mut self) -> Option<usize> {
        let n = self.i32()?;
        if n as i32 <= 0 {
            return Some(0);
        }
        Some(conc(n.min(self.b.len() as u32) as u64) as usize)
    }
    fn text(&mut self) -> Option<&'a [u8]> {
        let n = self.size()?;
        let s = self.take(n)?;
        if std::str::from_utf8(s).is_err() {
            return None;
        }
        Some(s)
    }
    fn skip(&mut self, ty: u8, depth: u32) -> Option<()> {
        if depth == 0 {
            return None;
        }
        match ty {
            2 | 3 => self.take(1).map(|_| ()),
            6 => self.take(2).map(|_| ()),
            8 => self.take(4).map(|_| ()),
            4 | 10 => self.take(8).map(|_| ()),
            11 => self.text().map(|_| ()),
            12 => loop {
                let t = self.ty()?;
                if t == 0 {
                    return Some(());
                }
                self.i16()?;
                self.skip(t, depth - 1)?;
            },
            13 => {
                let (t, u) = (self.ty()?, self.ty()?);
                for _ in 0..self.count()? {
                    self.skip(t, depth - 1)?;
                    self.skip(u, depth - 1)?;
                }
                Some(())
            }
            14 | 15 => {
                let t = self.ty()?;
                for _ in 0..self.count()? {
                    self.skip(t, depth - 1)?;
                }
                Some(())
            }
            _ => None,
        }
    }
    fn status(&mut self) -> Option<u32> {
        let (mut code, mut msg) = (None, None);
        loop {
            let t = self.ty()?;
            if t == 0 {
                break;
            }
            match self.i16()? {
                1 => code = Some(self.i32()?),
                2 => msg = Some(self.text()?),
                _ => self.skip(t, 64)?,
            }
        }
        msg?;
        code
    }
    fn head(&mut self, kind: u8) -> Option<()> {
        let h = self.take(4)?;
        if h[0] >= 8 {
            if h[0] != 0x80 || h[1] != 1 || h[3] != kind {
                return None;
            }
            if self.text()? != b"check" {
                return None;
            }
        } else {
            self.p -= 4;
            if self.text()? != b"check" || self.u8()? != kind {
                return None;
            }
        }
        if self.i32()? != 1 {
            return None;
        }
        Some(())
    }
    fn message(&mut self) -> Option<u32> {
        self.head(REPLY)?;
        let mut res = None;
        loop {
            let t = self.ty()?;
            if t == 0 {
                break;
            }
            match self.i16()? {
                0 => res = Some(self.status()?),
                _ => self.skip(t, 64)?,
            }
        }
        res
    }
}
/// params: first, n, code.  An answer with n arbitrary bytes at `first`; success only if an independent reader finds one
fn window() {
    let (first, n, code) = (param(0) as usize, param(1) as usize, param(2) as u32);
    let mut b = answer(code, b"fi");
    for i in first..(first + n).min(b.len()) {
        b[i] = any_u8();
    }
    net().reply = frame(&b);
    let ok = shake();
    let want = match (Rd { b: &b, p: 0 }).message() {
        Some(c) => (c as i32) >= 0,
        None => false,
    };
    if ok && !want {
        fail("a handshake the server does not confirm is reported as a success");
    }
    if want && !ok {
        fail("a handshake the server confirms is reported as an error");
    }
}
/// params: which length (0 frame, 1 name, 2 message), negative.  Lengths that do not fit
fn length() {
    let (which, neg) = (param(0) as usize, param(1));
    let at = [0usize, 4 + 4, 4 + 30][which];
    let mut f = frame(&answer(0, b"fine"));
    let have = u32::from_be_bytes([f[at], f[at + 1], f[at + 2], f[at + 3]]);
    let n = if neg == 1 {
        [-1i32, i32::MIN, i32::MIN + 5, -256][choose(4) as usize] as u32
    } else if choose(2) == 0 {
        // a frame that ends early leaves bytes the next read takes for the length of another frame
        if which == 0 { have + choose(64) as u32 } else { choose(64) as u32 }
    } else {
        [100u32, 255, 256, 4096, 9000, 70_000][choose(6) as usize]
    };
    if n == have {
        return;
    }
    f[at..at + 4].copy_from_slice(&n.to_be_bytes());
    net().reply = f;
    // a shorter message may end exactly where a complete answer does: an independent reading decides
    let r = &net().reply;
    let len = u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as usize;
    let want = match r.get(4..4usize.saturating_add(len)) {
        Some(b) => matches!((Rd { b, p: 0 }).message(), Some(c) if (c as i32) >= 0),
        None => false,
    };
    expect(want);
}
/// params: length of address and uuid.  The request carries what was given
fn request() {
    let (n, k) = (param(0), param(1));
    let addr = ascii(n);
    let uuid = ascii(k);
    net().reply = frame(&answer(1, b""));
    let r = SyncSender::new("127.0.0.1:5555", Some(std::str::from_utf8(&addr).unwrap()), Some(std::str::from_utf8(&uuid).unwrap()));
    if r.is_err() {
        fail("a handshake the server confirms is reported as an error");
    }
    drop(r);
    let s = net();
    if s.connects != 1 {
        fail("not one connection");
    }
    let mut i = Rd { b: &s.sent, p: 0 };
    let mut go = || -> Option<()> {
        let n = i.size()?;
        if n + 4 != i.b.len() {
            return None;
        }
        i.head(CALL)?;
        if i.u8()? != STRUCT {
            return None;
        }
        i.i16()?;
        let mut seen = 0;
        loop {
            let t = i.u8()?;
            if t == 0 {
                break;
            }
            match i.i16()? {
                1 => {
                    let n = i.size()?;
                    bytes_eq(i.take(n)?, &addr, "the request carries another address");
                    seen += 1;
                }
                2 => {
                    let n = i.size()?;
                    bytes_eq(i.take(n)?, &uuid, "the request carries another uuid");
                    seen += 1;
                }
                _ => i.skip(t, 64)?,
            }
        }
        if seen != 2 || i.u8()? != 0 || i.p != i.b.len() {
            return None;
        }
        Some(())
    };
    if go().is_none() {
        fail("what is sent is not one check request");
    }
    reach("request");
}

/// the uuid of the request sent
fn uuid_sent() -> Vec<u8> {
    let mut i = Rd { b: &net().sent, p: 0 };
    let mut go = || -> Option<Vec<u8>> {
        i.size()?;
        i.head(CALL)?;
        i.u8()?;
        i.i16()?;
        loop {
            let t = i.u8()?;
            match i.i16()? {
                2 => {
                    let n = i.size()?;
                    return Some(i.take(n)?.to_vec());
                }
                _ => i.skip(t, 64)?,
            }
        }
    };
    match go() {
        Some(u) => u,
        None => fail("no uuid in what is sent"),
    }
}
/// C21.  params: bytes of uuid.lock (1000: there is none), what happens to it (0 nothing, 1 it cannot be opened, 2 it
/// cannot be written, 3 a part of it is accepted, 4 interrupted)
fn identity() {
    let (n, fault) = (param(0), param(1));
    let old = ascii(if n < 1000 { n } else { 0 });
    if n < 1000 {
        fs::preset("uuid.lock", &old);
    }
    fs::sys().any_random = true;
    match fault {
        1 => fs::sys().open_errno = libc::EACCES,
        2 => fs::sys().faults.push((0, fs::Fault::Error(libc::ENOSPC))),
        3 => fs::sys().faults.push((0, fs::Fault::ShortAny)),
        4 => fs::sys().faults.push((0, fs::Fault::Eintr)),
        _ => (),
    }
    let mut before: Option<Vec<u8>> = None;
    for round in 0..3 {
        net().reply = frame(&answer(1, b""));
        net().pos = 0;
        net().sent.clear();
        let r = SyncSender::new("127.0.0.1:5555", Some("10.0.0.7"), None);
        let lost = fault == 1 || fault == 2 && n == 1000 && round == 0;
        if lost {
            check(r.is_err(), "an identity that cannot be kept is used");
            check(net().sent.is_empty(), "an identity that cannot be kept is sent");
            reach("no identity");
            if fault == 2 {
                // what a failing disk leaves behind is not judged
                return;
            }
            continue;
        }
        check(r.is_ok(), "a handshake the server confirms is reported as an error");
        drop(r);
        let id = uuid_sent();
        if n < 1000 {
            bytes_eq(&id, &old, "the identity sent is not the one kept");
            bytes_eq(fs::bytes("uuid.lock"), &old, "the identity kept is changed");
            reach("kept");
        } else {
            bytes_eq(&id, fs::bytes("uuid.lock"), "the identity sent is not the one kept");
            check(id.len() == 32, "an identity of another length");
            for c in id.iter() {
                check(*c >= b'0' && *c <= b'9' || *c >= b'a' && *c <= b'f', "an identity of other characters");
            }
            reach("generated");
        }
        if let Some(b) = &before {
            bytes_eq(&id, b, "the identity changes from one connection to the next");
        }
        before = Some(id);
    }
}

entries! {
    h_sync_identity => identity,
    h_sync_status => status,
    h_sync_forms => forms,
    h_sync_bad => bad,
    h_sync_window => window,
    h_sync_length => length,
    h_sync_request => request,
}
