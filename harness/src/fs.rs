//! The operating system as far as the code under test sees it: files below /tsym/ live in memory,
//! every fault the properties speak of can be injected, everything else is passed on natively
//! (and is unreachable symbolically).
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};

#[no_mangle]
pub static mut tsym_errno: c_int = 0;
extern "C" {
    fn __errno_location() -> *mut c_int;
    fn tsym_sys_open(p: *const c_char, f: c_int, m: u32) -> c_int;
    fn tsym_sys_write(fd: c_int, p: *const c_void, n: usize) -> isize;
    fn tsym_sys_read(fd: c_int, p: *mut c_void, n: usize) -> isize;
    fn tsym_sys_close(fd: c_int) -> c_int;
    fn tsym_sys_fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int;
    fn tsym_sys_mkdir(p: *const c_char, m: u32) -> c_int;
    fn tsym_sys_lseek(fd: c_int, o: i64, w: c_int) -> i64;
}
pub struct MFile {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub pos: usize,
    pub open: bool,
    /// further descriptors of the same open file
    pub dups: u32,
    /// something other than appending happened after the file was created
    pub rewritten: bool,
    /// length on disk after every write call
    pub marks: Vec<usize>,
}
pub struct Sys {
    pub files: Vec<MFile>,
    pub dirs: Vec<Vec<u8>>,
    pub writes: u32,
    /// write call (counted over all files) at which something happens
    pub faults: Vec<(u32, Fault)>,
    pub open_errno: c_int,
    pub mkdir_errno: c_int,
    pub seed: u64,
    pub now: u64,
    /// random bytes are arbitrary
    pub any_random: bool,
    pub bad_fd: bool,
    /// a write call has failed
    pub failed: bool,
}
#[derive(Clone, Copy)]
pub enum Fault {
    /// only the first n bytes are accepted (if the call has more)
    Short(usize),
    /// an arbitrary proper part is accepted
    ShortAny,
    Eintr,
    /// the call fails
    Error(c_int),
    /// nothing is accepted
    Zero,
}
pub static mut SYS: Sys = Sys {
    files: Vec::new(),
    dirs: Vec::new(),
    writes: 0,
    faults: Vec::new(),
    open_errno: 0,
    mkdir_errno: 0,
    seed: 0x1234_5678,
    now: 0,
    any_random: false,
    bad_fd: false,
    failed: false,
};
#[allow(static_mut_refs)]
pub fn sys() -> &'static mut Sys {
    unsafe { &mut SYS }
}
pub fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e }
}
const FD0: c_int = 1000;

fn ours(p: &[u8]) -> bool {
    p.starts_with(b"/tsym") || p == b"uuid.lock"
}
pub fn file(name: &str) -> &'static mut MFile {
    for f in sys().files.iter_mut() {
        if f.name == name.as_bytes() {
            return f;
        }
    }
    crate::rt::fail("the file was never created")
}
pub fn exists(name: &str) -> bool {
    sys().files.iter().any(|f| f.name == name.as_bytes())
}
pub fn preset(name: &str, data: &[u8]) {
    sys().files.push(MFile { name: name.as_bytes().to_vec(), data: data.to_vec(), pos: 0, open: false, dups: 0, rewritten: false, marks: vec![] });
}
/// content of a file of the modelled file system
pub fn bytes(name: &str) -> &'static [u8] {
    &file(name).data
}
fn by_fd(fd: c_int) -> Option<&'static mut MFile> {
    let i = (fd - FD0) as usize;
    if fd >= FD0 && i < sys().files.len() {
        return Some(&mut sys().files[i]);
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    if !ours(p) {
        return tsym_sys_open(path, flags, mode);
    }
    if sys().open_errno != 0 {
        set_errno(sys().open_errno);
        return -1;
    }
    let up = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
    if is_dir(p) || !is_dir(&p[..up]) {
        set_errno(if is_dir(p) { libc::EISDIR } else { libc::ENOENT });
        return -1;
    }
    let n = sys().files.len();
    for i in 0..n {
        if sys().files[i].name == p {
            if flags & libc::O_EXCL != 0 {
                set_errno(libc::EEXIST);
                return -1;
            }
            let f = &mut sys().files[i];
            if flags & libc::O_TRUNC != 0 {
                f.data.clear();
                f.marks.clear();
                f.rewritten = false;
            }
            f.pos = 0;
            if flags & libc::O_APPEND != 0 {
                f.pos = f.data.len();
            }
            f.open = true;
            return FD0 + i as c_int;
        }
    }
    if flags & libc::O_CREAT == 0 {
        set_errno(libc::ENOENT);
        return -1;
    }
    sys().files.push(MFile { name: p.to_vec(), data: vec![], pos: 0, open: true, dups: 0, rewritten: false, marks: vec![] });
    FD0 + n as c_int
}
fn put(f: &mut MFile, buf: &[u8]) {
    if f.pos == f.data.len() {
        f.data.extend_from_slice(buf);
    } else {
        f.rewritten = true;
        while f.data.len() < f.pos {
            f.data.push(0);
        }
        for (i, b) in buf.iter().enumerate() {
            if f.pos + i < f.data.len() {
                f.data[f.pos + i] = *b;
            } else {
                f.data.push(*b);
            }
        }
    }
    f.pos += buf.len();
    f.marks.push(f.data.len());
}
/// how much of a write call is accepted, or its error
fn accepted(n: usize) -> Result<usize, c_int> {
    let s = sys();
    let w = s.writes;
    s.writes += 1;
    for (at, f) in s.faults.iter() {
        if *at == w {
            match *f {
                Fault::Short(k) => {
                    if k < n {
                        crate::rt::reach("short write");
                        return Ok(k);
                    }
                }
                Fault::ShortAny => {
                    if n > 1 {
                        let k = crate::rt::any(32);
                        crate::rt::assume(k > 0 && k < n as u64);
                        let k = crate::rt::conc(k) as usize;
                        crate::rt::reach("short write");
                        return Ok(k);
                    }
                }
                Fault::Eintr => {
                    crate::rt::reach("interrupted write");
                    return Err(libc::EINTR);
                }
                Fault::Error(e) => {
                    s.failed = true;
                    crate::rt::reach("failed write");
                    return Err(e);
                }
                Fault::Zero => {
                    if n > 0 {
                        s.failed = true;
                        crate::rt::reach("failed write");
                        return Ok(0);
                    }
                }
            }
        }
    }
    Ok(n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    if fd >= 2000 {
        #[cfg(feature = "sync")]
        return crate::net::out(std::slice::from_raw_parts(p as *const u8, n));
    }
    if fd < FD0 {
        return tsym_sys_write(fd, p, n);
    }
    match by_fd(fd) {
        Some(f) if f.open => match accepted(n) {
            Err(e) => {
                set_errno(e);
                -1
            }
            Ok(k) => {
                put(f, std::slice::from_raw_parts(p as *const u8, k));
                k as isize
            }
        },
        _ => {
            sys().bad_fd = true;
            set_errno(libc::EBADF);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, cnt: c_int) -> isize {
    let mut t = 0;
    for i in 0..cnt as usize {
        let x = &*v.add(i);
        let r = write(fd, x.iov_base, x.iov_len);
        if r < 0 {
            return if t > 0 { t } else { r };
        }
        t += r;
        if (r as usize) < x.iov_len {
            break;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: usize, off: i64) -> isize {
    match by_fd(fd) {
        Some(f) => {
            let keep = f.pos;
            f.pos = off as usize;
            put(f, std::slice::from_raw_parts(p as *const u8, n));
            f.pos = keep;
            n as isize
        }
        None => -1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    if fd >= 2000 {
        #[cfg(feature = "sync")]
        return crate::net::inn(std::slice::from_raw_parts_mut(p as *mut u8, n));
    }
    match by_fd(fd) {
        Some(f) => {
            let k = n.min(f.data.len() - f.pos.min(f.data.len()));
            for i in 0..k {
                *(p as *mut u8).add(i) = f.data[f.pos + i];
            }
            f.pos += k;
            k as isize
        }
        None => tsym_sys_read(fd, p, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 2000 {
        return 0;
    }
    match by_fd(fd) {
        Some(f) => {
            if f.dups > 0 {
                f.dups -= 1;
            } else {
                f.open = false;
            }
            0
        }
        None => tsym_sys_close(fd),
    }
}
/// a duplicate shares everything with its original, so it may as well be the same descriptor
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    let dup = cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC;
    if fd >= 2000 {
        return if dup { 2001 } else { 0 };
    }
    match by_fd(fd) {
        Some(f) => {
            if dup {
                f.dups += 1;
                return fd;
            }
            0
        }
        None => tsym_sys_fcntl(fd, cmd, arg),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match by_fd(fd) {
        Some(f) => {
            let base = match whence {
                0 => 0,
                1 => f.pos as i64,
                _ => f.data.len() as i64,
            };
            f.pos = (base + off) as usize;
            f.pos as i64
        }
        None => tsym_sys_lseek(fd, off, whence),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    match by_fd(fd) {
        Some(f) => {
            f.data.resize(n as usize, 0);
            f.rewritten = true;
            0
        }
        None => -1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_fd: c_int) -> c_int {
    0
}
/// without slashes at the end
fn bare(mut p: &[u8]) -> &[u8] {
    while p.len() > 1 && p[p.len() - 1] == b'/' {
        p = &p[..p.len() - 1];
    }
    p
}
fn is_dir(p: &[u8]) -> bool {
    let p = bare(p);
    let mut is = p.is_empty() || p == b"/tsym" || p == b"/tsym/..";
    for d in sys().dirs.iter() {
        is |= d == p;
    }
    is
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    if !ours(p) {
        return tsym_sys_mkdir(path, mode);
    }
    if sys().mkdir_errno != 0 {
        set_errno(sys().mkdir_errno);
        return -1;
    }
    let p = bare(p);
    if p == b"/tsym" {
        set_errno(libc::EEXIST);
        return -1;
    }
    let up = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
    let mut parent = bare(&p[..up]) == b"/tsym";
    for d in sys().dirs.iter() {
        if d == p {
            set_errno(libc::EEXIST);
            return -1;
        }
        parent |= d == bare(&p[..up]);
    }
    if !parent {
        set_errno(libc::ENOENT);
        return -1;
    }
    sys().dirs.push(p.to_vec());
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (a, b) = (CStr::from_ptr(a).to_bytes(), CStr::from_ptr(b).to_bytes());
    if !ours(a) || !ours(b) {
        set_errno(libc::EACCES);
        return -1;
    }
    for f in sys().files.iter_mut() {
        if f.name == b {
            f.name.push(b'~');
        }
    }
    for f in sys().files.iter_mut() {
        if f.name == a {
            f.name = b.to_vec();
            return 0;
        }
    }
    set_errno(libc::ENOENT);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let a = CStr::from_ptr(a).to_bytes();
    for f in sys().files.iter_mut() {
        if f.name == a {
            f.name.push(b'~');
            return 0;
        }
    }
    set_errno(libc::ENOENT);
    -1
}
/// the only source of randomness of the code under test (hash seeds)
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, _flags: u32) -> isize {
    let s = sys();
    for i in 0..n {
        if s.any_random {
            *(p as *mut u8).add(i) = crate::rt::any_u8();
            continue;
        }
        s.seed = s.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *(p as *mut u8).add(i) = (s.seed >> 33) as u8;
    }
    n as isize
}
/// every look at the clock finds another time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: c_int, t: *mut libc::timespec) -> c_int {
    let s = sys();
    s.now += 1_234_567_891;
    (*t).tv_sec = 1_700_000_000 + (s.now / 1_000_000_000) as i64;
    (*t).tv_nsec = (s.now % 1_000_000_000) as i64;
    0
}

/// std asks whether a directory that cannot be created exists already
unsafe fn kind(p: *const c_char) -> Option<u32> {
    let p = CStr::from_ptr(p).to_bytes();
    if !ours(p) {
        set_errno(libc::ENOENT);
        return None;
    }
    if is_dir(p) {
        return Some(libc::S_IFDIR);
    }
    for f in sys().files.iter() {
        if f.name == p {
            return Some(libc::S_IFREG);
        }
    }
    set_errno(libc::ENOENT);
    None
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match kind(p) {
        None => -1,
        Some(k) => {
            (*st).st_mode = k | 0o755;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, _f: c_int, _m: u32, st: *mut libc::statx) -> c_int {
    if *p == 0 {
        if let Some(f) = by_fd(d) {
            (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*st).stx_mask = 0xfff;
            (*st).stx_size = f.data.len() as u64;
            return 0;
        }
    }
    match kind(p) {
        None => -1,
        Some(k) => {
            (*st).stx_mode = (k | 0o755) as u16;
            (*st).stx_mask = 0xfff;
            0
        }
    }
}
