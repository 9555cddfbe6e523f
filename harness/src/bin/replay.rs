//! Runs one entry natively: replay ENTRY PARAMS INPUTS  (comma separated numbers)
//! Output: OBS <n> lines, FAIL <msg>, ASSUME, DONE; a panic aborts after printing PANIC.
use std::ffi::{c_char, c_int, c_void};
extern crate harness;

static mut INPUTS: Vec<u64> = Vec::new();
static mut PARAMS: Vec<u64> = Vec::new();
static mut POS: usize = 0;

fn out(s: &str) {
    let t = format!("{}\n", s);
    unsafe {
        libc::syscall(libc::SYS_write, 1, t.as_ptr(), t.len());
    }
}
fn leave(code: i32) -> ! {
    unsafe {
        libc::syscall(libc::SYS_exit_group, code);
    }
    loop {}
}
#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn tsym_any(bits: u32) -> u64 {
    unsafe {
        // inputs a path did not depend on may be missing
        let v = INPUTS.get(POS).copied().unwrap_or(0);
        POS += 1;
        if bits >= 64 {
            v
        } else {
            v & ((1u64 << bits) - 1)
        }
    }
}
#[no_mangle]
extern "C" fn tsym_assume(c: bool) {
    if !c {
        out("ASSUME");
        leave(3);
    }
}
fn text(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, l) }).into_owned()
}
#[no_mangle]
extern "C" fn tsym_assert(c: bool, p: *const u8, l: usize) {
    if !c {
        out(&format!("FAIL {}", text(p, l)));
        leave(1);
    }
}
#[no_mangle]
extern "C" fn tsym_fail(p: *const u8, l: usize) -> ! {
    out(&format!("FAIL {}", text(p, l)));
    leave(1)
}
#[no_mangle]
extern "C" fn tsym_reach(_p: *const u8, _l: usize) {}
#[no_mangle]
extern "C" fn tsym_observe(v: u64) {
    out(&format!("OBS {}", v));
}
#[no_mangle]
extern "C" fn tsym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn tsym_param(i: u64) -> u64 {
    unsafe { PARAMS.get(i as usize).copied().unwrap_or(0) }
}
#[no_mangle]
extern "C" fn tsym_sys_open(p: *const c_char, f: c_int, m: u32) -> c_int {
    unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, f, m) as c_int }
}
#[no_mangle]
extern "C" fn tsym_sys_write(fd: c_int, p: *const c_void, n: usize) -> isize {
    unsafe { libc::syscall(libc::SYS_write, fd, p, n) as isize }
}
#[no_mangle]
extern "C" fn tsym_sys_read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    unsafe { libc::syscall(libc::SYS_read, fd, p, n) as isize }
}
#[no_mangle]
extern "C" fn tsym_sys_close(fd: c_int) -> c_int {
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}
#[no_mangle]
extern "C" fn tsym_sys_mkdir(_p: *const c_char, _m: u32) -> c_int {
    -1
}
#[no_mangle]
extern "C" fn tsym_sys_lseek(fd: c_int, o: i64, w: c_int) -> i64 {
    unsafe { libc::syscall(libc::SYS_lseek, fd, o, w) as i64 }
}
#[no_mangle]
extern "C" fn tsym_sys_fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int }
}
fn list(s: Option<String>) -> Vec<u64> {
    s.unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<i128>().unwrap() as u64).collect()
}
fn main() {
    let mut a = std::env::args().skip(1);
    let e = a.next().expect("entry");
    unsafe {
        PARAMS = list(a.next());
        INPUTS = list(a.next());
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        out(&format!("PANIC {} ({})", m.replace('\n', " "), l));
        leave(1);
    }));
    for (n, f) in harness::entries() {
        if n == e {
            f();
            out("DONE");
            leave(0);
        }
    }
    out("unknown entry");
    leave(4);
}
