//! The functions of the C interface against the Rust interface.
use crate::base::*;
use crate::fs;
use crate::model::*;
use crate::reader::*;
use crate::rt::*;
use std::ffi::CString;
use std::os::raw::c_char;
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::{IoTDBValue, Schema};

// the file itself, compiled as a module: its functions keep their C names
#[allow(unused)]
#[path = "/repo/tsfile-writer-c/src/lib.rs"]
mod capi;

const NAMES: [(&str, &str); 6] = [
    ("root.sg.d1", "s1"),
    ("d", "s"),
    ("root.sg.d\u{e9}", "\u{4e2d}.s"),
    ("", "s"),
    ("root.sg.d1", ""),
    ("root.a device of a longer name, of more than sixteen and more than thirty-two bytes.d", "a measurement with blanks"),
];
/// a string of C, its own memory, that is overwritten when it is given up
struct Cs(Vec<u8>);
impl Cs {
    fn new(s: &str) -> Cs {
        let mut v = s.as_bytes().to_vec();
        v.push(0);
        Cs(v)
    }
    fn p(&self) -> *const c_char {
        self.0.as_ptr() as *const c_char
    }
}
impl Drop for Cs {
    fn drop(&mut self) {
        for b in self.0.iter_mut() {
            *b = b'#';
        }
    }
}
fn rust(path: &'static str, dev: &'static str, name: &'static str, codes: (u8, u8, u8), pts: &[(i64, u64)]) {
    let s: Schema<'static> = Schema::simple(dev, name, dtype(codes.0), enc(codes.1), comp(codes.2));
    let mut w = match TsFileWriter::new(path, s, Default::default()) {
        Ok(w) => w,
        Err(_) => fail("the file cannot be created"),
    };
    for (t, v) in pts {
        if w.write(dev, name, *t, IoTDBValue::INT(*v as u32 as i32)).is_err() {
            fail("a legal write is refused");
        }
    }
    finish(w);
}
/// params: n, names, gap, compression.  n points of a series of INT32 (none of the other types: the interface has no function for them),
/// timestamps and values arbitrary (gap > 0: timestamps fixed; compression: values fixed, too); the schema is freed at an arbitrary moment or never
fn same_file() {
    let (n, which, gap, c) = (param(0), param(1) as usize, param(2), param(3) as u8);
    let (dev, name) = NAMES[which];
    let d = if n == 0 { 1 + choose(3) as u8 } else { I32 };
    let e = [0u8, 4][choose(2) as usize];
    if d == F32 && e == 4 {
        return;
    }
    let mut pts: Vec<(i64, u64)> = vec![];
    for k in 0..n {
        let t = if gap > 0 { k as i64 * gap as i64 } else { any_i64() };
        assume(t > if k > 0 { pts[k as usize - 1].0 } else { -1 });
        pts.push((t, if c == 0 && n <= 4 || c == 0 && k == n / 2 { any(32) } else { k * 3 }));
    }
    // before the first write, after each of them, after the file is closed, never
    let when = if n <= 4 { choose(n + 3) } else { [0, n / 2, n + 1][choose(3) as usize] };
    // the strings of the schema live as long as schema and writer
    let (cd, cn) = (CString::new(dev).unwrap(), CString::new(name).unwrap());
    let file = Cs::new(A);
    let s = capi::schema_simple(cd.as_ptr(), cn.as_ptr(), d, e, c);
    if s.is_null() {
        fail("no schema");
    }
    let mut w = capi::file_writer_new(file.p(), s);
    drop(file);
    if w.is_null() {
        fail("no writer");
    }
    // the strings of the writes, other memory than the strings of the schema, live as long as the writer
    let mut keep = vec![];
    for (k, (t, v)) in pts.iter().enumerate() {
        if when == k as u64 {
            capi::schema_free(s);
            reach("schema freed early");
        }
        let (d1, n1) = (Cs::new(dev), Cs::new(name));
        w = capi::file_writer_write_int32(w, d1.p(), n1.p(), *t, *v as u32 as i32);
        keep.push((d1, n1));
        if w.is_null() {
            fail("no writer");
        }
    }
    if when == n {
        capi::schema_free(s);
        reach("schema freed early");
    }
    capi::file_writer_close(w);
    if when == n + 1 {
        capi::schema_free(s);
        reach("schema freed late");
    }
    rust(B, dev, name, (d, e, c), &pts);
    bytes_eq(fs::bytes(A), fs::bytes(B), "the C interface writes another file than the Rust interface");
    if n > 0 {
        let spec = [sp(dev, name, d, e, c)];
        let mut m = Model::new(&spec);
        for (t, v) in pts.iter() {
            m.accept(0, *t, *v);
        }
        verify(fs::bytes(A), &m, 1);
    }
    for x in fs::bytes(A).iter().take(120) {
        observe(*x as u64);
    }
    reach(if d == I32 { "INT32" } else { "other type" });
}
/// params: n.  One schema, two writers, their writes interleaved in any way; null pointers given to the functions
/// that accept them
fn two_writers() {
    let n = param(0);
    let (dev, name) = NAMES[0];
    let (cd, cn) = (CString::new(dev).unwrap(), CString::new(name).unwrap());
    let s = capi::schema_simple(cd.as_ptr(), cn.as_ptr(), I32, 4, 0);
    let fa = Cs::new(A);
    let fb = Cs::new(B);
    let mut w = [capi::file_writer_new(fa.p(), s), capi::file_writer_new(fb.p(), s)];
    let free = choose(2);
    if free == 0 {
        capi::schema_free(s);
    }
    let mut pts: [Vec<(i64, u64)>; 2] = [vec![], vec![]];
    for k in 0..n {
        let i = choose(2) as usize;
        let v = any(32);
        w[i] = capi::file_writer_write_int32(w[i], cd.as_ptr(), cn.as_ptr(), k as i64, v as u32 as i32);
        pts[i].push((k as i64, v));
    }
    let first = choose(2) as usize;
    capi::file_writer_close(w[first]);
    capi::file_writer_close(std::ptr::null_mut());
    capi::schema_free(std::ptr::null_mut());
    capi::file_writer_close(w[1 - first]);
    if free == 1 {
        capi::schema_free(s);
    }
    for (i, p) in [A, B].into_iter().enumerate() {
        rust(C, dev, name, (I32, 4, 0), &pts[i]);
        bytes_eq(fs::bytes(p), fs::bytes(C), "two writers of a schema write other files than one each");
    }
    reach("two writers");
}

entries! {
    h_c_same => same_file,
    h_c_two => two_writers,
}
