//! Files of any size: a writer whose file already has an arbitrary length.
use crate::base::*;
use crate::fs;
use crate::model::*;
use crate::reader::*;
use crate::rt::*;
use tsfile_writer::writer::verif as v;

const FAR: [Spec; 9] = [
    MIX[0],
    MIX[1],
    MIX[2],
    MIX[3],
    sp("root.sg.d3", "s1", I32, 0, 0),
    sp("root.sg.d3", "s2", I64, 0, 0),
    sp("root.sg.d3", "s3", I64, 4, 1),
    sp("root.sg.d4", "s1", I32, 4, 0),
    sp("root.sg.d5", "s1", F32, 0, 1),
];
/// C02.  params: n, series, degree of the index.  The same history at the start of a file and at an arbitrary position
/// of it: the same bytes, but for the offsets, which are larger by that position.
fn far() {
    let (n, ns) = (param(0), param(1));
    let at = any(62);
    let degree = param(2) as usize;
    let mut w = create_with(A, &FAR, v::config(degree));
    let mut x = match v::writer_at(B, schema(&FAR), v::config(degree), at) {
        Ok(x) => x,
        Err(_) => fail("the file cannot be created"),
    };
    for k in 0..n {
        let s = &FAR[(k % ns) as usize];
        // symbolic where no compression looks at it
        let val = if s.comp == 0 && s.enc == 0 && k < 4 { any_value(s.dtype) } else { nth(s.dtype, k) };
        if !raw(&mut w, s, 5 + k as i64, val) {
            fail("a legal write is refused");
        }
        check(x.write(s.dev, s.name, 5 + k as i64, value(s.dtype, val)).is_ok(), "a legal write is refused far behind the start");
    }
    finish(w);
    check(x.close().is_ok(), "close fails far behind the start");
    let (b, c) = (fs::bytes(A), fs::bytes(B));
    unsafe { OFFSETS.clear() };
    let t = get(tail(b), "footer");
    let wk = get(walk(b, &t), "index");
    let sc = get(scan(b), "sequential scan");
    if wk.depth > 2 {
        reach("deep index");
    }
    if sc.chunks.len() > wk.series.len() {
        reach("several chunks of a series");
    }
    check(b.len() == c.len(), "length of the file depends on its start");
    let mut is = vec![false; b.len()];
    unsafe {
        for p in OFFSETS.iter() {
            let p = *p - b.as_ptr() as usize;
            if p < b.len() {
                is[p] = true;
            }
        }
    }
    let mut i = 0;
    while i < b.len() {
        if is[i] {
            let (p, q) = (get(Cur::new(b, i).be(8), "offset"), get(Cur::new(c, i).be(8), "offset"));
            check(q == p.wrapping_add(at), "an offset far behind the start");
            reach("offset");
            i += 8;
        } else {
            check(b[i] == c[i], "a byte depends on the position in the file");
            i += 1;
        }
    }
}
entries! {
    h_far => far,
}
