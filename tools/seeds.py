#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions below and confirms each in a scratch copy of /repo:
seeds.py [id...]   (patch applies, builds, stable tests pass, demo 0 without and nonzero with the patch)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
W = "tsfile-writer/src/writer/"
PRE = open(HERE + "/pre.rs").read()
S = {}


def seed(id, prop, needs, breaks, edits, main, check="", demo=None, files=None):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, check=check, demo=demo, files=files or {})


def schema(*series):
    """rust for a schema of (device, measurement, type, encoding, compression)"""
    out = "let mut b = TsFileSchemaBuilder::new();\n"
    for d in dict.fromkeys(s[0] for s in series):
        out += '    { let mut g = DeviceBuilder::new();\n'
        for s in series:
            if s[0] == d:
                out += '      g.add("%s", TSDataType::%s, %s, %s);\n' % s[1:]
        out += '      b.add("%s", g.build()); }\n' % d
    return out + "    let schema = b.build();\n"


def prog(schema, body):
    return PRE + "fn main() {\n    %s    let mut w = TsFileWriter::new(\"out/a.tsfile\", schema, Default::default()).unwrap();\n%s\n    w.close();\n}\n" % (schema, body)


ONE = lambda t, e, c="UNCOMPRESSED": schema(("root.sg.d1", "s1", t, e, c))  # noqa: E731

seed("ts2diff-last-delta", "C09", "a full block of 128 differences whose last difference is wider than all others",
     "TS2DIFF derives the bit width without the last difference of a full block and cuts that difference off",
     [(W + "encoding/time_encoder.rs", "for i in 0..delta_block_buffer.len() {", "for i in 0..min(delta_block_buffer.len(), 127) {"),
      (W + "encoding/time_encoder.rs", "use std::cmp::max;", "use std::cmp::{max, min};")],
     prog(ONE("INT64", "TS2DIFF"), "    for i in 0..129i64 { w.write(\"root.sg.d1\", \"s1\", i, LONG(if i == 128 { 5_000_000 } else { i * 3 })).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(i,5000000 if i==128 else 3*i) for i in range(129)]\n")
seed("stat-nan-max", "C03", "a NaN among the FLOAT values of a series",
     "a NaN becomes the maximum in the statistics",
     [(W + "statistics.rs", "if value > self.max_value {", "if !(value <= self.max_value) {")],
     prog(ONE("FLOAT", "PLAIN"), "    for (i, v) in [1.0f32, 3.0, f32::NAN].into_iter().enumerate() { w.write(\"root.sg.d1\", \"s1\", i as i64, FLOAT(v)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.find('root.sg.d1','s1')['stats']['max']==3.0\n")
seed("count-of-16-bits", "C03", "a page of more than 65535 points, which takes values and times that TS2DIFF packs well",
     "the number of points in the statistics is cut to 16 bits when it is written",
     [(W + "statistics.rs", "write_var_u32(self.count as u32, file)?;", "write_var_u32(self.count as u16 as u32, file)?;")],
     prog(ONE("INT32", "TS2DIFF"), "    for i in 0..100_000i64 { w.write(\"root.sg.d1\", \"s1\", i, INT(7)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.find('root.sg.d1','s1')['stats']['count']==100000\n")
seed("pages-counted-in-a-byte", "C02", "a chunk of 256 or 257 pages (or another multiple of 256, and one more)",
     "the number of pages of a chunk is cut to 8 bits where the marker of its header is chosen",
     [(W + "chunk_writer.rs", "            self.num_pages,\n            0,", "            self.num_pages as u8 as u32,\n            0,")],
     prog(ONE("INT32", "PLAIN"), "    for i in 0..2300681i64 { w.write(\"root.sg.d1\", \"s1\", i, INT(i as i32)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert len(f.series[('root.sg.d1','s1')])==2300681\n")
seed("order-by-difference", "C04", "timestamps further apart than 2^63: a very negative one after a positive one",
     "the order check compares a wrapped difference, so a timestamp near i64::MIN is accepted after a positive one",
     [(W + "group_writer.rs", "if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {", "if timestamp.wrapping_sub(*self.last_time_map.get(measurement_id).unwrap()) <= 0 {")],
     prog(ONE("INT64", "PLAIN"), "    w.write(\"root.sg.d1\", \"s1\", 5, LONG(1)).unwrap();\n    assert!(w.write(\"root.sg.d1\", \"s1\", i64::MIN, LONG(2)).is_err());"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(5,1)]\n")
seed("refused-type-advances-time", "C05", "a write refused for its type followed by a legal one at the same or an earlier timestamp",
     "a write refused for its type moves the last timestamp of the series",
     [(W + "group_writer.rs", """        if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {
            return Err(TsFileError::OutOfOrderData);
        }""", """        let last = self.last_time_map.get_mut(measurement_id).unwrap();
        if timestamp <= *last {
            return Err(TsFileError::OutOfOrderData);
        }
        *last = timestamp;""")],
     prog(ONE("INT64", "PLAIN"), "    assert!(w.write(\"root.sg.d1\", \"s1\", 5, FLOAT(1.0)).is_err());\n    assert!(w.write(\"root.sg.d1\", \"s1\", 3, LONG(2)).is_ok());"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(3,2)]\n")
seed("index-node-too-large", "C06", "more than 256 devices",
     "index nodes take one entry more than the configured maximum",
     [(W + "mod.rs", "self.children.len() >= config.max_degree_of_index_node", "self.children.len() > config.max_degree_of_index_node")],
     PRE + """fn main() {
    let names: Vec<String> = (0..300).map(|i| format!("root.sg.d{:04}", i)).collect();
    let mut b = TsFileSchemaBuilder::new();
    for n in names.iter() { b.add(n, DeviceBuilder::new().add("s1", TSDataType::INT64, PLAIN, UNCOMPRESSED).build()); }
    let mut w = TsFileWriter::new("out/a.tsfile", b.build(), Default::default()).unwrap();
    for n in names.iter() { w.write(n, "s1", 1, LONG(7)).unwrap(); }
    w.close();
}
""",
     "from tsread import File\nf=File('out/a.tsfile')\nfor i in range(300): assert f.find('root.sg.d%04d'%i,'s1')['stats']['count']==1\n")
seed("murmur-tail-shift", "C07", "a path whose length is 14 or 15 modulo 16",
     "the 14th byte of the tail enters the hash at a wrong position, so the filter misses the path",
     [(W + "murmur128.rs", "k2 ^= (key[offset + 13] as i64) << 40;", "k2 ^= (key[offset + 13] as i64) << 48;")],
     prog(schema(("root.sg.d10", "s1", "INT64", "PLAIN", "UNCOMPRESSED"), ("root.sg.dev", "speed", "INT64", "PLAIN", "UNCOMPRESSED"), ("root.sg.abcdefgh.d7777777", "x1234", "INT64", "PLAIN", "UNCOMPRESSED")),
          "    w.write(\"root.sg.d10\", \"s1\", 1, LONG(1)).unwrap();\n    w.write(\"root.sg.dev\", \"speed\", 1, LONG(1)).unwrap();\n    w.write(\"root.sg.abcdefgh.d7777777\", \"x1234\", 1, LONG(1)).unwrap();"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert len(f.series)==3\nfor d,m in f.series: assert f.in_filter(d+'.'+m), (d,m)\n")
seed("third-page-sizes", "C02", "a SNAPPY chunk of at least three pages",
     "from the third page on the compressed and the uncompressed size change places in the page header",
     [(W + "chunk_writer.rs", """            } else {
                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
                // Compressed size
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);
                // Write page content
                page_writer""", """            } else {
                for size in [compressed_bytes, uncompressed_bytes] {
                    utils::write_var_u32(size, &mut self.page_buffer);
                }
                // Write page content
                page_writer""")],
     prog(ONE("INT64", "PLAIN", "SNAPPY"), "    for i in 0..30000i64 { w.write(\"root.sg.d1\", \"s1\", i, LONG(i * i % 1009)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.chunks[0][3]>=3\nassert f.series[('root.sg.d1','s1')]==[(i,i*i%1009) for i in range(30000)]\n")
seed("last-page-of-one", "C10", "a page that holds a single point when the memory is flushed or the file closed",
     "a page of a single point is not sealed and its point is lost",
     [(W + "chunk_writer.rs", "if pw.point_number > 0 {", "if self.num_pages == 0 || pw.point_number > 1 {")],
     prog(ONE("INT64", "PLAIN"), "    for i in 0..NUM { w.write(\"root.sg.d1\", \"s1\", i, LONG(i * 5)).unwrap(); }".replace("NUM", "8000i64")) + "",
     "")
# the size of a page: found by looking for the first count with a second page of one point
S["last-page-of-one"]["main"] = PRE + """fn main() {
    for n in 7980..8250i64 {
        """ + ONE("INT64", "PLAIN") + """
        let name: &'static str = Box::leak(format!("out/{}.tsfile", n).into_boxed_str());
        let mut w = TsFileWriter::new(name, schema, Default::default()).unwrap();
        for i in 0..n { w.write("root.sg.d1", "s1", i, LONG(i * 5)).unwrap(); }
        w.close();
    }
}
"""
S["last-page-of-one"]["check"] = "from tsread import File\nfor n in range(7980,8250):\n    f=File('out/%d.tsfile'%n)\n    assert f.series[('root.sg.d1','s1')]==[(i,5*i) for i in range(n)], n\n"
seed("measurements-in-hash-order", "C11", "two measurements of a device and two runs with different hash seeds",
     "the chunks of a device are written in the order of a hash map, which differs from run to run",
     [(W + "group_writer.rs", "pub(crate) chunk_writers: BTreeMap<&'a str, ChunkWriter>,", "pub(crate) chunk_writers: HashMap<&'a str, ChunkWriter>,"),
      (W + "group_writer.rs", "use std::collections::BTreeMap;", "use std::collections::{BTreeMap, HashMap};")],
     PRE + "fn main() {\n    for k in 0..6 {\n        let name: &'static str = Box::leak(format!(\"out/{}.tsfile\", k).into_boxed_str());\n        "
     + schema(*[("root.sg.d1", "s%d" % i, "INT64", "PLAIN", "UNCOMPRESSED") for i in range(6)])
     + "        let mut w = TsFileWriter::new(name, schema, Default::default()).unwrap();\n        for s in [\"s0\", \"s1\", \"s2\", \"s3\", \"s4\", \"s5\"] { w.write(\"root.sg.d1\", s, 1, LONG(4)).unwrap(); }\n        w.close();\n    }\n}\n",
     "assert len(set(open('out/%d.tsfile'%k,'rb').read() for k in range(6)))==1\n")
SHIM = """#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
/* a file of this process accepts only part of every write */
ssize_t write(int fd, const void *p, size_t n) {
    if (fd > 2 && n > 1) n = (n + 1) / 2;
    return syscall(SYS_write, fd, p, n);
}
"""
DEMO = "./target/release/demo || exit 1"
PRELOADED = (DEMO, "gcc -shared -fPIC -o shim.so \"$here/shim.c\" || exit 9\nLD_PRELOAD=./shim.so ./target/release/demo || exit 1")
seed("short-write-of-name", "C12", "a write call of which the operating system accepts only a part, while a name is written",
     "a name is written with write() instead of write_all(), a short write loses bytes of it",
     [(W + "mod.rs", "    file.write_all(bytes)?; // measurement id", "    file.write(bytes)?; // measurement id")],
     prog(ONE("INT64", "PLAIN"), "    for i in 0..10 { w.write(\"root.sg.d1\", \"s1\", i, LONG(i)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nm=f.find('root.sg.d1','s1')\nassert m['stats']['count']==10 and m['chunks'][0][0]==f.chunks[0][2]\n",
     demo=PRELOADED, files={"shim.c": SHIM})
seed("log-path-characters", "C13", "a path with characters of more than one byte",
     "the length of a path in a plan counts characters instead of bytes",
     [("tsfile-writer/src/sync/mlog.rs", """        // putString(buffer, path.getFullPath());
        let bytes = path.as_bytes();
        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;""", """        // putString(buffer, path.getFullPath());
        let bytes = path.as_bytes();
        writer.write_all(&(path.chars().count() as i32).to_be_bytes())?;""")],
     """#![allow(dead_code, unused)]
mod writer { pub use tsfile_writer::writer::{compression, encoding, errors, TSDataType}; }
mod mlog;
fn main() {
    for p in ["root.sg", "root.s\\u{e4}ge"] {
        let mut l = mlog::MLog::new();
        let mut b = vec![];
        l.set_storage_group_plan(p).unwrap();
        l.flush(&mut b).unwrap();
        let body = &b[4..b.len() - 8];
        assert_eq!(i32::from_be_bytes(body[1..5].try_into().unwrap()) as usize, p.len());
        assert_eq!(&body[5..5 + p.len()], p.as_bytes());
    }
}
""",
     demo=("cargo build", "sed '/^#\\[cfg(test)\\]/,$d' \"$repo/tsfile-writer/src/sync/mlog.rs\" > src/mlog.rs\nsed -i 's/^\\[dependencies\\]/[dependencies]\\ncrc32fast = \"1.3.2\"/' Cargo.toml\ncargo build"))
seed("type-code-four", "C15", "the code 4 (a DOUBLE in TsFiles) given as data type",
     "the code of the unsupported DOUBLE is taken for FLOAT and comes back as 3",
     [(W + "mod.rs", "            3 => Ok(TSDataType::FLOAT),", "            3 | 4 => Ok(TSDataType::FLOAT),")],
     PRE + "fn main() {\n    for b in 0..=255u8 { if let Ok(t) = TSDataType::try_from(b) { assert_eq!(t.serialize(), b); } }\n}\n")
seed("batch-deduplicated", "C18", "a batch that names a measurement twice",
     "a batch is gathered by measurement first, so the second value of a measurement replaces the first instead of being refused",
     [(W + "group_writer.rs", "        for dp in values {", "        let values: BTreeMap<&'a str, DataPoint<'a>> =\n            values.into_iter().map(|dp| (dp.measurement_id, dp)).collect();\n        for (_, dp) in values {")],
     prog(ONE("INT64", "PLAIN"), "    assert!(w.write_many(\"root.sg.d1\", 5, vec![DataPoint::new(\"s1\", LONG(1)), DataPoint::new(\"s1\", LONG(2))]).is_err());"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(5,1)]\n")
seed("negative-zero", "C01", "a FLOAT value of -0.0",
     "negative zero is stored as positive zero",
     [(W + "encoding/plain.rs", """            IoTDBValue::FLOAT(v) => {
                self.buffer.write_all(&v.to_be_bytes())?;""", """            IoTDBValue::FLOAT(v) => {
                // one representation of zero
                let v = if *v == 0.0 { 0.0 } else { *v };
                self.buffer.write_all(&v.to_be_bytes())?;""")],
     prog(ONE("FLOAT", "PLAIN"), "    w.write(\"root.sg.d1\", \"s1\", 5, FLOAT(-0.0)).unwrap();"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(5,b'\\x80\\0\\0\\0')]\n")
seed("varint-size-at-128", "C08", "a page buffer of exactly 128 bytes (or 128 * 128, ...)",
     "the predicted size of 128 is one byte, so the size check of the flush fails and the file loses its data",
     [(W + "utils.rs", "    let mut value = num;\n    while (value & 0xFFFFFF80) != 0 {", "    let mut value = num;\n    while value > 0x80 {")],
     PRE + """fn main() {
    for n in 1..200i64 {
        """ + ONE("INT32", "PLAIN") + """
        let name: &'static str = Box::leak(format!("out/{}.tsfile", n).into_boxed_str());
        let mut w = TsFileWriter::new(name, schema, Default::default()).unwrap();
        for i in 0..n { w.write("root.sg.d1", "s1", i, INT(1)).unwrap(); }
        w.close();
    }
}
""",
     "from tsread import File\nfor n in range(1,200):\n    f=File('out/%d.tsfile'%n)\n    assert f.series[('root.sg.d1','s1')]==[(i,1) for i in range(n)], n\n    assert f.find('root.sg.d1','s1'), n\n")

seed("position-by-request", "C12", "a write call of which the operating system accepts only a part",
     "the position counts the bytes given to a write call, not the ones accepted, so all later offsets are wrong",
     [(W + "mod.rs", "self.position += size as u64;", "self.position += buf.len() as u64;")],
     prog(ONE("INT64", "PLAIN"), "    for i in 0..10 { w.write(\"root.sg.d1\", \"s1\", i, LONG(i)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nm=f.find('root.sg.d1','s1')\nassert m['stats']['count']==10 and m['chunks'][0][0]==f.chunks[0][2]\n",
     demo=PRELOADED, files={"shim.c": SHIM})
seed("old-file-not-truncated", "C12", "a longer file already exists under the name",
     "an existing file is overwritten from its start but not truncated",
     [(W + "tsfile_writer.rs", "WriteWrapper::new(File::create(filename)?)", "WriteWrapper::new(File::options().write(true).create(true).open(filename)?)")],
     PRE + "fn main() {\n    std::fs::write(\"out/a.tsfile\", vec![7u8; 5000]).unwrap();\n    " + ONE("INT64", "PLAIN")
     + "    let mut w = TsFileWriter::new(\"out/a.tsfile\", schema, Default::default()).unwrap();\n    w.write(\"root.sg.d1\", \"s1\", 5, LONG(1)).unwrap();\n    w.close();\n}\n",
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(5,1)]\n")
seed("third-page-statistics", "C03", "a chunk of at least three pages",
     "the statistics of the third and later pages do not enter those of the chunk",
     [(W + "chunk_writer.rs", "            self.statistics.merge(&page_writer.statistics);", "            if self.num_pages <= 2 {\n                self.statistics.merge(&page_writer.statistics);\n            }")],
     prog(ONE("INT64", "PLAIN"), "    for i in 0..30000i64 { w.write(\"root.sg.d1\", \"s1\", i, LONG(i)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.chunks[0][3]>=3\nst=f.find('root.sg.d1','s1')['stats']\nassert st['count']==30000 and st['max']==29999, st\n")
seed("width-sign-extended", "C09", "INT32 differences that are at least 2^31 apart",
     "the bit width is taken of the sign extended 64 bit number, so distances from 2^31 on are written with 64 bits",
     [(W + "encoding/time_encoder.rs", "                $num_bits - v.leading_zeros()", "                i64::BITS - (v as i64).leading_zeros()")],
     prog(ONE("INT32", "TS2DIFF"), "    for (i, v) in [0i32, 2_000_000_000, 0, 1].into_iter().enumerate() { w.write(\"root.sg.d1\", \"s1\", i as i64, INT(v)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==list(enumerate([0,2000000000,0,1]))\n")
seed("incompressible-page-raw", "C01", "a SNAPPY page whose data cannot be compressed",
     "a page that does not get smaller by the compression is stored as it is, though its chunk is marked as compressed",
     [(W + "chunk_writer.rs", """                            let mut reader = &out.as_mut_slice()[..size];
                            io::copy(&mut reader, &mut compressed_buffer);
                            size as u32""", """                            // no use of data that does not get smaller
                            let mut reader = if size > 1000 && size >= page_writer.buffer.len() {
                                &page_writer.buffer[..]
                            } else {
                                &out.as_mut_slice()[..size]
                            };
                            io::copy(&mut reader, &mut compressed_buffer);
                            compressed_buffer.len() as u32""")],
     prog(ONE("INT64", "PLAIN", "SNAPPY"), "    let mut x = 1u64;\n    for i in 0..2000i64 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; w.write(\"root.sg.d1\", \"s1\", (i << 40) + (x >> 24) as i64, LONG(x as i64)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nx=1\nM=(1<<64)-1\nv=[]\nfor i in range(2000):\n    x^=x<<13&M\n    x^=x>>7\n    x^=x<<17&M\n    v.append(((i<<40)+(x>>24),x-(1<<64) if x>>63 else x))\nassert f.series[('root.sg.d1','s1')]==v\n")
seed("hash-of-characters", "C07", "a path with characters of more than one byte",
     "the bloom filter hashes the characters cut to a byte, not the bytes of the path",
     [(W + "murmur128.rs", """        return Self::inner_hash(
            value.as_bytes(),
            0,
            value.as_bytes().len() as i32,
            seed as i64,
        ) as i32;""", """        let key: Vec<u8> = value.chars().map(|c| c as u8).collect();
        return Self::inner_hash(&key, 0, key.len() as i32, seed as i64) as i32;""")],
     prog(schema(("root.sg.s\u00e4ge", "s1", "INT64", "PLAIN", "UNCOMPRESSED"), ("root.sg.d2", "\u00fcber", "INT64", "PLAIN", "UNCOMPRESSED")),
          "    w.write(\"root.sg.s\u00e4ge\", \"s1\", 1, LONG(1)).unwrap();\n    w.write(\"root.sg.d2\", \"\u00fcber\", 1, LONG(1)).unwrap();"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert len(f.series)==2\nfor d,m in f.series: assert f.in_filter(d+'.'+m), (d,m)\n")
seed("varint-sign", "C08", "numbers of at least 2^31",
     "the loop that writes a varint compares as a signed number, so numbers from 2^31 on come out as a single byte",
     [(W + "utils.rs", "    while (number & 0xFFFFFF80) != 0 {", "    while (number as i32) > 0x7F {")],
     """#![allow(dead_code, unused)]
use tsfile_writer::writer::{errors::TsFileError, PositionedWrite, WriteWrapper};
mod writer { pub use tsfile_writer::writer::{PositionedWrite, errors::TsFileError}; }
mod utils;
fn main() {
    for n in [0u32, 127, 128, 1 << 14, (1 << 31) - 1, 1 << 31, u32::MAX] {
        let mut b: Vec<u8> = vec![];
        assert_eq!(utils::write_var_u32(n, &mut b).unwrap() as usize, b.len());
        assert_eq!(utils::size_var_u32(n) as usize, b.len());
        assert_eq!(utils::read_var_u32(&mut &b[..]).unwrap(), n);
    }
}
""",
     demo=("cargo build", "sed '/^#\\[cfg(test)\\]/,$d; s/crate::writer::{PositionedWrite, TsFileError}/tsfile_writer::writer::{PositionedWrite, errors::TsFileError}/' \"$repo/tsfile-writer/src/writer/utils.rs\" > src/utils.rs\ncargo build"))
C = """#![allow(unused)]
mod c;
use std::ffi::CString;
fn main() {
    let (d, m, f) = (CString::new("root.sg.d1").unwrap(), CString::new("s1").unwrap(), CString::new("out/a.tsfile").unwrap());
    %s
}
"""
CDEMO = ("cargo build", "cp \"$repo/tsfile-writer-c/src/lib.rs\" src/c.rs\nprintf 'libc = \"0.2.126\"\\nlog = \"0.4.17\"\\n' >> Cargo.toml\ncargo build")
seed("c-schema-given-away", "C14", "a schema that is freed after a writer was made of it, or used for two writers",
     "file_writer_new consumes the schema, so freeing it as the interface asks for frees it twice",
     [("tsfile-writer-c/src/lib.rs", "            *schema.clone(),", "            *schema,"),
      ("tsfile-writer-c/src/lib.rs", "    // Important, forget about the pointer to not clean up schema here\n    Box::leak(schema);\n\n", "")],
     C % """let s = c::schema_simple(d.as_ptr(), m.as_ptr(), 1, 0, 0);
    let mut w = c::file_writer_new(f.as_ptr(), s);
    // the memory of the schema must still be the schema's
    let before: Vec<*mut u64> = (0..64).map(|_| Box::into_raw(Box::new([0xaaaa_aaaa_aaaa_aaaau64; 16])) as *mut u64).collect();
    let f2 = CString::new("out/b.tsfile").unwrap();
    let mut w2 = c::file_writer_new(f2.as_ptr(), s);
    for i in 0..10 {
        w = c::file_writer_write_int32(w, d.as_ptr(), m.as_ptr(), i, i as i32);
        w2 = c::file_writer_write_int32(w2, d.as_ptr(), m.as_ptr(), i, i as i32);
    }
    c::file_writer_close(w);
    c::file_writer_close(w2);
    c::schema_free(s);""",
     "from tsread import File\nfor n in 'ab':\n    f=File('out/%s.tsfile'%n)\n    assert f.series[('root.sg.d1','s1')]==[(i,i) for i in range(10)]\n",
     demo=CDEMO)
seed("c-timestamp-32-bits", "C14", "a timestamp of more than 32 bits given to the C function",
     "the C function cuts timestamps to 32 bits",
     [("tsfile-writer-c/src/lib.rs", "            timestamp,\n            IoTDBValue::INT(number),", "            timestamp as u32 as i64,\n            IoTDBValue::INT(number),")],
     C % """let s = c::schema_simple(d.as_ptr(), m.as_ptr(), 1, 0, 0);
    let mut w = c::file_writer_new(f.as_ptr(), s);
    w = c::file_writer_write_int32(w, d.as_ptr(), m.as_ptr(), 1668800000000, 5);
    c::file_writer_close(w);
    c::schema_free(s);""",
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(1668800000000,5)]\n",
     demo=CDEMO)
SYNC = """use std::io::{Read, Write};
use std::net::TcpListener;
use tsfile_writer::sync::sync_sender::SyncSender;
fn handshake(answer: &'static [u8]) -> bool {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap().to_string();
    let t = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut n = [0u8; 4];
        s.read_exact(&mut n).unwrap();
        let mut b = vec![0u8; u32::from_be_bytes(n) as usize];
        s.read_exact(&mut b).unwrap();
        // version or length of the name, the name, the number of the call
        let v = i32::from_be_bytes(b[0..4].try_into().unwrap());
        let (at, k) = if v < 0 { (8, i32::from_be_bytes(b[4..8].try_into().unwrap())) } else { (5, v) };
        let seq = at + k as usize;
        let mut r = vec![];
        r.extend_from_slice(&5u32.to_be_bytes());
        r.extend_from_slice(b"check");
        r.push(2);
        r.extend_from_slice(&b[seq..seq + 4]);
        r.extend_from_slice(answer);
        s.write_all(&(r.len() as u32).to_be_bytes()).unwrap();
        s.write_all(&r).unwrap();
    });
    let ok = SyncSender::new(&a, Some("127.0.0.1"), Some("u")).is_ok();
    t.join().unwrap();
    ok
}
fn main() {
    // result: field 0, a struct {1: i32 code, 2: string msg}
    assert!(handshake(b"\\x0c\\0\\0\\x08\\0\\x01\\0\\0\\0\\x01\\x0b\\0\\x02\\0\\0\\0\\x02ok\\0\\0"));
%s}
"""
SDEMO = ("cargo build", "sed -i 's/tsfile-writer\" }/tsfile-writer\", features = [\"sync_sender\"] }/' Cargo.toml\ncargo build")
seed("handshake-without-code", "C16", "an answer of the server whose status has no code",
     "a status without its required code counts as success",
     [("tsfile-writer/src/sync/sync.rs", """    verify_required_field_exists("SyncStatus.code", &f_1)?;
""", ""),
      ("tsfile-writer/src/sync/sync.rs", """      code: f_1.expect("auto-generated code should have checked for presence of required fields"),
      msg: f_2""", """      code: f_1.unwrap_or_default(),
      msg: f_2""")],
     SYNC % "    assert!(!handshake(b\"\\x0c\\0\\0\\x0b\\0\\x02\\0\\0\\0\\x02no\\0\\0\"));\n", demo=SDEMO)
seed("handshake-wrong-address", "C16", "a local address given by the caller",
     "the server is told the uuid as the address of the client",
     [("tsfile-writer/src/sync/sync_sender.rs", "            self.local_addr.clone(),", "            self.uuid.clone(),")],
     SYNC.replace("        // version or length", "        assert!(b.windows(9).any(|w| w == b\"127.0.0.1\"));\n        // version or length") % "", demo=SDEMO)


IDENTITY = SYNC[:SYNC.index("    // result: field 0")].replace("-> bool", "-> Option<Vec<u8>>").replace("        s.write_all(&r).unwrap();\n", "        s.write_all(&r).unwrap();\n        b\n").replace("Some(\"u\")", "None").replace("    t.join().unwrap();\n    ok", "    if !ok { let _ = std::net::TcpStream::connect(&a); return None; }\n    Some(t.join().unwrap())") + """    let ok: &[u8] = b"\\x0c\\0\\0\\x08\\0\\x01\\0\\0\\0\\x01\\x0b\\0\\x02\\0\\0\\0\\x02ok\\0\\0";
    std::fs::create_dir_all("out").unwrap();
    std::env::set_current_dir("out").unwrap();
    let has = |b: &Vec<u8>, id: &[u8]| {
        let mut k = (id.len() as u32).to_be_bytes().to_vec();
        k.extend_from_slice(id);
        b.windows(k.len()).any(|w| w == &k[..])
    };
%s}
"""
SENDER = "tsfile-writer/src/sync/sync_sender.rs"
seed("identity-stored-with-hyphens", "C21", "a second connection of the same sender",
     "the new identity is stored with hyphens but sent without, so it changes with the second connection",
     [(SENDER, "let uuid = uuid::Uuid::new_v4().to_string().replace('-', \"\");", "let uuid = uuid::Uuid::new_v4();"),
      (SENDER, "fs::write(\"uuid.lock\", &uuid)", "fs::write(\"uuid.lock\", uuid.to_string())"),
      (SENDER, "                Ok(uuid)\n", "                Ok(uuid.to_string().replace('-', \"\"))\n")],
     IDENTITY % "    let a = handshake(ok).unwrap();\n    let id = std::fs::read(\"uuid.lock\").unwrap();\n    assert!(has(&a, &id));\n    assert!(has(&handshake(ok).unwrap(), &id));\n", demo=SDEMO)
seed("identity-not-stored", "C21", "a uuid.lock that cannot be written",
     "a sender whose identity cannot be stored goes on with it",
     [(SENDER, "                        return Err(SyncSenderError::UnableGenerateUuid);\n", "                        println!(\"UUID not saved\")\n")],
     IDENTITY % "    std::fs::create_dir(\"uuid.lock\").unwrap();\n    assert!(handshake(ok).is_none());\n", demo=SDEMO)
seed("identity-of-the-first-line", "C21", "a uuid.lock of several lines",
     "only the first line of uuid.lock is the identity",
     [(SENDER, "                Ok(content)\n", "                Ok(content.lines().next().unwrap_or_default().to_string())\n")],
     IDENTITY % "    std::fs::write(\"uuid.lock\", \"abc\\ndef\").unwrap();\n    assert!(has(&handshake(ok).unwrap(), b\"abc\\ndef\"));\n", demo=SDEMO)

seed("offset-of-32-bits", "C02", "a file of more than 4 GB",
     "the offset of a chunk is cut to 32 bits",
     [(W + "chunk_writer.rs", "            offset_of_chunk_header: position as i64,", "            offset_of_chunk_header: position as u32 as i64,")],
     PRE + """// the end of a file of more than 4 GB, written to a pipe that drops the rest
use std::io::Read;
fn main() {
    std::fs::create_dir_all("out").unwrap();
    assert!(std::process::Command::new("mkfifo").arg("out/a.tsfile").status().unwrap().success());
    let t = std::thread::spawn(|| {
        let mut f = std::fs::File::open("out/a.tsfile").unwrap();
        let (mut end, mut n, mut b) = (vec![], 0usize, vec![0u8; 1 << 20]);
        loop {
            let k = f.read(&mut b).unwrap();
            if k == 0 { return (end, n); }
            n += k;
            end.extend_from_slice(&b[..k]);
            if end.len() > 1 << 22 { let d = end.len() - (1 << 20); end.drain(..d); }
        }
    });
    %s    let mut w = TsFileWriter::new("out/a.tsfile", schema, Default::default()).unwrap();
    for i in 0..560_000_000i64 { w.write("root.sg.d1", "s1", i, LONG(i)).unwrap(); }
    let _ = w.close();
    drop(w);
    let (end, n) = t.join().unwrap();
    assert!(n > 1 << 32);
    let at = |p: usize, k: usize| end[p..p + k].iter().fold(0usize, |a, x| a << 8 | *x as usize);
    let var = |p: &mut usize| { let (mut v, mut s) = (0usize, 0); loop { let b = end[*p] as usize; *p += 1; v |= (b & 127) << s; s += 7; if b < 128 { return v; } } };
    // the series metadata precedes the index node of the device
    let mut p = 0;
    let name = b"\\x04s1\\x02";
    let mut lists = 0;
    while p + 4 < end.len() {
        if &end[p..p + 4] != name || end[p - 1] != 1 { p += 1; continue; }
        p += 4;
        let len = var(&mut p);
        var(&mut p);
        p += 56;
        let (stop, mut last) = (p + len, 0);
        if stop > end.len() { continue; }
        while p < stop {
            let o = at(p, 8);
            assert!(o > last && o < n, "offset {} after {}", o, last);
            last = o;
            p += 8;
            var(&mut p);
            p += 56;
        }
        assert!(last > 1 << 32, "the last chunk starts at {}", last);
        lists += 1;
    }
    assert!(lists == 1);
}
""" % ONE("INT64", "PLAIN"))

seed("open-again-after-flush", "C22", "a close that finds data to flush, and another call after it",
     "resetting the writer after a flush opens it again, also if the flush is that of close",
     [(W + "tsfile_writer.rs", "        self.record_count = 0;\n        // Reset Group Writers\n", "        self.record_count = 0;\n        self.closed = false;\n        // Reset Group Writers\n")],
     prog(ONE("INT64", "PLAIN"), "    w.write(\"root.sg.d1\", \"s1\", 1, LONG(1)).unwrap();\n    w.close().unwrap();\n    assert!(w.write(\"root.sg.d1\", \"s1\", 2, LONG(1)).is_err());"))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

SMALLDEMO = ("cargo build", "RUSTFLAGS='--cfg tsfile_verif_small' cargo build")
seed("written-under-another-name", "C17", "a crash before the file is closed",
     "the file is written under another name and gets its own when it is closed, so nothing is left of flushed chunks after a crash",
     [(W + "tsfile_writer.rs", "        self.file_io_writer.end_file()\n    }", "        self.file_io_writer.end_file()?;\n        if !self.filename.is_empty() {\n            // publish the complete file only\n            std::fs::rename(format!(\"{}.part\", self.filename), &self.filename)?;\n        }\n        Ok(())\n    }"),
      (W + "tsfile_writer.rs", "        let file = WriteWrapper::new(File::create(filename)?);\n\n        TsFileWriter::new_from_writer(schema, file, config)\n", "        let file = WriteWrapper::new(File::create(format!(\"{}.part\", filename))?);\n\n        let mut writer = TsFileWriter::new_from_writer(schema, file, config)?;\n        writer.filename = filename.to_owned();\n        Ok(writer)\n")],
     prog(ONE("INT64", "PLAIN"), "    for i in 0..200 { w.write(\"root.sg.d1\", \"s1\", i, LONG(i)).unwrap(); }\n    assert!(std::fs::metadata(\"out/a.tsfile\").map(|m| m.len()).unwrap_or(0) > 1500);"),
     demo=SMALLDEMO)
seed("pages-grow", "C20", "more than about 90000 points in a series",
     "the number of points after which a page is looked at grows with every page",
     [(W + "chunk_writer.rs", "                self.write_page_to_buffer();\n                self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;", "                self.write_page_to_buffer();\n                self.value_count_in_one_page_for_next_check += MINIMUM_RECORD_COUNT_FOR_CHECK;")],
     prog(ONE("INT64", "PLAIN"), "    for i in 0..130000 { w.write(\"root.sg.d1\", \"s1\", i, LONG(i * 7)).unwrap(); }"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert max(len(p[1]) for p in f.pagestats)*8 <= 131072\n")
seed("sealed-pages-not-counted", "C20", "so much data that pages are sealed before memory is checked",
     "pages already sealed do not count as memory in use, so nothing is flushed until the file is closed",
     [(W + "chunk_writer.rs", "                let size = self.page_buffer.len() as u32 +\n                    pw_mem_size +", "                let size = pw_mem_size +")],
     prog(ONE("INT64", "PLAIN"), "    let mut most = 0;\n    for i in 0..400u64 { w.write(\"root.sg.d1\", \"s1\", i as i64, LONG(7)).unwrap(); most = most.max((8 * i + 8).saturating_sub(std::fs::metadata(\"out/a.tsfile\").unwrap().len())); }\n    assert!(most <= 500, \"{}\", most);"),
     demo=SMALLDEMO)
seed("first-of-two-additions", "C19", "a measurement added twice with different codes",
     "the first addition of a measurement wins instead of the last",
     [("tsfile-writer/src/writer/schema.rs", """        self.measurement_groups_map.insert(
            measurement,
            MeasurementSchema {
                data_type,
                compression,
                encoding,
            },
        );
        self""", """        self.measurement_groups_map
            .entry(measurement)
            .or_insert(MeasurementSchema {
                data_type,
                compression,
                encoding,
            });
        self""")],
     PRE + """fn main() {
    let mut d = DeviceBuilder::new();
    d.add("s1", TSDataType::INT32, PLAIN, UNCOMPRESSED);
    d.add("s1", TSDataType::INT64, PLAIN, UNCOMPRESSED);
    let mut b = TsFileSchemaBuilder::new();
    b.add("root.sg.d1", d.build());
    let mut w = TsFileWriter::new("out/a.tsfile", b.build(), Default::default()).unwrap();
    w.write("root.sg.d1", "s1", 1, LONG(1)).unwrap();
    w.close();
}
""")
seed("schema-builder-emptied", "C19", "a schema builder that builds a second time",
     "building moves the devices out of the builder, so later schemas lack them",
     [("tsfile-writer/src/writer/schema.rs", "        for (s, mg) in self.measurement_groups_map.iter_mut() {\n            measurement_groups.insert(s, mg.clone());", "        for (s, mg) in self.measurement_groups_map.drain() {\n            measurement_groups.insert(s, mg);")],
     PRE + """fn main() {
    let mut b = TsFileSchemaBuilder::new();
    b.add("root.sg.d1", DeviceBuilder::new().add("s1", TSDataType::INT64, PLAIN, UNCOMPRESSED).build());
    for f in ["out/a.tsfile", "out/b.tsfile"] {
        let mut w = TsFileWriter::new(f, b.build(), Default::default()).unwrap();
        w.write("root.sg.d1", "s1", 1, LONG(1)).unwrap();
        w.close();
    }
}
""")
seed("length-of-16-bits", "C13", "a log of more than 32767 bytes",
     "the length of the log is cut to 16 bits",
     [("tsfile-writer/src/sync/mlog.rs", "let length = self.bytes.len() as i32;", "let length = self.bytes.len() as i16 as i32;")],
     """#![allow(dead_code, unused)]
mod writer { pub use tsfile_writer::writer::{compression, encoding, errors, TSDataType}; }
mod mlog;
fn main() {
    let mut l = mlog::MLog::new();
    let mut out = vec![];
    for i in 0..2000 { l.set_storage_group_plan(&format!("root.sg{}", i)).unwrap(); }
    l.flush(&mut out).unwrap();
    assert_eq!(&out[..4], &(out.len() as i32 - 12).to_be_bytes());
}
""", demo=S["log-path-characters"]["demo"])
seed("last-time-forgotten", "C04", "a device without new points between two automatic flushes",
     "the last times are taken out of the map at a flush and put back for devices with data only, so old timestamps are accepted after a second flush",
     [(W + "tsfile_writer.rs", """                    .get(path)
                    .cloned()
                    .unwrap_or_default();""", """                    .remove(path)
                    .unwrap_or_default();"""),
      (W + "tsfile_writer.rs", """                self.non_aligned_timeseries_last_time_map
                    .insert(device_id, group_writer.get_last_time_map());""", """                if data_size > 0 {
                    self.non_aligned_timeseries_last_time_map
                        .insert(device_id, group_writer.get_last_time_map());
                }""")],
     prog(schema(("root.sg.d1", "s1", "INT64", "PLAIN", "UNCOMPRESSED"), ("root.sg.d2", "s1", "INT64", "PLAIN", "UNCOMPRESSED")),
          "    w.write(\"root.sg.d1\", \"s1\", 5, LONG(1)).unwrap();\n    for i in 0..300 { w.write(\"root.sg.d2\", \"s1\", i, LONG(i)).unwrap(); }\n    assert!(w.write(\"root.sg.d1\", \"s1\", 5, LONG(2)).is_err());"),
     demo=SMALLDEMO)
seed("batch-sorted", "C18", "a batch with a refused point that is not the last by name",
     "the points of a batch are sorted by measurement first, so other points are written before the refused one",
     [(W + "group_writer.rs", "        for dp in values {", "        let mut values: Vec<DataPoint<'a>> = values.into_iter().collect();\n        values.sort_by_key(|dp| dp.measurement_id);\n        for dp in values {")],
     prog(schema(("root.sg.d1", "s1", "INT64", "PLAIN", "UNCOMPRESSED"), ("root.sg.d1", "s2", "INT64", "PLAIN", "UNCOMPRESSED")),
          "    assert!(w.write_many(\"root.sg.d1\", 5, vec![DataPoint::new(\"s2\", INT(1)), DataPoint::new(\"s1\", LONG(2))]).is_err());\n    w.write(\"root.sg.d1\", \"s1\", 5, LONG(3)).unwrap();"),
     "from tsread import File\nf=File('out/a.tsfile')\nassert f.series[('root.sg.d1','s1')]==[(5,3)]\n")


def write(id):
    s = S[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git -C /repo worktree list >/dev/null; git clone -q /repo %s/r" % t, "/")
        r = t + "/r"
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            x = open(p).read()
            assert x.count(old) >= 1, (id, f, "not found")
            assert x.count(old) == 1 or old.endswith(";") and len(old) < 40, (id, f, "%d times" % x.count(old))
            open(p, "w").write(x.replace(old, new, 1))
        diff = sh("git diff", r).stdout
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/main.rs", "w").write(s["main"])
    demo = open(HERE + "/demo.sh").read()
    if s["demo"]:
        assert s["demo"][0] in demo
        demo = demo.replace(s["demo"][0], s["demo"][1], 1)
    if not s["check"]:
        demo = demo.replace('cp "$here/tsread.py" "$here/check.py" .\npython3 check.py || exit 1\n', "")
    else:
        open(d + "/check.py", "w").write(s["check"])
        shutil.copy(HERE + "/tsread.py", d)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    for f, c in s["files"].items():
        open(d + "/" + f, "w").write(c)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def confirm(id):
    """in a scratch copy bound over /repo (a mount namespace of its own)"""
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("cp -a /repo %s/r" % t, "/")
        script = """mount --bind %s/r /repo && cd /repo || exit 90
bash %s/demo.sh > %s/clean.log 2>&1 || exit 91
git apply %s/patch.diff || exit 92
. /opt/vp/env.sh
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/test.log 2>&1
python3 /opt/vp/results.py %s/res.json cargo:%s/test.log
python3 - <<P || exit 93
import json
r=json.load(open("%s/res.json")); b=json.load(open("/opt/vp/BASELINE.json"))
m=[x for x in b["stable"] if x not in r["passed"]]
print(m)
assert not m
P
bash %s/demo.sh > %s/bad.log 2>&1 && exit 94
exit 0
""" % (t, OUT + "/" + id, t, OUT + "/" + id, t, t, t, t, OUT + "/" + id, t)
        open(t + "/s.sh", "w").write(script)
        p = sh("unshare -rm bash %s/s.sh" % t, "/")
        if p.returncode:
            print(p.stdout.decode()[-800:])
            for f in ("clean.log", "test.log", "bad.log"):
                if os.path.exists(t + "/" + f):
                    print("---", f, open(t + "/" + f, errors="replace").read()[-700:])
        else:
            print(open(t + "/bad.log", errors="replace").read()[-250:].strip())
        return p.returncode
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    bad = 0
    for i in sys.argv[1:] or S:
        write(i)
        rc = confirm(i)
        print(i, S[i]["prop"], "confirmed" if rc == 0 else "REJECTED %d" % rc, flush=True)
        bad |= rc
    sys.exit(1 if bad else 0)
