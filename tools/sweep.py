#!/usr/bin/env python3
"""Small automatic changes of /repo that its tests do not notice, run against the checks:
sweep.py gen DIR [FILE...]    writes DIR/NNNN.patch for every change that builds and passes the tests
sweep.py run DIR [-j N]       runs the checks in question against each until one notices; DIR/result.txt"""
import concurrent.futures as cf, difflib, os, re, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
W = "tsfile-writer/src/writer/"
FILES = {
    W + "tsfile_writer.rs": "C10 C04 C18 C05 C17 C12 C11",
    W + "group_writer.rs": "C04 C05 C10 C18 C02 C17",
    W + "tsfile_io_writer.rs": "C02 C03 C06 C10 C17 C07 C01 C12",
    W + "chunk_writer.rs": "C02 C10 C03 C05 C01 C04 C17 C12",
    W + "statistics.rs": "C03 C02 C10",
    W + "utils.rs": "C08 C02 C12",
    W + "schema.rs": "C02 C01 C11 C13",
    W + "mod.rs": "C02 C06 C07 C15 C01 C12 C03 C11",
    W + "murmur128.rs": "C07 C11",
    W + "ts_file_config.rs": "C07 C06 C02",
    W + "compression.rs": "C15 C02",
    W + "encoding/mod.rs": "C15 C02 C05 C01 C10",
    W + "encoding/plain.rs": "C01 C05 C10 C02",
    W + "encoding/time_encoder.rs": "C09 C01 C10 C05",
    "tsfile-writer/src/sync/mlog.rs": "C13",
    "tsfile-writer/src/sync/sync_sender.rs": "C16 C13",
    "tsfile-writer-c/src/lib.rs": "C14",
}
SWAP = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " + "),
        (" / ", " * "), ("&&", "||"), ("||", "&&"), ("<<", ">>"), (">>", "<<"), (" & ", " | "), (" | ", " & "), (" ^= ", " |= "), (" += ", " -= "), (" += ", " = "),
        ("true", "false"), ("false", "true"), (".max(", ".min("), (".min(", ".max("), ("max(", "min("), ("to_be_bytes", "to_le_bytes"), ("ts_first", "ts_last"),
        ("ts_last", "ts_first"), ("min_value", "max_value"), ("max_value", "min_value"), ("first_value", "last_value"), ("write_var_u32", "write_var_i32"),
        ("size_var_u32", "size_var_i32"), ("as u64", "as u16 as u64"), ("as u32", "as u8 as u32"), ("as u32", "as u16 as u32"), ("as i64", "as i32 as i64"), ("as usize", "as u8 as usize"), ("as usize", "as u16 as usize"),
        ("as f64", "as f32 as f64"), ("write_all", "write"), ("if !", "if "), ("if ", "if !"), ("wrapping_", "saturating_"), ("unsigned_abs()", "wrapping_abs() as u32"),
        ("Some(", "None.or(Some("), (".is_empty()", ".len() == 1"), ("?;", ";"), ("insert(", "entry("), (".len()", ".len().saturating_sub(1)"), (".len()", ".chars().count()"),
        ("INT32", "INT64"), ("INT64", "INT32"), ("FLOAT", "INT32"), ("i64", "i32"), ("u64", "u32"), ("u32", "u16"), ("u32", "u8"), ("i32", "i16"), ("f64", "f32")]


def body(text):
    """lines that count: no tests, comments, logging, attributes"""
    lines = text.split("\n")
    skip = len(lines)
    for i, l in enumerate(lines):
        if l.startswith("#[cfg(test)]"):
            skip = i
            break
    return lines, [i for i in range(skip) if lines[i].strip() and not re.match(r"\s*(//|#|log::|use |pub use|mod |pub mod|println)", lines[i])]


def changes(f):
    lines, idx = body(open("/repo/" + f).read())
    seen = set()
    for i in idx:
        l = lines[i]
        code = l.split("//")[0]
        new = []
        for a, b in SWAP:
            p = code.find(a)
            while p >= 0:
                new.append(code[:p] + b + code[p + len(a):])
                p = code.find(a, p + len(a))
        for m in re.finditer(r"\b(0x[0-9A-Fa-f]+|\d+)(_?[ui]\d+)?\b", code):
            if m.start() and code[m.start() - 1] in "._" or m.end() < len(code) and code[m.end()] == ".":
                continue
            v = int(m.group(1), 0)
            for w in {v + 1, max(v - 1, 0)} - {v}:
                new.append(code[:m.start()] + str(w) + (m.group(2) or "") + code[m.end():])
        if re.match(r"\s*(self|file|\w+)[.\w\[\]()?*& ]*.*;\s*$", code) and not re.match(r"\s*(let|return|use|pub|const)\b", code):
            new.append(re.match(r"\s*", code).group(0) + ";")
        for n in new:
            if n != code and (i, n) not in seen:
                seen.add((i, n))
                yield i, n, "\n".join(lines[:i] + [n] + lines[i + 1:]), lines


class Box(threading.local):
    w = None


def gen(out, only):
    todo = [(f, c) for f in FILES if not only or f in only or os.path.basename(f) in only for c in changes(f)]
    print(len(todo), "changes", flush=True)
    os.makedirs(out, exist_ok=True)
    box, lock, n, boxes = Box(), threading.Lock(), [0, 0, 0], []
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="-Awarnings")

    def one(k):
        f, (i, new, text, lines) = todo[k]
        if box.w is None:
            box.w = tempfile.mkdtemp(prefix="swp")
            subprocess.run(["cp", "-a", "/repo", box.w + "/repo"], check=True)
            boxes.append(box.w)
        p = box.w + "/repo/" + f
        old = "\n".join(lines)
        open(p, "w").write(text)
        try:
            e = dict(env, CARGO_TARGET_DIR=box.w + "/target")
            feats = ["--features", "sync_sender"] if "/sync/" in f else []
            r = subprocess.run(["timeout", "200", "cargo", "test", "--workspace", "--no-run", "--offline", "-q"] + feats, cwd=box.w + "/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ok = r.returncode == 0
            if ok:
                n[0] += 1
                shutil.rmtree(box.w + "/repo/tsfile-writer/target", ignore_errors=True)
                r = subprocess.run(["timeout", "100", "cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=box.w + "/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = r.stdout.decode(errors="replace")
                ok = r.returncode == 0 and "test result" in o
                if ok:
                    n[1] += 1
                    d = "".join(difflib.unified_diff([x + "\n" for x in old.split("\n")[:-1]], [x + "\n" for x in text.split("\n")[:-1]], "a/" + f, "b/" + f))
                    open("%s/%04d.patch" % (out, k), "w").write(d)
        finally:
            open(p, "w").write(old)
        n[2] += 1
        if n[2] % 50 == 0:
            print("%d done, %d build, %d pass the tests" % (n[2], n[0], n[1]), flush=True)

    with cf.ThreadPoolExecutor(5) as ex:
        for r in [ex.submit(one, k) for k in range(len(todo))]:
            try:
                r.result()
            except Exception as e:
                print("!", e, flush=True)
    for w in boxes:
        shutil.rmtree(w, ignore_errors=True)
    print("done", n, flush=True)


def run(d, j):
    done = set()
    res = d + "/result.txt"
    if os.path.exists(res):
        done = {l.split()[0] for l in open(res)}
    lock = threading.Lock()

    def one(p):
        text = open(d + "/" + p).read()
        f = text.split("\n")[0][6:]
        what = [l for l in text.split("\n")[2:] if l[:1] in "+-" and l[1:2] != "-"]
        log, hit = [], None
        for c in FILES[f].split():
            r = subprocess.run([sys.executable, HERE + "/mutants.py", "-p", c, d + "/" + p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace").strip()
            if "VIOLATION" in o:
                hit = c
                break
            log.append(c + ("" if "rc=0" in o else " !! " + o[-300:]))
        with lock:
            open(res, "a").write("%s %s %s | %s | missed by %s\n" % (p, hit or "SURVIVED", os.path.basename(f), " => ".join(w[1:].strip() for w in what), ", ".join(log)))

    with cf.ThreadPoolExecutor(j) as ex:
        list(ex.map(one, sorted(x for x in os.listdir(d) if x.endswith(".patch") and x not in done)))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], int(sys.argv[4]) if len(sys.argv) > 4 else 2)
