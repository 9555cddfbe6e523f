"""What each check explores: entries of the harness, their parameters and bounds."""

# build variants: cargo features of the harness, rustc flags, manifest, and the variant whose native
# build has to confirm a counterexample
VARIANTS = {
    "base": dict(features="", cfg=""),
    # limits of a page, of memory and of the checks shrunk so that boundaries are within reach
    "small": dict(features="", cfg="--cfg tsfile_verif_small"),
    # small pages in large chunks
    "pages": dict(features="", cfg="--cfg tsfile_verif_small --cfg tsfile_verif_pages"),
    # accessors of internals
    "hooks": dict(features="hooks", cfg="--cfg tsfile_verif"),
    # a writer at any position of its file
    "far": dict(features="far", cfg="--cfg tsfile_verif --cfg tsfile_verif_far --cfg tsfile_verif_small"),
    # the sync sender and its log
    "log": dict(features="mlog", cfg="--cfg tsfile_verif"),
    # the C interface
    "capi": dict(features="capi", cfg=""),
    # the sync sender against a server of the harness
    "sync": dict(features="sync", cfg=""),
    # compression library replaced by a stand-in (see lit/)
    "lit": dict(features="", cfg="", dir="lit", confirm="base"),
    "litsmall": dict(features="", cfg="--cfg tsfile_verif_small", dir="lit", confirm="small"),
}
CONTENT, STRUCT, STATS, INDEX, BLOOM = 1, 2, 4, 8, 16
ALL = 31
I32, I64, F32 = 1, 2, 3
PLAIN, DIFF = 0, 4
RAW, SNAPPY = 0, 1

MEANING = {
    "h_values": "flags, type, encoding, compression, n: n points at fixed timestamps, every value arbitrary",
    "h_times": "flags, type, encoding, compression, n: n writes at arbitrary timestamps",
    "h_mix": "flags, n: n writes, each to an arbitrary one of four series on two devices, values arbitrary",
    "h_noise": "flags, type, encoding, compression, n, kind of data (0 does not compress, 1 always the same, 2 in runs, 3 the same at first and incompressible then), x: values x and x+1 arbitrary",
    "h_long": "flags, type, encoding, compression, n, x, y: n points, values x, x+1, y and y+1 arbitrary (if below n)",
    "h_accept": "flags, series, n: n writes to an arbitrary series at arbitrary timestamps",
    "h_accept_flush": "flags, n, lone: n fixed writes in one of four patterns (lone > 0: one point of three series, then the fourth only) and one arbitrary write at an arbitrary place, with automatic flushes",
    "h_invalid": "flags, n: n legal writes and one arbitrary invalid write at an arbitrary place",
    "h_any_writes": "n, few: n arbitrary writes (any device, name, type, value, timestamp)",
    "h_pages": "flags, n, series, symbolic values (1 all, 2 the last two, 0 none), first (10 and more: all compressed): n writes to arbitrary ones of the series; pages and flushes within reach",
    "h_prefix": "n, series: n writes, every length of the file left by a crash",
    "h_midway": "n, series, arbitrary (1) or fixed (0) values: content on disk after every write",
    "h_many": "flags, n, k, first: a batch of k arbitrary points after n writes (first: names of the first two points, 0 any)",
    "h_function": "seeds, orders, n, shape: hash seeds and orders of the schema, n writes with arbitrary values",
    "h_short": "n, kind: an arbitrary write call accepts an arbitrary part (0), is interrupted (1), both (2), one byte each from there on (3)",
    "h_disk": "n, kind: an arbitrary write call fails (0), that and all later ones (1), or accept nothing (2)",
    "h_fresh": "flags, n: file in folders that do not exist; file that existed with n bytes; four arbitrary values",
    "h_no_file": "every error of open and mkdir of a list of six, on either or both",
    "h_odd_path": "seven odd paths",
    "h_varu": "every unsigned 32-bit number",
    "h_vari": "every signed 32-bit number",
    "h_vars": "n: n arbitrary unsigned numbers one after another",
    "h_varbytes": "n: n arbitrary bytes decoded",
    "h_diff": "type, n, a, b, rounds: n values into the encoder, those at a..b arbitrary (b<a: all), encoder used rounds times",
    "h_hash": "n, wide (two-byte characters), first: every string of n bytes whose first bytes are fixed, all seeds of the filter; first = 1000: every string differing from a fixed one in one character",
    "h_index": "degree, devices, measurements, names, data: index of small nodes; data in all series (0), in any subset (1), in all but one (2)",
    "h_crc": "n, k: a path of n bytes, the one at k arbitrary (all if k = n); check sum computed by definition",
    "h_log": "steps, n, how, part: every sequence of steps (add a storage group, add a series of any type, flush), paths of n bytes (fixed 0, arbitrary 1), writer accepting part bytes a call (0: all)",
    "h_schema_log": "devices, measurements, names: the log the sender writes for a schema of arbitrary types",
    "h_c_same": "n, names, gap, compression: n points through the C functions, timestamps and values arbitrary (gap > 0: timestamps fixed), schema freed at an arbitrary moment",
    "h_c_two": "n: n writes of arbitrary values, each to an arbitrary one of two writers of one schema",
    "h_sync_status": "length of the message, transport (at once, in two parts, byte by byte, interrupted, partial sends): every 32-bit status",
    "h_sync_forms": "nine forms of a valid answer with every 32-bit status",
    "h_sync_bad": "kind of an answer that confirms nothing (see net.rs), every 32-bit status",
    "h_sync_window": "first, n, code: a valid answer with n arbitrary bytes at `first`",
    "h_sync_length": "which length (frame, name, message), negative: lengths that do not fit",
    "h_sync_request": "lengths of address and uuid, arbitrary ASCII",
    "h_codes": "all 256 codes; all combinations in a file",
    "h_builders": "n, codes, names, file: n arbitrary steps on the builders (add one of the measurements with one of the codes, register a device under one of the names, build), the last schema used for a file (1)",
    "h_simple": "the schema of one series, four names, six combinations of codes",
    "h_closed": "n, k: n writes, close, then k arbitrary calls (write with arbitrary timestamp and value, batch, close)",
    "h_far": "n, series, degree of the index: n writes to a file at its start and at every position up to 2^62 (symbolic) of a file, some values arbitrary",
    "h_limits": "n, which, limit of a page, limit of a chunk group: n writes of fixed-size values in one of five patterns (0 one series, 1 all in turn, 2 every order, 3 the first series only, 4 all series of a device at once in batches); some of the values arbitrary (for large n the last ones)",
    "h_beside": "n, ns: n writes, each to one of two writers in any order, to one of ns series, with arbitrary values and a timestamp before or after, both closed in either order; against each of the writers alone",
    "h_sync_identity": "bytes of uuid.lock (arbitrary characters; 1000: there is none, the random bytes of the new one are arbitrary), fault of the file (0 none, 1 cannot be opened, 2 cannot be written, 3 an arbitrary part is accepted, 4 interrupted): three connections one after the other",
    "h_wide": "flags, devices, measurements, shape of names, which series have data",
    "h_find": "name length, devices, measurements: every name up to that length is looked up",
}

ASSUMPTIONS = [
    "bounded: only the lengths of histories, numbers of series and limits listed under bounds are covered",
    "the code analysed is the optimised LLVM IR of the crate as rustc 1.99.1 compiles it, with overflow checks on; compiler and IR semantics of the executor are trusted, the latter validated by native runs of solver-chosen paths",
    "file system, hash seeds and clock are the models in harness/src/fs.rs; allocation never fails",
    "z3 answers are trusted (thorough: every 200th unsat answer repeated with cvc5)",
    "single thread",
]


def job(variant, entry, params, cost=1, tier="q", need=(), **kw):
    return dict(variant=variant, entry=entry, params=list(params), cost=cost, tier=tier, need=list(need), **kw)


def scale(f, which):
    """histories that take lengths, counts and sizes beyond 8 and 16 bits (and 17, 20)"""
    # kind of data of many points: statistics of noise are too much for the solver
    noisy = not f & STATS
    if "page" in which:
        # more than 65535 points in a page
        yield job("base", "h_noise", [f, I32, DIFF, RAW, 140000, 1, 139999], 33)
        if noisy:
            # a page of some MiB
            yield job("base", "h_noise", [f, I32, DIFF, RAW, 190000, 3, 189999], 20)
    if "chunk" in which and noisy:
        yield job("base", "h_noise", [f, I32, PLAIN, RAW, 140000, 0, 139999], 17)
        yield job("base", "h_noise", [f, I32, PLAIN, SNAPPY, 140000, 0, 139999], 17)
        yield job("base", "h_noise", [f, F32, PLAIN, RAW, 140000, 0, 139999], 12)
    if "pages" in which:
        # 256, 257, 65536, 65537 pages of a chunk
        for n in (767, 770, 196607, 196610):
            yield job("pages", "h_noise", [f, I32, PLAIN, RAW, n, 1, n - 1], 1 + n // 4000)
    if "chunks" in which:
        # thousands of chunks of a series
        yield job("small", "h_noise", [f, I32, PLAIN, RAW, 12000, 2, 11999], 18)
        yield job("small", "h_noise", [f, F32, PLAIN, RAW, 12000, 2, 11999], 5)


def all_codes():
    for d in (I32, I64, F32):
        for e in (PLAIN, DIFF):
            for c in (RAW, SNAPPY):
                if d == F32 and e == DIFF:
                    continue
                yield d, e, c


def c01():
    f = CONTENT
    for d, e, c in all_codes():
        # snappy's hash table cannot be indexed by much symbolic data: the stand-in takes the larger cases
        v = "base" if c == RAW else "lit"
        yield job(v, "h_values", [f, d, e, c, 3], 5)
        yield job(v, "h_values", [f, d, e, c, 4], 15)
        yield job(v, "h_values", [f, d, e, c, 8 if e == PLAIN and d != I32 else 5], 60, "t" if d == I32 or e == DIFF else "q")
        yield job(v, "h_times", [f, d, e, c, 1], 1)
        yield job(v, "h_times", [f, d, e, c, 2], 3)
        yield job(v, "h_times", [f, d, e, c, 3], 12, need=["points"])
        yield job(v, "h_times", [f, d, e, c, 4], 60, "t")
        yield job(v, "h_long", [f, d, e, c, 140, 127, 200], 12)
        yield job(v, "h_long", [f, d, e, c, 300, 258, 900], 12, "t")
        yield job("base", "h_values", [f, d, e, c, 1], 1)
        yield job("base" if c == RAW or d == F32 else "lit", "h_values", [f, d, e, c, 2], 2)
    for d in (I32, I64, F32):
        yield job("base", "h_long", [f, d, PLAIN, SNAPPY, 140, 139, 900], 2)
        for k in (0, 1, 2):
            for n in (300, 9000, 30000):
                yield job("base", "h_noise", [f, d, PLAIN, SNAPPY, n, k, 90000], 1 + n // 9000)
    yield job("base", "h_noise", [f, I64, PLAIN, SNAPPY, 400, 0, 200], 10)
    yield job("base", "h_noise", [f, I64, PLAIN, RAW, 30000, 0, 8200], 10)
    yield job("base", "h_noise", [f, I64, DIFF, SNAPPY, 9000, 0, 90000], 2)
    yield job("base", "h_values", [f, F32, PLAIN, SNAPPY, 3], 2)
    yield job("base", "h_mix", [f, 2], 3)
    yield job("base", "h_mix", [f, 3], 30)
    yield job("base", "h_mix", [f, 4], 300, "t")
    yield from scale(f, ("page", "chunk"))
    yield job("small", "h_pages", [f, 5, 2, 1, 0], 20)


def c02():
    f = STRUCT
    for d, e, c in all_codes():
        yield job("base" if c == RAW or d == F32 else "lit", "h_values", [f, d, e, c, 2], 3)
        if c == SNAPPY:
            yield job("base", "h_values", [f, d, e, c, 1], 3)
        yield job("base" if c == RAW else "lit", "h_times", [f, d, e, c, 2], 3)
    yield job("base", "h_mix", [f, 3], 30)
    yield job("base", "h_mix", [f, 4], 300, "t")
    yield job("base", "h_codes", [], 1)
    for n in (3, 5000):
        yield job("base", "h_fresh", [f, n], 2, need=["file replaced"])
    yield job("small", "h_pages", [f, 7, 2, 0, 0], 20, need=["chunk of several pages", "series of several chunks", "flush before close"])
    yield job("small", "h_pages", [f, 5, 4, 1, 0], 60, "t")
    yield job("small", "h_pages", [f, 8, 3, 0, 0], 60, "t")
    for first in range(4):
        yield job("small", "h_pages", [f, 4 if first == 2 else 9, 1, 1, first], 10)
        yield job("small", "h_pages", [f, 9, 1, 0, first], 3)
        for n in (3, 6, 9, 11, 13):
            yield job("small", "h_pages", [f, n, 1, 0, 10 + first], 3)
        yield job("litsmall", "h_pages", [f, 4 if first == 2 else 9, 1, 1, 10 + first], 20)
    yield job("small", "h_pages", [f, 7, 2, 0, 10], 20, need=["chunk of three pages"])
    for sh in (0, 1, 2):
        yield job("base", "h_wide", [f, 6, 5, sh, 1], 2)
        yield job("base", "h_wide", [f, 1, 40, sh, 0], 2)
        yield job("base", "h_wide", [f, 40, 1, sh, 0], 2)
        yield job("base", "h_wide", [f, 3, 4, sh, 2], 2)
        yield job("base", "h_wide", [f, 3, 4, sh, 3], 2)
    for a, b, k in ((15, 12, 0), (12, 3, 1), (3, 3, 3)):
        yield job("base", "h_wide", [f, a, b, 3, k], 4)
    yield job("base", "h_wide", [f, 1, 300, 0, 0], 6)
    yield job("base", "h_wide", [f, 300, 1, 0, 0], 6)
    yield job("base", "h_long", [f, I64, DIFF, RAW, 260, 900, 900], 4)
    yield job("base", "h_long", [f, I32, PLAIN, SNAPPY, 140, 900, 900], 4)
    for d, e, c in all_codes():
        yield job("base", "h_noise", [f, d, e, c, 30000, 0, 90000], 2)
    yield from scale(f, ("page", "chunk", "pages", "chunks"))
    yield job("base", "h_wide", [f, 256, 1, 4, 0], 10)
    for p, c in (([1, 1, 256], 2), ([9, 4, 256], 5), ([9, 9, 2], 7)):
        yield job("far", "h_far", p, c, need=["offset"])
    yield job("far", "h_far", [40, 4, 256], 20, need=["several chunks of a series"])
    yield job("far", "h_far", [200, 9, 256], 100, "t", need=["several chunks of a series"])


def c03():
    f = STATS
    for d, e, c in all_codes():
        if c == RAW:
            for n in (1, 2) if e == DIFF and d == I64 else (1, 2, 3):
                yield job("base", "h_values", [f, d, e, c, n], 2 * n)
            yield job("base", "h_values", [f, d, e, c, 4], 15, "t" if d == F32 or e == DIFF else "q")
        yield job("base" if c == RAW else "lit", "h_times", [f, d, e, c, 2], 2)
    yield job("base", "h_times", [f, I64, PLAIN, RAW, 3], 50, need=["series statistics"])
    yield job("base", "h_mix", [f, 3], 20)
    for first in range(4):
        yield job("small", "h_pages", [f, 3, 1, 1, first], 10)
        yield job("small", "h_pages", [f, 5, 1, 1, first], 40, "t")
        yield job("small", "h_pages", [f, 8, 1, 0, first], 4)
    yield job("small", "h_pages", [f, 8, 1, 1, 3], 40, need=["chunk statistics", "page statistics"])
    yield job("small", "h_pages", [f, 8, 1, 1, 2], 40, "t")
    yield job("small", "h_pages", [f, 4, 4, 1, 0], 60, "t")
    yield job("small", "h_pages", [f, 3, 4, 1, 0], 20)
    yield job("small", "h_pages", [f, 7, 2, 0, 0], 20)
    for first in range(4):
        for n in (3, 6, 9):
            yield job("small", "h_pages", [f, n, 1, 0, 10 + first], 2)
        yield job("litsmall", "h_pages", [f, 4, 1, 1, 10 + first], 10)
    yield job("base", "h_long", [f, I32, DIFF, RAW, 140, 127, 900], 20)
    yield from scale(f, ("page", "pages", "chunks"))
    yield job("base", "h_noise", [f, I32, DIFF, RAW, 190000, 3, 900000], 20)
    yield job("base", "h_noise", [f, F32, PLAIN, RAW, 140000, 0, 900000], 20)
    for d, e, c in all_codes():
        yield job("base", "h_noise", [f, d, e, c, 30000, 0 if d == I32 else 2, 90000], 2)


def c04():
    f = CONTENT
    yield job("base", "h_accept", [f, 1, 3], 4, need=["accepted", "refused"])
    yield job("base", "h_accept", [f, 4, 2], 3, need=["accepted", "refused"])
    yield job("base", "h_accept", [f, 4, 3], 20, need=["accepted", "refused"])
    yield job("base", "h_accept", [f, 1, 5], 100, "t")
    yield job("base", "h_accept", [f, 2, 4], 100, "t")
    yield job("small", "h_accept", [f, 2, 4], 60, need=["accepted", "refused"])
    yield job("small", "h_accept", [f, 1, 5], 60)
    yield job("small", "h_accept_flush", [f, 6, 0], 60, need=["flushed"])
    yield job("small", "h_accept_flush", [f, 14, 4], 6, need=["flushed"])
    yield job("small", "h_accept_flush", [f, 10, 1], 40, need=["flushed"])
    yield job("small", "h_accept_flush", [f, 14, 1], 80, "t", need=["flushed"])
    yield job("small", "h_accept_flush", [f, 14, 2], 80, "t", need=["flushed"])
    yield job("small", "h_accept_flush", [f, 14, 3], 80, "t", need=["flushed"])
    yield job("small", "h_accept_flush", [f, 9, 0], 200, "t", need=["flushed"])


def c05():
    f = CONTENT
    for n in (0, 1, 2, 3):
        yield job("base", "h_invalid", [f, n], 1 + n * n * 2, need=["invalid write refused"])
    yield job("small", "h_invalid", [f, 3], 20, need=["invalid write refused"])
    yield job("small", "h_invalid", [f, 7], 60, need=["invalid write refused"])
    yield job("base", "h_any_writes", [1, 0], 1)
    yield job("base", "h_any_writes", [2, 0], 30)
    yield job("base", "h_any_writes", [3, 1], 60)
    yield job("small", "h_any_writes", [2, 0], 30)
    yield job("small", "h_any_writes", [3, 1], 60)
    yield job("base", "h_any_writes", [3, 0], 600, "t")
    for first in (2, 3, 4, 5, 6, 7, 8):
        yield job("base", "h_many", [f, 1, 2, first], 25)


def c06():
    f = INDEX
    for sh in (0, 1, 2):
        for nd, nm in ((1, 1), (1, 2), (2, 1), (3, 3), (6, 5), (8, 8)):
            yield job("base", "h_wide", [f, nd, nm, sh, 0], 2)
            yield job("base", "h_wide", [f, nd, nm, sh, 1], 2)
        yield job("base", "h_wide", [f, 3, 4, sh, 2], 4)
        yield job("base", "h_wide", [f, 3, 4, sh, 3], 4)
    for a, b, k in ((15, 1, 0), (1, 12, 0), (12, 7, 1), (3, 3, 3)):
        yield job("base", "h_wide", [f, a, b, 3, k], 4)
    for n in (255, 256, 257, 300):
        yield job("base", "h_wide", [f, 1, n, 0, 0], 15)
        yield job("base", "h_wide", [f, n, 1, 0, 0], 15)
    yield job("base", "h_wide", [f, 520, 1, 0, 0], 40)
    yield job("base", "h_wide", [f, 1, 520, 0, 0], 40)
    for p in ([3, 3, 3, 0, 1], [2, 4, 4, 1, 2], [2, 9, 9, 0, 0], [3, 30, 1, 0, 0]):
        yield job("hooks", "h_index", p, 10)
    yield job("base", "h_find", [2, 3, 3], 2)
    yield job("base", "h_find", [2, 7, 5], 10)
    yield job("base", "h_find", [3, 5, 6], 10)
    yield job("small", "h_pages", [f, 6, 4, 0, 0], 60)
    yield job("far", "h_far", [40, 9, 2], 20, need=["deep index"])
    yield from scale(f, ("chunks",))
    yield job("base", "h_wide", [f, 256, 1, 4, 0], 10)
    yield job("base", "h_wide", [f, 1, 2000, 0, 0], 100, "t")
    yield job("base", "h_wide", [f, 2000, 1, 0, 0], 100, "t")


def c07():
    f = BLOOM
    for sh in (0, 1, 2):
        for nd, nm in ((1, 1), (2, 3), (5, 5), (8, 8), (40, 3)):
            yield job("base", "h_wide", [f, nd, nm, sh, 0], 3)
    for a, b in ((15, 12), (5, 7), (1, 12)):
        yield job("base", "h_wide", [f, a, b, 3, 0], 6)
        yield job("base", "h_wide", [f, 3, 4, sh, 2], 3)
    for n in (120, 255, 300, 520):
        yield job("base", "h_wide", [f, n, 1, 0, 0], 30)
    yield job("base", "h_mix", [f, 3], 20)
    for n in range(16):
        yield job("hooks", "h_hash", [n, 0, 0], 3)
        yield job("hooks", "h_hash", [n, 1, 0], 3)
    for n, first in ((16, 8), (24, 16), (31, 24), (32, 24), (40, 32), (47, 40), (64, 56)):
        yield job("hooks", "h_hash", [n, 0, first], 3)
        yield job("hooks", "h_hash", [n, 1, first], 3)
    for n in list(range(16, 50)) + [63, 64, 65, 100, 127, 128, 129]:
        yield job("hooks", "h_hash", [n, 0, 1000], 2)
        yield job("hooks", "h_hash", [n, 1, 1000], 2)


def c08():
    yield job("hooks", "h_varu", [], 1, need=["one byte", "two bytes", "three bytes", "four bytes", "five bytes"])
    yield job("hooks", "h_vari", [], 1)
    for n in (2, 3):
        yield job("hooks", "h_vars", [n], 2 * n)
    for n in range(1, 7):
        yield job("hooks", "h_varbytes", [n], 1)
    # the same numbers as they occur in files
    f = STRUCT
    for sh in (0, 1, 2):
        yield job("base", "h_wide", [f, 1, 3, sh, 0], 2)
    yield job("base", "h_wide", [f, 1, 300, 0, 0], 6)
    yield job("base", "h_values", [f, I64, PLAIN, RAW, 2], 6)
    yield job("base", "h_long", [CONTENT, I32, DIFF, RAW, 140, 900, 900], 6)


def c09():
    yield job("hooks", "h_diff", [I32, 3, 1, 0, 2], 3)
    yield job("hooks", "h_diff", [I64, 3, 1, 0, 2], 14)
    yield job("hooks", "h_diff", [I32, 4, 1, 0, 1], 3)
    yield job("hooks", "h_diff", [I64, 6, 1, 0, 1], 15)
    for d in (I32, I64):
        yield job("hooks", "h_diff", [d, 130, 127, 129, 1], 5)
    f = CONTENT
    for d in (I32, I64):
        for n in (1, 2, 3):
            yield job("base", "h_values", [f, d, DIFF, RAW, n], 2 * n)
        yield job("base", "h_values", [f, d, DIFF, RAW, 5], 60, "t" if d == I32 else "q")
        for n, x in ((128, 126), (129, 127), (130, 128), (131, 128), (140, 127), (258, 256), (260, 257)):
            yield job("base", "h_long", [f, d, DIFF, RAW, n, x, 900], n / 10)
        for k in (0, 1, 2):
            yield job("base", "h_noise", [f, d, DIFF, RAW, 30000, k, 90000], 2)
    for n in (2, 3):
        yield job("base", "h_times", [f, I64, DIFF, RAW, n], 4 * n)


def c10():
    f = CONTENT
    for first in range(4):
        for n in range(2, 10):
            yield job("small", "h_pages", [f, n, 1, 2 if first == 2 and n > 4 else 1, first], n)
        for n in range(2, 14):
            yield job("small", "h_pages", [f, n, 1, 0, 10 + first], 2)
        for n in (3, 5, 9):
            yield job("litsmall", "h_pages", [f, n, 1, 2 if first == 2 and n > 4 else 1, 10 + first], 3 * n)
    yield job("small", "h_pages", [f, 7, 2, 0, 10], 20, need=["chunk of three pages"])
    yield job("small", "h_pages", [f, 4, 4, 1, 0], 60)
    yield job("small", "h_pages", [f, 5, 4, 1, 0], 60, "t")
    yield job("small", "h_pages", [f, 7, 2, 1, 0], 40, need=["chunk of several pages", "series of several chunks", "flush before close"])
    yield job("small", "h_pages", [f, 8, 2, 0, 0], 40)
    yield job("small", "h_pages", [f, 6, 4, 0, 0], 60)
    yield job("small", "h_pages", [f, 10, 2, 1, 0], 400, "t")
    yield job("small", "h_pages", [f, 7, 4, 0, 0], 400, "t")
    yield job("base", "h_long", [f, I64, PLAIN, RAW, 300, 200, 900], 20)
    yield job("base", "h_long", [f, I32, PLAIN, SNAPPY, 300, 299, 900], 20)
    yield from scale(f, ("page", "chunk", "pages", "chunks"))
    # page limits as they are
    for d, e, c in all_codes():
        for n, k in ((8200, 0), (20000, 0), (30000, 2), (60000, 1)):
            yield job("base", "h_noise", [f, d, e, c, n, k, 90000], n // 8000)
    for x in (7987, 7988, 7989, 9488, 9490):
        yield job("base", "h_noise", [f, I64, PLAIN, RAW, 12000, 0, x], 5)
    yield job("litsmall", "h_times", [f, I64, DIFF, SNAPPY, 3], 20)
    yield job("litsmall", "h_values", [f, I32, PLAIN, SNAPPY, 4], 20)
    yield job("litsmall", "h_values", [f, F32, PLAIN, SNAPPY, 9], 5)
    yield job("litsmall", "h_values", [f, I64, PLAIN, SNAPPY, 9], 5)


def c11():
    for shape in (0, 1):
        yield job("base", "h_function", [8, 5, 5, shape], 5)
        yield job("base", "h_function", [100 if shape else 40, 12, 9 if shape else 4, shape], 60, need=["first device first", "other device first"])
    yield job("small", "h_function", [12, 5, 9, 1], 30)
    yield job("base", "h_function", [400, 60, 9, 1], 600, "t")
    yield job("base", "h_beside", [2, 2], 20, need=["writers in turn"])
    yield job("base", "h_beside", [2, 4], 60, need=["writers in turn"])
    yield job("base", "h_beside", [3, 2], 150, "t")
    yield job("base", "h_beside", [4, 2], 600, "t")
    yield job("base", "h_beside", [3, 4], 600, "t")


def c12():
    for n in (1, 2, 3):
        for k in (0, 1, 2, 3):
            yield job("base", "h_short", [n, k], 10, need=["short write" if k != 1 else "interrupted write"])
    yield job("small", "h_short", [9, 0], 60, need=["short write"])
    yield job("small", "h_short", [9, 2], 30)
    for k in (0, 1, 2):
        yield job("base", "h_disk", [5, k], 5, need=["failed write", "reported by new", "reported by close"])
        yield job("small", "h_disk", [14, k], 30, need=["reported by write", "reported by close"])
    yield job("base", "h_fresh", [ALL - STATS, 0], 2, need=["folders made"])
    for n in (1, 200, 2000):
        yield job("base", "h_fresh", [ALL - STATS, n], 2, need=["file replaced"])
    yield job("base", "h_no_file", [], 1, need=["directory refused", "file refused"])
    yield job("base", "h_odd_path", [], 1, need=["refused"])


def c13():
    for n, k in ((0, 0), (1, 1), (7, 0), (7, 6), (30, 11), (200, 196)):
        yield job("log", "h_crc", [n, k], 5)
    yield job("log", "h_crc", [2, 2], 100, "t")
    yield job("log", "h_log", [3, 5, 0, 0], 4, need=["several plans in a frame"])
    yield job("log", "h_log", [3, 0, 0, 0], 4)
    yield job("log", "h_log", [4, 5, 0, 0], 20)
    for p in (1, 3, 5):
        yield job("log", "h_log", [2, 6, 0, p], 2)
    for n in (127, 128, 255, 256, 300, 32768, 70000):
        yield job("log", "h_log", [1, n, 0, 0], 5)
    yield job("log", "h_log", [1, 3, 1, 0], 2)
    yield job("log", "h_log", [1, 20, 1, 0], 5)
    yield job("log", "h_log", [2, 3, 1, 0], 30)
    for p in ([2, 2, 0], [1, 3, 2], [3, 1, 1], [4, 1, 0]):
        yield job("log", "h_schema_log", p, 15)


def c14():
    for which in range(6):
        yield job("capi", "h_c_same", [0, which, 0, which % 2], 1, need=["INT32", "other type"])
        yield job("capi", "h_c_same", [2, which, 1, 0], 3, need=["schema freed early", "schema freed late"])
        yield job("capi", "h_c_same", [3, which, 1, 1], 1)
    yield job("capi", "h_c_same", [1, 0, 0, 0], 1)
    yield job("capi", "h_c_same", [2, 1, 0, 0], 5)
    yield job("capi", "h_c_same", [2, 2, 0, 0], 5)
    yield job("capi", "h_c_same", [3, 0, 0, 0], 400, "t")
    yield job("capi", "h_c_same", [4, 0, 1, 0], 30)
    yield job("capi", "h_c_same", [140, 0, 1, 0], 20)
    yield job("capi", "h_c_same", [140, 5, 7, 0], 20)
    yield job("capi", "h_c_same", [300, 0, 1, 1], 1)
    for n in (0, 2, 4):
        yield job("capi", "h_c_two", [n], 2 * n + 1, need=["two writers"])
    yield job("capi", "h_c_two", [6], 300, "t")


def c15():
    yield job("base", "h_codes", [], 1, need=["type", "encoding", "compression"])


def c16():
    for n in (0, 1, 3, 40):
        for how in range(5):
            yield job("sync", "h_sync_status", [n, how], 2, need=["connected", "refused"])
    yield job("sync", "h_sync_forms", [], 2, need=["connected", "refused"])
    for kind in range(17):
        yield job("sync", "h_sync_bad", [kind], 2, need=["refused"])
    for at in (0, 2, 8, 10, 11, 12, 13, 14, 15, 17, 18, 20, 21, 23, 25, 27, 28, 34, 35, 36):
        for code in (7, 0):
            yield job("sync", "h_sync_window", [at, 2, code], 30 if at == 0 else 4)
    for at in (12, 13, 14, 23, 24, 34, 35):
        yield job("sync", "h_sync_window", [at, 3, 7], 10)
    yield job("sync", "h_sync_window", [23, 4, 0], 2)
    yield job("sync", "h_sync_window", [13, 4, 0], 2)
    for at in (0, 9, 10, 11, 17, 20, 27):
        yield job("sync", "h_sync_window", [at, 3, 7], 100, "t")
    for which in range(3):
        yield job("sync", "h_sync_length", [which, 0], 2)
        yield job("sync", "h_sync_length", [which, 1], 2)
    for n, k in ((0, 0), (3, 4), (60, 36), (300, 200)):
        yield job("sync", "h_sync_request", [n, k], 2, need=["request"])


def c17():
    yield job("base", "h_fresh", [CONTENT, 2000], 2, need=["file replaced"])
    yield job("small", "h_prefix", [5, 2], 60, need=["some chunks recovered"])
    yield job("small", "h_prefix", [9, 1], 60, need=["some chunks recovered"])
    yield job("base", "h_prefix", [3, 4], 30, need=["some chunks recovered"])
    yield job("small", "h_prefix", [7, 3], 600, "t")
    yield job("small", "h_midway", [9, 2, 1], 10, need=["chunk on disk before close"])
    yield job("small", "h_midway", [12, 1, 1], 10, need=["chunk on disk before close"])
    yield job("small", "h_midway", [7, 4, 0], 60, need=["chunk on disk before close"])
    yield job("small", "h_midway", [4, 3, 1], 60)
    yield job("small", "h_midway", [6, 3, 1], 200, "t", need=["chunk on disk before close"])


def c18():
    f = CONTENT
    yield job("base", "h_many", [f, 0, 0, 0], 1)
    yield job("base", "h_many", [f, 0, 1, 0], 5, need=["batch accepted", "batch refused"])
    yield job("base", "h_many", [f, 1, 1, 0], 15)
    yield job("base", "h_many", [f, 0, 2, 0], 60, need=["batch accepted", "batch refused", "point of the batch accepted"])
    yield job("small", "h_many", [f, 2, 1, 0], 20)
    yield job("small", "h_many", [f, 3, 1, 0], 100, "t")
    yield job("small", "h_many", [f, 3, 2, 0], 100, "t")
    for first in (2, 3, 4, 5, 6, 7, 8):
        yield job("base", "h_many", [f, 1, 2, first], 25)
    yield job("base", "h_many", [f, 1, 3, 0], 900, "t")


def c19():
    yield job("base", "h_simple", [], 1)
    yield job("base", "h_builders", [4, 2, 2, 0], 4, need=["device registered again", "several measurements"])
    yield job("base", "h_builders", [3, 10, 2, 0], 9)
    yield job("base", "h_builders", [3, 3, 3, 0], 5)
    yield job("base", "h_builders", [5, 2, 2, 0], 60, need=["device registered again", "several measurements", "several devices"])
    yield job("base", "h_builders", [2, 10, 3, 1], 4)
    yield job("base", "h_builders", [3, 2, 2, 1], 90)
    yield job("base", "h_builders", [6, 1, 2, 0], 200, "t", need=["several devices"])
    for sh in (0, 3):
        yield job("base", "h_wide", [CONTENT | STRUCT, 5, 7, sh, 0], 4)


def c20():
    yield job("small", "h_limits", [24, 0, 60, 250], 10, need=["flushed again and again"])
    yield job("small", "h_limits", [24, 1, 60, 250], 10, need=["flushed again and again"])
    yield job("small", "h_limits", [120, 0, 60, 250], 80, need=["flushed again and again"])
    yield job("small", "h_limits", [120, 1, 60, 250], 4, need=["flushed again and again"])
    yield job("small", "h_limits", [600, 1, 60, 250], 15, need=["flushed again and again"])
    yield job("small", "h_limits", [4, 2, 60, 250], 10)
    yield job("small", "h_limits", [5, 2, 60, 250], 45, "t")
    yield job("small", "h_limits", [2000, 0, 60, 250], 200, "t")
    yield job("small", "h_limits", [24, 4, 60, 250], 5, need=["flushed again and again"])
    yield job("small", "h_limits", [120, 4, 60, 250], 10, need=["flushed again and again"])
    yield job("small", "h_limits", [2000, 4, 60, 250], 100, "t", need=["flushed again and again"])
    yield job("base", "h_limits", [20000, 4, 65536, 1 << 27], 20, need=["full page"])
    yield job("base", "h_limits", [130000, 3, 65536, 1 << 27], 10, need=["full page"])
    yield job("base", "h_limits", [30000, 0, 65536, 1 << 27], 15, need=["full page"])
    yield job("base", "h_limits", [40000, 1, 65536, 1 << 27], 15)
    yield job("base", "h_limits", [400000, 3, 65536, 1 << 27], 60, "t", need=["full page"])


def c21():
    for n in (0, 1, 4, 36, 200):
        yield job("sync", "h_sync_identity", [n, 0], 5, need=["kept"])
    yield job("sync", "h_sync_identity", [36, 1], 2, need=["no identity"])
    yield job("sync", "h_sync_identity", [36, 2], 2, need=["kept"])
    for fault in (0, 3, 4):
        yield job("sync", "h_sync_identity", [1000, fault], 2, need=["generated"])
    for fault in (1, 2):
        yield job("sync", "h_sync_identity", [1000, fault], 2, need=["no identity"])
    yield job("sync", "h_sync_identity", [800, 0], 60, "t", need=["kept"])


def c22():
    for p in ([0, 1], [1, 1], [2, 2], [6, 2], [140, 1]):
        yield job("base", "h_closed", p, 5, need=["write", "batch", "close"])
    for p in ([8, 2], [40, 2]):
        yield job("small", "h_closed", p, 10, need=["write", "batch", "close"])
    yield job("base", "h_closed", [1, 3], 60, "t")
    yield job("small", "h_closed", [9, 3], 60, "t")
    # a failing disk finishes the writer as well
    yield job("base", "h_disk", [5, 0], 5, need=["failed write"])
    yield job("small", "h_disk", [14, 0], 30, need=["reported by write", "reported by close"])


PROPERTY = {
    "C01": dict(jobs=c01),
    "C02": dict(jobs=c02),
    "C03": dict(jobs=c03),
    "C04": dict(jobs=c04),
    "C05": dict(jobs=c05),
    "C06": dict(jobs=c06),
    "C07": dict(jobs=c07),
    "C08": dict(jobs=c08),
    "C09": dict(jobs=c09),
    "C10": dict(jobs=c10),
    "C11": dict(jobs=c11),
    "C12": dict(jobs=c12),
    "C13": dict(jobs=c13),
    "C14": dict(jobs=c14),
    "C15": dict(jobs=c15),
    "C16": dict(jobs=c16),
    "C17": dict(jobs=c17),
    "C18": dict(jobs=c18),
    "C19": dict(jobs=c19),
    "C20": dict(jobs=c20),
    "C21": dict(jobs=c21),
    "C22": dict(jobs=c22),
}


def jobs(pid, tier):
    return [j for j in PROPERTY[pid]["jobs"]() if tier == "thorough" or j["tier"] == "q"]
