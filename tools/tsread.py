"""A small reader of TsFiles (version 3): content by sequential scan, statistics, index, bloom filter."""
import struct
SEEDS = [5, 7, 11, 19, 31, 37, 43, 59]
M64 = (1 << 64) - 1


def uvar(b, p):
    v = s = 0
    while True:
        x = b[p]
        p += 1
        v |= (x & 127) << s
        s += 7
        if not x & 128:
            return v, p


def ivar(b, p):
    u, p = uvar(b, p)
    return (u >> 1) ^ -(u & 1), p


def string(b, p):
    n, p = ivar(b, p)
    return b[p:p + n].decode(), p + n


def snappy(b):
    n, p = uvar(b, 0)
    o = bytearray()
    while p < len(b):
        t = b[p]
        p += 1
        if t & 3 == 0:
            k = t >> 2
            if k >= 60:
                w = k - 59
                k = int.from_bytes(b[p:p + w], "little")
                p += w
            o += b[p:p + k + 1]
            p += k + 1
            continue
        if t & 3 == 1:
            k, off = ((t >> 2) & 7) + 4, (t >> 5) << 8 | b[p]
            p += 1
        elif t & 3 == 2:
            k, off = (t >> 2) + 1, int.from_bytes(b[p:p + 2], "little")
            p += 2
        else:
            k, off = (t >> 2) + 1, int.from_bytes(b[p:p + 4], "little")
            p += 4
        for _ in range(k):
            o.append(o[-off])
    assert len(o) == n, "snappy length"
    return bytes(o)


def ts2diff(b, w):
    out, p, bits = [], 0, 8 * w
    mask = (1 << bits) - 1
    while p < len(b):
        n, width = struct.unpack(">II", b[p:p + 8])
        mn = int.from_bytes(b[p + 8:p + 8 + w], "big")
        v = int.from_bytes(b[p + 8 + w:p + 8 + 2 * w], "big")
        p += 8 + 2 * w
        size = (n * width + 7) // 8
        pay = int.from_bytes(b[p:p + size], "big")
        assert p + size <= len(b), "block cut off"
        out.append(v)
        for i in range(n):
            d = pay >> (size * 8 - (i + 1) * width) & ((1 << width) - 1) if width else 0
            v = (v + mn + d) & mask
            out.append(v)
        p += size
    h = 1 << (bits - 1)
    return [x - (1 << bits) if x >= h else x for x in out]


def values(b, dtype, enc):
    if enc == 4:
        return ts2diff(b, 8 if dtype == 2 else 4)
    if dtype == 1:
        out, p = [], 0
        while p < len(b):
            v, p = ivar(b, p)
            out.append(v)
        return out
    w = 8 if dtype == 2 else 4
    assert len(b) % w == 0
    return [struct.unpack(">q", b[i:i + 8])[0] if dtype == 2 else b[i:i + 4] for i in range(0, len(b), w)]


def stats(b, p, dtype):
    n, p = uvar(b, p)
    t0, t1 = struct.unpack(">qq", b[p:p + 16])
    p += 16
    w, c = {1: (4, "i"), 2: (8, "q"), 3: (4, "f")}[dtype]
    mn, mx, first, last = struct.unpack(">4" + c, b[p:p + 4 * w])
    p += 4 * w
    s = struct.unpack(">q" if dtype == 1 else ">d", b[p:p + 8])[0]
    return dict(count=n, t0=t0, t1=t1, min=mn, max=mx, first=first, last=last, sum=s), p + 8


class File:
    def __init__(self, path, page_stats=True):
        b = self.b = open(path, "rb").read()
        assert b[:7] == b"TsFile\x03" and b[-6:] == b"TsFile", "magic"
        self.series, self.chunks, self.groups, self.pagestats = {}, [], [], []
        p, dev = 7, None
        while b[p] != 2:
            m = b[p]
            if m == 0:
                dev, p = string(b, p + 1)
                self.groups.append(dev)
                continue
            assert m in (1, 5), "marker %d at %d" % (m, p)
            at = p
            name, p = string(b, p + 1)
            n, p = uvar(b, p)
            dt, comp, enc = b[p:p + 3]
            p += 3
            end = p + n
            pages = 0
            pts = self.series.setdefault((dev, name), [])
            while p < end:
                raw, p = uvar(b, p)
                size, p = uvar(b, p)
                if m == 1:
                    st, p = stats(b, p, dt)
                d = b[p:p + size]
                p += size
                d = snappy(d) if comp == 1 else d
                assert len(d) == raw, "size of a page"
                tl, q = uvar(d, 0)
                ts, vs = ts2diff(d[q:q + tl], 8), values(d[q + tl:], dt, enc)
                assert len(ts) == len(vs), "times and values"
                if m == 1:
                    assert st["count"] == len(ts) and st["t0"] == ts[0] and st["t1"] == ts[-1], "page statistics"
                    self.pagestats.append((st, ts, vs))
                pts += list(zip(ts, vs))
                pages += 1
            assert p == end and (m == 1) == (pages > 1), "chunk"
            self.chunks.append((dev, name, at, pages, dt, enc, comp))
        self.data_end = p
        flen = struct.unpack(">I", b[-10:-6])[0]
        f = len(b) - 10 - flen
        self.root, q = self.node(f)
        assert struct.unpack(">q", b[q:q + 8])[0] == self.data_end, "metadata offset"
        n, q = uvar(b, q + 8)
        self.bits = b[q:q + n]
        self.fsize, q = uvar(b, q + n)
        self.fk, q = uvar(b, q)
        assert q == len(b) - 10, "footer"

    def node(self, p):
        b = self.b
        n, p = uvar(b, p)
        es = []
        for _ in range(n):
            name, p = string(b, p)
            es.append((name, struct.unpack(">q", b[p:p + 8])[0]))
            p += 8
        end = struct.unpack(">q", b[p:p + 8])[0]
        return dict(entries=es, end=end, type=b[p + 8]), p + 9

    def find(self, dev, name):
        """series metadata by descending the index"""
        n, d = self.root, 0
        while True:
            assert len(n["entries"]) <= 256, "node with %d entries" % len(n["entries"])
            key = dev if n["type"] in (0, 1) else name
            k = max([i for i, e in enumerate(n["entries"]) if e[0] <= key], default=None)
            if k is None or n["type"] == 1 and n["entries"][k][0] != key:
                return None
            at = n["entries"][k][1]
            end = n["entries"][k + 1][1] if k + 1 < len(n["entries"]) else n["end"]
            if n["type"] == 3:
                p = at
                while p < end:
                    m, p = self.meta(p)
                    if m["name"] == name:
                        return m
                return None
            n, _ = self.node(at)

    def meta(self, p):
        b = self.b
        ty = b[p]
        name, p = string(b, p + 1)
        dt = b[p]
        n, p = uvar(b, p + 1)
        st, p = stats(b, p, dt)
        end, chunks = p + n, []
        while p < end:
            off = struct.unpack(">q", b[p:p + 8])[0]
            p += 8
            cs = None
            if ty & 1:
                cs, p = stats(b, p, dt)
            chunks.append((off, cs))
        assert p == end, "chunk list"
        return dict(name=name, dtype=dt, stats=st, chunks=chunks, type=ty), p

    def in_filter(self, path):
        return all(self.bit(abs(i32(murmur(path.encode(), SEEDS[i]))) % self.fsize) for i in range(self.fk))

    def bit(self, k):
        return k // 8 < len(self.bits) and self.bits[k // 8] >> (k % 8) & 1


def i32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def rotl(x, n):
    return (x << n | x >> (64 - n)) & M64


def fmix(k):
    k ^= k >> 33
    k = k * 0xff51afd7ed558ccd & M64
    k ^= k >> 33
    k = k * 0xc4ceb9fe1a85ec53 & M64
    return k ^ k >> 33


def murmur(key, seed):
    c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
    h1 = h2 = seed
    nb = len(key) // 16
    for i in range(nb):
        k1 = int.from_bytes(key[16 * i:16 * i + 8], "little")
        k2 = int.from_bytes(key[16 * i + 8:16 * i + 16], "little")
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
        h1 = (rotl(h1, 27) + h2) * 5 + 0x52dce729 & M64
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
        h2 = (rotl(h2, 31) + h1) * 5 + 0x38495ab5 & M64
    t = key[16 * nb:]
    k1 = int.from_bytes(t[:8], "little")
    k2 = int.from_bytes(t[8:], "little")
    if len(t) > 8:
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
    if t:
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
    h1 ^= len(key)
    h2 ^= len(key)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    h1, h2 = fmix(h1), fmix(h2)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    return (h1 + h2) & M64
