"""Histories of SDS files: saving, appending, loading, stacking and concatenating real files in a scratch directory."""
import os
import shutil
import tempfile
import zlib
import numpy as np
from gcols import invalid
from recorder import INV, OTHER

NUM = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]
WORDS = ["", "a", "ab", "abc", "b", "zz", "longer word", "x" * 40]


def make(kind, codes, shape):
    """The array with these codes in row-major order."""
    if kind[0] in "SU":
        a = np.array([WORDS[c] for c in codes], kind if int(kind[1:]) else kind[0] + "1") if codes else np.zeros(0, kind)
    elif kind == "b1":
        a = np.array(codes, bool)
    else:
        a = np.array([invalid(kind) if c == INV else c for c in codes], kind)
    return a.reshape(shape)


def code(a):
    """Values of an array in row-major order as codes."""
    k = a.dtype.kind
    flat = np.ascontiguousarray(a).reshape(-1)
    if k in "SU":
        idx = {w: i for i, w in enumerate(WORDS)}
        return [INV if not w else idx.get(w.decode() if k == "S" else w, OTHER) for w in flat.tolist()]
    if k == "b":
        return [int(x) for x in flat]
    if k not in "iuf":
        return digest(a)
    inv = invalid(k + str(a.dtype.itemsize)) if k in "iu" and True else None
    out = []
    for x in flat.tolist():
        out.append(INV if x != x or x == inv else int(x) if x == int(x) and abs(x) < 10 ** 9 else OTHER)
    return out


def digest(a):
    b = np.ascontiguousarray(a).tobytes()
    return [zlib.crc32(b[i:i + 65536]) % 10 ** 9 for i in range(0, len(b), 65536)] or [0]


def item(name, flags, a, dig):
    return {"n": name, "fl": int(flags), "k": a.dtype.str, "sh": list(a.shape), "o": int(a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous),
            "v": digest(a) if dig else code(a)}


class Files:
    """One scratch directory with numbered files and the history done on them."""

    def __init__(self, rc, rec, n, dig=False):
        self.rc, self.rec, self.n, self.dig = rc, rec, n, dig
        self.dir = tempfile.mkdtemp(prefix="sds")
        self.ops, self.todo = [], []

    def path(self, f):
        return os.path.join(self.dir, "f%d.sds" % f)

    def write(self, f, items, sec="", meta=0, comp=1, level=3, ft=2, band=None):
        """items: (name, flags, array)"""
        op = {"op": "write", "f": f, "sec": sec, "meta": meta, "items": [item(n, fl, a, self.dig) for n, fl, a in items]}
        arrs, names = [a for _, _, a in items], [(n.encode(), fl) for n, fl, _ in items]
        kw = {}
        if sec:
            kw["section"] = sec
        if band:
            kw["bandsize"] = band

        plain = self.rec.rng.random() < 0.15

        def run():
            self.rc.SetZstdChecksumming(not plain)
            self.rc.CompressFile(self.path(f).encode(), (b"m%d" % meta) * (1 + meta), arrs, names, comp, level, ft, **kw)
            return 0
        self.add(op, run, lambda r: r)

    def add(self, op, fn, encode):
        self.ops.append(op)
        self.todo.append((fn, encode))

    def meta(self, b):
        b = bytes(b)
        if b == b"{}":
            return -1
        for k in range(10):
            if b == (b"m%d" % k) * (1 + k):
                return k
        return OTHER

    def sel(self, inc):
        return {"all": int(inc is None), "inc": inc or []}

    def kw(self, inc):
        return {} if inc is None else {"include": list(inc)}

    def encload(self, r):
        out = []
        for x in r:
            if x is None:
                continue
            meta, arrs, names = x[0], x[1], x[2]
            assert len(arrs) == len(names)
            out.append({"meta": self.meta(meta), "items": [item(n[0].decode(), n[1], a, self.dig) for a, n in zip(arrs, names) if a is not None]})
        return out

    def form(self, f):
        """How the file came about last: as one dataset, put together for stacking, or in another way."""
        for op in reversed(self.ops):
            if op["op"] == "write" and op["f"] == f:
                return "other" if op["sec"] else "plain"
            if op["op"] == "concat" and op["out"] == f:
                return "stack" if self.form(op["fs"][0]) != "other" else "other"
            if op.get("f") == f and op["op"] not in ("load", "info", "stack"):
                return "other"
        return "other"

    def load(self, fs, inc=None, one=False, must=None):
        names = [self.path(f).encode() for f in fs]
        op = {"op": "load", "fs": fs, **self.sel(inc), "must": int(bool(must))}
        more = {} if must is None else {"mustexist": must}
        many = self.rc.MultiDecompressFiles
        if self.form(fs[0]) == "plain" and self.rec.rng.random() < 0.2:
            many = self.rc.MultiPossiblyStackFiles
        fn = (lambda: self.rc.DecompressFile(names[0], 3)) if one else (lambda: many(names, 3, **self.kw(inc), **more))
        self.add(op, fn, lambda r: self.encload(r))

    def info(self, fs):
        names = [self.path(f).encode() for f in fs]

        def enc(r):
            out = []
            for x in r:
                cols = []
                for c, n in zip(x[1], x[2]):
                    cols.append({"n": n[0].decode(), "fl": int(n[1]), "k": dtname(c[1], c[3]), "sh": list(c[0])})
                out.append({"meta": self.meta(x[0]), "items": cols})
            return out
        self.add({"op": "info", "fs": fs, "all": 1, "inc": [], "must": 0}, lambda: self.rc.MultiDecompressFiles(names, 5), enc)

    def stack(self, fs, inc=None, mask=None, layout=None, reserve=None):
        names = [self.path(f).encode() for f in fs]
        kw = self.kw(inc)
        if mask is not None:
            m = np.array(mask, bool)
            kw["mask"] = m if layout is None else layout(m)
        op = {"op": "stack", "fs": fs, **self.sel(inc), "mask": [] if mask is None else [int(x) for x in mask]}

        def enc(r):
            if r is None:
                return {"meta": [], "cols": []}
            arrs, infos, cuts, metas = r[0], r[1], r[2], r[3]
            cols = [{**item(n[0].decode(), n[1], a, False), "cut": [int(x) for x in c]} for a, n, c in zip(arrs, infos, cuts)]
            return {"meta": [self.meta(m) for m in metas], "cols": cols}
        many = self.rc.MultiStackFiles
        if self.form(fs[0]) == "stack" and self.rec.rng.random() < 0.4:
            many = self.rc.MultiPossiblyStackFiles
        self.add(op, lambda: many(names, 3, **kw), enc)

    def concat(self, fs, out):
        names = [self.path(f).encode() for f in fs]

        def run():
            self.rc.MultiConcatFiles(names, output=self.path(out))
            return 0
        self.add({"op": "concat", "fs": fs, "out": out}, run, lambda r: r)

    def play(self):
        """Runs the history and records it."""
        def run():
            rs = []
            for fn, enc in self.todo:
                try:
                    r = fn()
                except Exception as ex:
                    if isinstance(ex, SystemError):
                        raise
                    rs.append({"st": "err", "r": [], "x": str(ex)[:80]})
                    continue
                rs.append({"st": "ok", "r": enc(r)})
            return rs
        try:
            self.rec.call("history", {"n": self.n, "ops": self.ops}, run, lambda rs: {"rs": rs})
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def dtname(num, size):
    t = {0: "b1", 1: "i1", 2: "u1", 3: "i2", 4: "u2", 5: "i4", 6: "u4", 7: "i8", 8: "u8", 9: "i8", 10: "u8", 11: "f4", 12: "f8", 14: "c8", 15: "c16", 18: "S%d" % size, 19: "U%d" % (size // 4)}
    return np.dtype(t[num]).str if num in t else "?%d" % num


def values(rng, kind, n, pinv=0.15):
    if kind == "b1":
        return [rng.randrange(2) for _ in range(n)]
    if kind[0] in "SU":
        w = int(kind[1:])
        ok = [i for i, x in enumerate(WORDS) if len(x) <= w]
        return [rng.choice(ok) for _ in range(n)]
    lo, hi = (0, 200) if kind[0] == "u" else (-100, 100)
    return [INV if rng.random() < pinv else rng.randint(lo, hi) for _ in range(n)]


def anyarray(rng, rs, kind, shape, dig):
    """An array of these in one of several memory layouts; random bytes when only digests of it are compared."""
    n = int(np.prod(shape))
    if dig:
        b = np.frombuffer(rs.bytes((n + 1) * np.dtype(kind).itemsize), "u1")
        if rng.random() < 0.5:
            b = b & 3
        a = (b & 1).astype(bool)[:n] if kind == "b1" else np.frombuffer(b.tobytes(), kind)[:n] if kind[0] != "U" else np.frombuffer((b % 26 + 97).tobytes(), "u1")[:n].astype("U" + kind[1:])
        a = a.copy().reshape(shape)
    else:
        a = make(kind, values(rng, kind, n), shape)
    r = rng.random()
    if a.ndim > 1 and r < 0.4:
        a = np.asfortranarray(a)
    elif a.ndim == 1 and r < 0.15:
        b = np.empty(2 * len(a) + 1, a.dtype)
        b[1::2] = a
        a = b[1::2]
    elif a.ndim > 1 and r < 0.5:
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)
        b[..., 1::2] = a
        a = b[..., 1::2]
    elif a.ndim > 2 and r < 0.6:
        a = np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, 1)), 0, 1)
    return a
