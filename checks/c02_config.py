PID = "C02"
TECHNIQUE = "TLA+ specification of settings, calls and their remembered results; TLC explores block sharing and validates recorded histories of settings, layouts, repeats and Python threads"
LEVEL_NOTE = ("ConfigMC.tla explores every sharing of blocks among workers for reductions and block writes. Recorded histories change thread, wake-up and recycling "
              "settings and repeat calls under every setting, memory layout, alignment and from several Python threads; Config.tla allows one result per call, "
              "unchanged inputs, and settings that report what was set before. Trusts TLC and the digests of results (floats to 9 digits).")
TRACE = "ConfigTrace"
STATEFUL = True
MODELS = [{"spec": "ConfigMC", "workers": 2, "thorough_cfg": "ConfigMC_thorough.cfg"}]
ASSUMPTIONS = ["results with rounding are compared to 9 significant digits (the order of additions may differ between threads)",
               "a layout a function refuses with an error is no violation"]
import hashlib
import threading
import numpy as np
from c16_take import layout as relay

K = ["b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]
NUM = K[1:]


def layout(rng, a, how):
    if how == "byte" and a.dtype.itemsize > 1:   # not aligned to its items
        raw = np.zeros(a.nbytes + 16, np.uint8)
        o = rng.choice([1, 2, 3, 7])
        b = raw[o:o + a.nbytes].view(a.dtype)
        b[:] = a
        return b
    if how in ("byte", "ro"):
        b = a.copy()
        b.flags.writeable = False
        return b
    return relay(rng, a, how)


def digest(x):
    """30 bits of everything a caller can see in a result."""
    h = hashlib.sha256()

    def go(x):
        if isinstance(x, (tuple, list)):
            h.update(b"(%d" % len(x))
            for y in x:
                go(y)
        elif isinstance(x, np.ndarray):
            if x.dtype.kind in "fc":
                with np.errstate(all="ignore"):
                    y = np.asarray(x).astype("f8")
                    m = np.isfinite(y) & (y != 0)
                    e = np.floor(np.log10(np.abs(np.where(m, y, 1))))
                    digits = 9 if x.dtype.itemsize > 4 else 4
                    y = np.where(m, np.round(y / 10.0 ** e, digits) * 10.0 ** e, y) + 0.0
                    y = np.where(np.isnan(y), np.nan, y)
                h.update(repr((x.dtype.str, x.shape)).encode() + y.tobytes())
            else:
                h.update(repr((x.dtype.str, x.shape)).encode() + np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (float, np.floating)):
            go(np.array([float(x)]))
        elif isinstance(x, (bool, int, np.integer, np.bool_)):
            h.update(repr(int(x)).encode())
        elif isinstance(x, dict):
            go(sorted(x.items()))
        else:
            h.update(repr(x).encode() if isinstance(x, (str, bytes, type(None))) else type(x).__name__.encode())
    go(x)
    return int.from_bytes(h.digest()[:4], "big") >> 2


class Call:
    """One computation: a name, its argument arrays, and what to do with them."""
    def __init__(self, name, arrays, fn, inout=()):
        self.name, self.arrays, self.fn, self.inout = name, arrays, fn, set(inout)


def values(rng, rs, k, n, small=False):
    if k == "b1":
        return rs.randint(0, 2, n).astype(bool)
    hi = 3 if small else {1: 100, 2: 1000}.get(np.dtype(k).itemsize, 5000)
    a = rs.randint(0 if k[0] == "u" else -hi, hi + 1, n).astype(k)
    if n and rng.random() < 0.4:
        w = rs.randint(0, n, max(1, n // 50))
        a[w] = np.nan if k[0] == "f" else np.iinfo(k).min if k[0] == "i" else np.iinfo(k).max
    return a


def more(rc, rng, rs, n, V, S, u, G, F, key):
    kind = rng.randrange(24)
    g = rs.randint(0, u + 1, n).astype("i4")
    if kind == 0:
        mode = rng.choice([1, 2])
        return Call("categorical", [S() for _ in range(2)], lambda a, b: rc.IsMemberCategorical(a, b, mode, 0))
    if kind == 1:
        return Call("reindex", [rs.randint(0, n, n).astype(rng.choice(["i4", "i8"])), V()], lambda x, a: rc.ReIndex(x, a))
    if kind == 2:
        return Call("reverse", [rs.permutation(n).astype(rng.choice(["i4", "i8"]))], lambda x: rc.ReverseShuffle(x))
    if kind == 3:
        last = rng.randrange(2)
        return Call("first", [g, F()], lambda k, f: rc.MakeiFirst(k, u, f, last))
    if kind == 4:
        return Call("lexgroups", [key()], lambda a: rc.GroupFromLexSort(rc.LexSort32([a]), a))
    if kind == 5:
        x = V(rng.choice(["f4", "f8"]))
        return Call("infs", [x, np.argsort(x, kind="stable").astype("i4")], lambda a, i: rc.NanInfCountFromSort(a, i))
    if kind == 6:
        x = V(rng.choice(["i4", "f8"]))
        e = np.sort(rs.choice(np.arange(-5000, 5000), 20, replace=False)).astype("f8")
        return Call("cutsorted", [x, e, np.argsort(x, kind="stable").astype("i4")],
                    lambda a, e, i: rc.BinsToCutsSorted(a, e, i, rc.NanInfCountFromSort(a, i), 0))
    if kind == 7:
        t = np.cumsum(rs.randint(0, 4, n)).astype("i8")
        f, d = rng.choice([0, 1]), rng.choice([0, 2, 5])
        return Call("window", [V("i4", small=True), t], lambda a, t: rc.TimeWindow(a, t, f, d))
    if kind == 8:
        xp = np.sort(rs.choice(np.arange(-500, 500), 6, replace=False)).astype("f8")
        yp = rs.randint(-50, 50, 6).astype("f8")
        x = V(rng.choice(["f4", "f8"]))
        c = rng.randrange(2)
        return Call("interp", [x], lambda a: rc.InterpExtrap2d(a, xp, yp, c))
    if kind in (9, 10):
        m = rng.choice([n, max(1, n // 2)])
        t1, t2 = np.sort(rs.randint(0, 500, n)).astype("i8"), np.sort(rs.randint(0, 500, m)).astype("i8")
        k1, k2 = rs.randint(0, 4, n).astype("i4"), rs.randint(0, 4, m).astype("i4")
        if kind == 9:
            fwd, ex = rng.randrange(2), rng.randrange(2)
            return Call("align", [k1, k2, t1, t2], lambda a, b, c, d: rc.MultiKeyAlign32((a,), (b,), c, d, bool(fwd), bool(ex)))
        o1, o2 = np.lexsort((t1, k1)), np.lexsort((t2, k2))
        return Call("merge", [k1[o1], k2[o2], t1[o1], t2[o2]], lambda a, b, c, d: rc.MergeBinnedAndSorted(a, b, c, d, 4))
    if kind == 11:
        return Call("hash", [key()], lambda a: rc.MultiKeyHash([a], 0, None))
    if kind == 12:
        return Call("lex64", [V(), V()], lambda a, b: rc.LexSort64([a, b]))
    if kind == 13:
        mode = rng.choice([0, 1, 2])

        def inplace(a):
            b = np.array(a)
            rc.SortInPlace(b, mode)
            return b
        return Call("inplace", [V()], inplace)
    if kind == 14:
        return Call("homogenize", [V("i2"), V("f4"), V("u1")], lambda *c: rc.HomogenizeArrays(list(c), -1))
    if kind == 15:
        return Call("trim", [S()], lambda a: rc.RemoveTrailingSpaces(a))
    if kind == 16:
        return Call("pressed", [V(), V()], lambda *c: rc.CompressDecompressArrays(rc.CompressDecompressArrays(list(c), 0), 1))
    if kind == 17:
        d = np.array([b"2%03d-%02d-%02d" % (rs.randint(0, 99), rs.randint(1, 14), rs.randint(1, 32)) for _ in range(min(n, 1000))], dtype="S10")
        return Call("dates", [d], lambda a: rc.DateStringToNanos(a))
    if kind == 18:
        h, c = rng.choice([0, 100]), rs.randint(0, 4, n).astype("i4")
        return Call("multimember2", [g, c, g[::-1].copy(), c], lambda a, b, d, e: rc.MultiKeyIsMember32((a, b), (d, e), h))
    if kind == 19:
        w, f = rng.choice([0, 1, 2]), 102 if rng.random() < 0.5 else 0
        return Call("counts", [g], lambda k: rc.GroupFromBinCount(k, rc.BinCount(k, u + 1)))
    if kind == 20:
        A = [g, V("f8", small=True), V("i4", small=True)]
        t = np.cumsum(rs.randint(0, 3, n)).astype("i8")
        f = rng.choice([301, 304])
        inc, rst = F(), rs.randint(0, 20, n) == 0
        return Call("ema", A + [t, inc, rst], lambda g, a, b, t, i, r: rc.EmaAll32([a, b], g, u, f, (0.5, t, i, r)))
    if kind == 21:
        p = rc.GroupByPack32(g, None, u)
        f = rng.choice([100, 102, 103, 104])
        return Call("packed", [g, np.asarray(p[0]), np.asarray(p[1]), np.asarray(p[2]), V()],
                    lambda g, a, b, c, v: rc.GroupByAllPack32([v], g, a, b, c, u, [f], [0], [u + 1], 0))
    if kind == 22:
        m = V("f8", 4 * (n // 4)).reshape(4, -1)
        f = rng.choice([0, 102, 200, 202, 204])
        return Call("reduce2", [np.ascontiguousarray(m).ravel()], lambda a: rc.Reduce(a.reshape(4, -1), f))
    w = rng.randrange(2)
    return Call("super2", [key(), key()], lambda a, b: rc.MultiKeyGroupBy32Super([a, b], 0, None))


def calls(rc, rng, rs, n):
    """One random computation on arrays of about n elements."""
    V = lambda k=None, m=n, small=False: values(rng, rs, k or rng.choice(NUM), m, small)
    S = lambda m=n: np.array([b"%d" % x for x in rs.randint(0, 50, m)], dtype="S%d" % rng.choice([2, 5, 8]))
    u = rng.choice([1, 3, 50, 1000])
    G = lambda lo=0: rs.randint(lo, u + 1, n).astype(rng.choice(["i1", "i2", "i4"]) if u < 100 else "i4")
    F = lambda: rs.randint(0, 2, n).astype(bool)
    key = lambda: S() if rng.random() < 0.3 else V("i4", small=rng.random() < 0.5) if rng.random() < 0.5 else rs.randint(-u, u, n).astype(rng.choice(["i1", "i2", "i8", "f4", "f8"]))
    if rng.random() < 0.35:
        return more(rc, rng, rs, n, V, S, u, G, F, key)
    kind = rng.randrange(34)
    if kind <= 3:
        op = rng.choice([1, 2, 3, 6, 7, 10, 101, 401, 402, 403, 404, 405, 406])
        a, b = V(), V()
        how = rng.randrange(4)
        if how == 1:
            b = int(rs.randint(1, 50))
            return Call("two", [a], lambda a: rc.BasicMathTwoInputs((a, b), op, 0))
        if how == 2:
            b = int(rs.randint(1, 50))
            return Call("twoR", [a], lambda a: rc.BasicMathTwoInputs((b, a), op, 0))
        if how == 3:   # the output array is given
            def into(a, b):
                r = rc.BasicMathTwoInputs((a, b), op, 0)
                if not isinstance(r, np.ndarray):
                    return r
                o = np.zeros(len(a), r.dtype)
                rc.BasicMathTwoInputs((a, b, o), op, 0)
                return o
            return Call("twoO", [a, b], into)
        return Call("two", [a, b], lambda a, b: rc.BasicMathTwoInputs((a, b), op, 0))
    if kind <= 6:
        op = rng.choice([201, 202, 204, 205, 206, 207, 208, 214, 301, 601, 603, 604, 605, 606, 611, 701])
        return Call("one", [V()], lambda a: rc.BasicMathOneInput((a,), op, 0))
    if kind <= 9:
        f = rng.choice([0, 1, 102, 103, 106, 107, 108, 109, 200, 201, 202, 203, 204, 205, 206, 207])
        return Call("reduce", [V(small=rng.random() < 0.3)], lambda a: rc.Reduce(a, f))
    if kind <= 12:
        f = rng.choice([0, 1, 2, 3, 4, 5, 50, 51, 52, 53, 54, 55])
        m = rng.choice([1, 1, 2, 5])
        return Call("groupby", [G()] + [V() for _ in range(m)],
                    lambda g, *c: rc.GroupByAll32(list(c), g, u, [f] * m, [0] * m, [u + 1] * m, 0))
    if kind == 13:
        f = rng.choice([100, 102, 103, 104, 200, 202, 203, 205])

        def pack(g, *c):
            p = rc.GroupByPack32(g, None, u)
            return rc.GroupByAllPack32(list(c), g, p[0], p[1], p[2], u, [f] * len(c), [0] * len(c), [u + 1] * len(c), 2)
        return Call("pack", [G()] + [V() for _ in range(rng.choice([1, 3]))], pack)
    if kind == 14:
        f = rng.choice([300, 302, 306, 307, 308, 309])
        return Call("cum", [G(), V("f8", small=True), V("i4", small=True)], lambda g, *c: rc.EmaAll32(list(c), g, u, f, (0.0, None, None, None)))
    if kind <= 16:
        h = rng.choice([0, 100]) if n < 5000 else 0  # a hint far too small only makes large calls slow
        mode = rng.choice([0, 1, 2])
        w = rng.randrange(4)
        if w == 0:
            return Call("gb", [key(), key()], lambda a, b: rc.MultiKeyGroupBy32([a, b], h, None, mode))
        if w == 1:
            return Call("uniq", [key(), F()], lambda a, f: rc.MultiKeyUnique32([a], h, f))
        if w == 2:
            return Call("super", [key()], lambda a: rc.MultiKeyGroupBy32Super([a], h, None))
        return Call("gbf", [key(), F()], lambda a, f: rc.MultiKeyGroupBy32([a], h, f, mode))
    if kind <= 18:
        k = rng.choice(["i1", "i2", "i4", "i8", "f4", "f8", "S"])
        mk = lambda m: S(m) if k == "S" else rs.randint(-100, 100 if k == "i1" else 1000, m).astype(k)
        mode = rng.choice([1, 2])
        a, b = mk(n), mk(rng.choice([n, max(1, n // 3)]))
        if rng.random() < 0.3:
            return Call("multimember", [a, b], lambda a, b: rc.MultiKeyIsMember32((a,), (b,), 0))
        return Call("member", [a, b], lambda a, b: rc.IsMember32(a, b, mode, 0))
    if kind == 19:
        k = rng.choice(NUM + ["S"])
        m = rng.choice([1, 2])
        return Call("lex", [S() if k == "S" else V(k) for _ in range(m)], lambda *c: rc.LexSort32(list(c)))
    if kind == 20:
        mode = rng.choice([0, 1, 2])
        return Call("sort", [V()], lambda a: rc.Sort(a, mode))
    if kind == 21:
        return Call("sorted", [np.sort(V("f8"))], lambda a: rc.IsSorted(a))
    if kind == 22:
        w = rng.randrange(3)
        return Call("mask", [F()], lambda m: rc.BooleanSum(m) if w == 0 else rc.BooleanToFancy(m) if w == 1 else rc.BooleanToFancy(m, both=True))
    if kind == 23:
        return Call("index", [V(), F()], lambda a, m: rc.BooleanIndex(a, m))
    if kind == 24:
        return Call("get", [V(), rs.randint(-n, n, n).astype(rng.choice(["i4", "i8"]))], lambda a, x: rc.MBGet(a, x))
    if kind == 25:
        k = rng.choice(NUM)
        return Call("where", [F(), V(k), V(k)], lambda m, a, b: rc.Where(m, (a, b), a.dtype.num, a.dtype.itemsize))
    if kind == 26:
        w = rng.randrange(3)
        k = rng.choice(NUM)
        v = V(k, 1)

        def put(a, m):
            a = np.array(a)
            ok = rc.SetItem(a, m, v) if w else rc.PutMask(a, m, v)
            return a if ok else None
        return Call("put", [V(k), F()], put)
    if kind == 27:
        w = rng.randrange(3)
        if w == 0:
            return Call("bincount", [G()], lambda g: rc.BinCount(g, u + 1, pack=True))
        if w == 1:
            return Call("next", [G()], lambda g: rc.MakeiNext(g, u, 0))
        return Call("pack32", [G()], lambda g: rc.GroupByPack32(g, None, u))
    if kind == 28:
        w = rng.randrange(2)
        return Call("filter", [G(), F()], lambda g, f: rc.CombineFilter(g, f) if w else rc.CombineAccum1Filter(g, u, f))
    if kind == 29:
        g2 = rs.randint(0, 5, n).astype("i1")
        return Call("accum2", [G(), g2, F()], lambda a, b, f: rc.CombineAccum2Filter(a, b, u, 4, f))
    if kind == 30:
        e = np.sort(rs.choice(np.arange(-5000, 5000), 20, replace=False)).astype("f8")
        mode = rng.choice([0, 1, 2])
        return Call("cuts", [V(), e], lambda a, e: rc.BinsToCutsBSearch(a, e, mode))
    if kind == 31:
        f, w = rng.choice([0, 1, 102, 103, 106, 107]), rng.choice([1, 3, 20])
        return Call("rolling", [V(rng.choice(["i4", "i8", "f8"]), small=True)], lambda a: rc.Rolling(a, f, w))
    if kind == 32:
        w = rng.randrange(3)
        if w == 0:
            return Call("stack", [V(), V(), V()], lambda *c: rc.HStack(list(c)))
        if w == 1:
            return Call("bits", [V("i4")], lambda a: rc.BitCount(a))
        return Call("crc", [V("u1")], lambda a: rc.CalculateCRC(a))
    t = rng.choice(["i2", "i4", "i8", "f4", "f8"])
    w = rng.randrange(2)
    return Call("convert", [V("i1")], lambda a: (rc.ConvertSafe if w else rc.ConvertUnsafe)(a, np.dtype(t).num))


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    sizes = [3, 40, 1000, 33000, 33000, 40000, 70001]

    def run(c, arrays):
        try:
            r = c.fn(*arrays)
            return "left to numpy" if r is None else digest(r)
        except (ValueError, TypeError, KeyError, IndexError) as e:
            return "%s: %s" % (type(e).__name__, e)

    def again(i, c, lay, crowd=0):
        arrays = [layout(rng, a, lay) for a in c.arrays]
        before = [a.tobytes() for a in arrays]
        rec.pend("call", {"id": i, "f": c.name, "lay": lay})
        r = run(c, arrays)
        keep = int(all(x == y.tobytes() for x, y in zip(before, arrays)))
        emit(i, c, lay, r, keep, crowd)

    def emit(i, c, lay, r, keep, crowd):
        err = isinstance(r, str)
        rec.emit("call", {"id": i, "f": c.name, "n": len(c.arrays[0]), "k": [a.dtype.str for a in c.arrays], "lay": lay, "crowd": crowd},
                 {"r": digest(r) if err else r, "err": int(err), "keep": keep, "what": r if err else ""})

    def history(size, ncalls, steps):
        rec.emit("begin", {}, {})
        cs = [calls(rc, rng, rs, rng.choice(size)) for _ in range(ncalls)]
        for i, c in enumerate(cs):
            again(i, c, "plain")
        for _ in range(steps):
            x = rng.random()
            if x < 0.08:
                v = rng.randrange(2)
                rec.emit("threads", {"off": v}, int(rc.ThreadingMode(v)))
            elif x < 0.2:
                v = rng.choice([-3, 0, 1, 1, 2, 3, 5, 8, 31, 32, 100])
                rec.emit("wake", {"n": v}, int(rc.SetThreadWakeUp(v)))
                rec.emit("wakeful", {}, int(rc.GetThreadWakeUp()))
            elif x < 0.24:
                v = rng.randrange(2)
                rec.emit("recycle", {"off": v}, int(rc.SetRecycleMode(v)))
            elif x < 0.27:
                v = rng.choice([0, 1, 100, 400])
                rec.emit("collect", {"t": v}, int(rc.RecycleSetGarbageCollectTimeout(v)))
            elif x < 0.33:      # several Python threads at once
                todo = [[rng.randrange(ncalls) for _ in range(rng.choice([2, 5]))] for _ in range(rng.choice([2, 3, 4]))]
                out = []
                rec.pend("crowd", {"todo": todo})

                def work(js):
                    for j in js:
                        k = cs[j]
                        before = [a.tobytes() for a in k.arrays]
                        r = run(k, k.arrays)
                        out.append((j, r, int(all(x == y.tobytes() for x, y in zip(before, k.arrays)))))
                ts = [threading.Thread(target=work, args=(js,)) for js in todo]
                [t.start() for t in ts]
                [t.join() for t in ts]
                for j, r, keep in out:
                    emit(j, cs[j], "plain", r, keep, 1)
            else:
                i = rng.randrange(ncalls)
                again(i, cs[i], rng.choice(["plain", "plain", "odd", "byte", "ro", "strided", "back"]))
        rc.ThreadingMode(0)
        rc.SetThreadWakeUp(11)
        rc.SetRecycleMode(0)

    import sys
    sys.setswitchinterval(1e-5)
    reps = 10 if tier == "quick" else 60
    for _ in range(reps):
        history([3, 9, 40, 200], 25, 200)
    for _ in range(reps):
        history([1000, 33000, 33000, 40000, 70001], 8, 50)
