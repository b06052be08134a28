PID = "C16"
TECHNIQUE = 'TLA+ specification of reading rows by mask, index and permutation; TLC checks the parallel selection design model and validates every recorded call'
LEVEL_NOTE = 'Every recorded take (every item size, index type, unroll tail, strided and threaded sizes) is judged by Take.tla; the chunk-count/offset design is checked exhaustively for small sizes. Trusts TLC and the value coding.'
TRACE = "TakeTrace"
MODELS = [{"spec": "TakeMC", "workers": 2, "thorough_cfg": "TakeMC_thorough.cfg"}]
ASSUMPTIONS = ["ReIndex is given indexes in range and ReverseShuffle a permutation", "group keys and cutoffs given to ReIndexGroups are contiguous"]
import numpy as np
from recorder import INV, enc, encpal

NUM = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "b1"]
STR = ["S1", "S2", "S3", "S4", "S5", "S7", "S8", "S9", "S15", "S16", "S17", "S24", "S33", "U1", "U2", "U3", "U4", "U5", "U9"]
INDEX = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]


def pal(kind):
    """Code 0 is the empty string; the others differ from each other in their first, last or a middle character only."""
    w = int(kind[1:])
    out = [""]
    for c in "ABCDE":
        out += [c + "x" * (w - 1), "x" * (w - 1) + c, "x" * (w // 2) + c + "x" * (w - w // 2 - 1)]
    return np.array(sorted(set(out)), dtype=kind)


def values(rng, rs, kind, n):
    """(codes, array)"""
    if kind[0] in "SU":
        p = pal(kind)
        c = rs.randint(0, len(p), n)
        return c.tolist(), p[c]
    hi = 2 if kind == "b1" else 100
    c = rs.randint(0, hi, n)
    return c.tolist(), c.astype(kind)


def layout(rng, a, how):
    """The same values at an odd offset, strided or reversed in memory."""
    n = len(a)
    if how == "plain":
        return a
    if how == "odd":
        b = np.empty(n + 3, a.dtype)
        b[3:] = a
        return b[3:]
    if how == "back":
        return a[::-1].copy()[::-1]
    k = rng.choice([2, 3, 5])
    b = np.empty(n * k + 1, a.dtype)
    b[:] = a[0] if n else b[:1]
    b[1::k][:n] = a
    return b[1::k][:n]


LAY = ["plain", "plain", "odd", "strided", "strided", "back"]


def decode(kind, r):
    r = np.asarray(r)
    if kind[0] in "SU":
        if r.dtype != np.dtype(kind):
            raise TypeError("type %s" % r.dtype)
        return encpal(r, pal(kind))
    if r.dtype != np.dtype(kind):
        raise TypeError("type %s" % r.dtype)
    return enc(r)


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"

    def same(*pairs):
        return int(all(a.tobytes() == b for a, b in pairs))

    def masks(n):
        p = rng.choice([0.0, 0.05, 0.5, 0.5, 0.95, 1.0])
        return rs.random_sample(n) < p

    def one(kind, n):
        c, a = values(rng, rs, kind, n)
        a = layout(rng, a, rng.choice(LAY))
        m = layout(rng, masks(n), rng.choice(LAY))
        cum = np.cumsum(m).tolist()
        ml = m.astype(int).tolist()
        keep = [(a, a.tobytes()), (m, m.tobytes())]
        may = int((n > 1 and a.strides[0] < 0) or (n > 1 and m.strides[0] < 0))
        may = 0
        f = rc.BooleanIndex if rng.random() < 0.7 else rc.MBGet
        rec.call("mask", {"v": c, "m": ml, "cum": cum, "k": kind, "may": may, "s": [a.strides[0] if n else 0, m.strides[0] if n else 0]},
                 lambda: f(a, m), lambda r: {"r": decode(kind, r), "same": same(*keep)})
        if rng.random() < 0.4:
            rec.call("sum", {"m": ml, "cum": cum, "may": may}, lambda: rc.BooleanSum(m), lambda r: {"r": int(r)})
            rec.call("positions", {"m": ml, "cum": cum, "may": may}, lambda: rc.BooleanToFancy(m), lambda r: {"r": enc(r)})
            rec.call("both", {"m": ml, "cum": cum, "may": may}, lambda: rc.BooleanToFancy(m, both=True),
                     lambda r: {"r": enc(r[0]), "n": int(r[1])})

    def index(kind, ik, n, k):
        c, a = values(rng, rs, kind, n)
        a = layout(rng, a, rng.choice(LAY))
        info = np.iinfo(ik)
        lo, hi = max(info.min, -n - 3), min(info.max, n + 3)
        x = rs.randint(lo, hi + 1, k).astype(ik)
        edge = [v for v in (0, 1, n - 1, n, n + 1, -1, -n, -n - 1, info.min, info.max, info.max // 2 + 1, 127, 128, 200, 255) if info.min <= v <= info.max]
        for i in rng.sample(range(k), min(k, 8)):
            x[i] = rng.choice(edge)
        codes = [int(max(-10 ** 9, min(10 ** 9, v))) for v in x.tolist()]
        x = layout(rng, x, rng.choice(LAY))
        keep = [(a, a.tobytes()), (x, x.tobytes())]
        args, d = (), (0 if kind[0] in "SU" or kind == "b1" else INV)
        if rng.random() < 0.4:
            if kind[0] in "SU":
                d = rng.randrange(len(pal(kind)))
                v = pal(kind)[d]
                args = (v.item(),)
            elif kind != "b1":
                d = rng.randrange(100)
                args = (d,) if kind[0] != "f" or rng.random() < 0.5 else (float(d),)
        rec.call("index", {"v": c, "x": codes, "def": d, "k": kind, "ik": ik, "may": 0}, lambda: rc.MBGet(a, x, *args),
                 lambda r: {"r": decode(kind, r), "same": same(*keep)})

    def reorder(kind, n):
        c, a = values(rng, rs, kind, n)
        a = layout(rng, a, rng.choice(["plain", "odd", "strided"]))
        ik = rng.choice(["i4", "i8"])
        x = (rs.permutation(n) if rng.random() < 0.5 else rs.randint(0, n, n)).astype(ik)
        keep = [(a, a.tobytes()), (x, x.tobytes())]
        rec.call("reorder", {"v": c, "x": x.tolist(), "k": kind, "may": 0}, lambda: rc.ReIndex(x, a),
                 lambda r: {"r": decode(kind, r), "same": same(*keep)})

    def inverse(n):
        ik = rng.choice([t for t in ("i1", "i2", "i4", "i8") if n - 1 <= np.iinfo(t).max])
        x = rs.permutation(n).astype(ik)
        rec.call("inverse", {"x": x.tolist(), "may": 0}, lambda: rc.ReverseShuffle(x), lambda r: {"r": enc(r)})

    def rekey(parts, rows):
        kt = rng.choice(["i1", "i2", "i4", "i8"])
        us = [rng.choice([0, 1, 3, 10, 20]) for _ in range(parts)]
        ns = [rng.choice([0, 1, rows]) for _ in range(parts)]
        ucut, icut = np.cumsum(us).astype("i8"), np.cumsum(ns).astype("i8")
        u = rs.randint(1, 100, int(ucut[-1])).astype("i4")
        k = np.concatenate([rs.randint(0, m + 1, n) for m, n in zip(us, ns)]).astype(kt)
        if rng.random() < 0.3 and len(k):
            k[rng.randrange(len(k))] = rng.choice([-1, 127, np.iinfo(kt).min])
        kl = [max(-10 ** 9, v) for v in k.tolist()]
        rec.call("rekey", {"k": kl, "u": u.tolist(), "ucut": ucut.tolist(), "icut": icut.tolist(), "may": 0},
                 lambda: rc.ReIndexGroups(k, u, ucut, icut), lambda r: {"r": enc(r)})

    def shaped(kind):
        """Two-dimensional views: either the rows in C order or a refusal."""
        h, w = rng.choice([(1, 7), (3, 4), (5, 1), (4, 9)])
        c, a = values(rng, rs, kind, h * w)
        m = masks(h * w)
        cum = np.cumsum(m).tolist()

        def shape(x):
            how = rng.choice("CFSX")
            x = x.reshape(h, w)
            if how == "F":
                return np.asfortranarray(x)
            if how == "S":
                b = np.empty((h, 2 * w), x.dtype)
                b[:, ::2] = x
                return b[:, ::2]
            if how == "X":
                b = np.empty((2 * h, w + 2), x.dtype)
                b[::2, 1:-1] = x
                return b[::2, 1:-1]
            return x
        a, m2 = shape(a), shape(m)
        ml = m.astype(int).tolist()
        rec.call("mask", {"v": c, "m": ml, "cum": cum, "k": kind, "may": 1}, lambda: rc.BooleanIndex(a, m2),
                 lambda r: {"r": decode(kind, r), "same": 1})
        rec.call("sum", {"m": ml, "cum": cum, "may": 1}, lambda: rc.BooleanSum(m2), lambda r: {"r": int(r)})
        rec.call("positions", {"m": ml, "cum": cum, "may": 1}, lambda: rc.BooleanToFancy(m2), lambda r: {"r": enc(r)})
        x = rs.randint(-h * w, h * w, 9).astype("i8")
        rec.call("index", {"v": c, "x": x.tolist(), "def": 0, "k": kind, "may": 1}, lambda: rc.MBGet(a, x),
                 lambda r: {"r": decode(kind, r), "same": 1})

    rec.emit("begin", {}, {})
    small = list(range(0, 35)) + [63, 64, 65, 100, 128, 250]
    for it in range(2 if quick else 20):
        for j, kind in enumerate(NUM + STR):
            if (j + it) % nshards == shard or not quick:
                for n in rng.sample(small, 7):
                    one(kind, n)
                for ik in INDEX:
                    index(kind, ik, rng.choice([1, 2, 9, 120, 127, 128, 129, 200, 256, 300]), rng.choice([0, 1, 3, 8, 31, 60]))
                reorder(kind, rng.choice([1, 2, 17, 90]))
                shaped(kind)
        for n in (1, 2, 100, 128, 300):
            inverse(n)
        for parts in (1, 2, 5, 40):
            rekey(parts, rng.choice([3, 30]))
    # sizes that are split over threads
    big = [16384, 16385, 32767, 32768, 32776, 33000, 40003]
    for it in range(3 if quick else 25):
        kind = rng.choice(NUM) if rng.random() < 0.6 else rng.choice(STR)
        one(kind, rng.choice(big))
        if it % 2 == 0:
            index(rng.choice(NUM + STR), rng.choice(INDEX), rng.choice([50, 300, 40000]), rng.choice(big))
            reorder(rng.choice(NUM + STR), rng.choice(big))
            inverse(rng.choice(big))
