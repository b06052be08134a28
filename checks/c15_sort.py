PID = "C15"
TECHNIQUE = 'TLA+ sorting specification; TLC checks the parallel merge design model and validates every recorded sort'
LEVEL_NOTE = 'Every recorded sort (all types, key lists, directions, partitions, starting indexes, threaded sizes) is accepted by Sorting.tla only if it is the stable permutation; the parallel merge is checked exhaustively in SortingMC.tla within small bounds. Trusts TLC and the rank coding.'
TRACE = "SortingTrace"
MODELS = [{"spec": "SortingMC", "workers": 4, "thorough_cfg": "SortingMC_thorough.cfg"}]
ASSUMPTIONS = ["raw bytes (void) have no documented order: only grouping, stability and agreement with IsSorted are required",
               "a starting index lists distinct rows within the array"]
import itertools
import numpy as np

K = ["b1", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "f16", "S1", "S2", "S3", "S5", "S9", "U1", "U2", "U4"]


def pool(rng, kind):
    """distinct values of a type in ascending order"""
    if kind == "b1":
        return np.array([False, True])
    c = kind[0]
    if c in "iu":
        lo, hi = np.iinfo(kind).min, np.iinfo(kind).max
        return np.array(sorted({lo, lo + 1, hi, hi - 1, 0, 1, 2, 5, hi // 2, hi // 2 + 1} | ({-1, -2} if c == "i" else set())), kind)
    if c == "f":
        return np.array([-np.inf, -1e30, -2.5, -1, 0, 0.25, 1, 3, 1e30, np.inf], kind)
    w = int(kind[1:])
    al = [b"a", b"b", b"\x7f", b"\x80", b"\xff"] if c == "S" else ["a", "b", "\u00ff", "\u0100", "\U0001F600"]
    e = b"" if c == "S" else ""
    v = {e} | {x for x in al} | {e.join(t)[:w] for t in itertools.product(al[:3] + al[4:], repeat=min(w, 2))} | \
        {al[0] * (w - 1) + x for x in al} | {x + al[0] * (w - 1) for x in al} | {al[1] * w, al[0] * w}
    return np.array(sorted(v), kind)


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from recorder import INV, enc
    rng = rec.rng

    def col(kind, n, distinct=None, pnan=0.0):
        p = pool(rng, kind)
        m = len(p)
        sub = np.array(sorted(rng.sample(range(m), min(m, distinct or rng.choice([2, 3, m])))))
        c = sub[rec.np.randint(0, len(sub), n)]
        a = p[c]
        c = c.astype(np.int64)
        if kind[0] == "f" and pnan:
            q = rec.np.random_sample(n) < pnan
            a[q] = np.nan
            c[q] = INV
        return a, c.tolist()

    def strided(a):
        b = np.repeat(a, 2)
        b[1::2] = a[::-1]
        return b[::2]

    def lex(kinds, n, big=False, pnan=None):
        pn = rng.choice([0, 0, 0.2, 1.0]) if pnan is None else pnan
        cs = [col(k, n, None if not big else 6, pn) for k in kinds]
        arrs = [strided(a) if not big and rng.random() < 0.15 else a for a, _ in cs]
        cols = [c for _, c in cs]
        w = rng.choice([32, 64])
        fn = rc.LexSort32 if w == 32 else rc.LexSort64
        kw, asc = {}, [1] * len(kinds)
        d = rng.choice(["none", "one", "list"])
        if d == "one":
            asc = [rng.randrange(2)] * len(kinds)
            kw["ascending"] = bool(asc[0])
        elif d == "list":
            asc = [rng.randrange(2) for _ in kinds]
            kw["ascending"] = np.array(asc, bool)
        cuts = [n]
        mode = rng.choice(["", "", "cuts", "index"]) if not big else rng.choice(["", "", "cuts"])
        if mode == "cuts":
            cuts = sorted(rng.choice([rng.randint(0, n), rng.randint(0, n), 0, n]) for _ in range(rng.choice([0, 1, 2, 5]))) + [n]
            kw["cutoffs"] = np.array(cuts, "i8")
        arg = {"cols": cols, "asc": asc, "cuts": cuts, "d": kinds, "w": w}
        before = [x.tobytes() for x in arrs]

        def call():
            r = fn(list(arrs), **kw)
            return r, int(before == [x.tobytes() for x in arrs])
        if mode == "index":
            start = rng.sample(range(n), rng.randint(1, n))
            kw["index"] = np.array(start, "i4" if w == 32 else "i8")
            arg["start"] = start
            rec.call("index", arg, call, lambda r: {"idx": enc(r[0], False), "keep": r[1]})
        else:
            rec.call("lex", arg, call, lambda r: {"idx": enc(r[0], False), "keep": r[1]})

    def values(kind, n, mode, inplace, distinct=None, form=""):
        a, c = col(kind, n, distinct, rng.choice([0, 0.2]))
        m = len(pool(rng, kind))
        p = pool(rng, kind)
        x = a.copy()
        if form == "strided":
            x = strided(x)
        elif form == "2d" and n % 2 == 0:
            x = np.asfortranarray(x.reshape(2, n // 2))
        before = x.tobytes()
        ok = int(kind[0] not in "SU" and form == "" or (kind[0] not in "SU" and not inplace))
        arg = {"x": c, "m": m, "d": kind, "mode": mode, "ok": ok, "inplace": int(inplace), "form": form}

        def code(y):
            y = np.asarray(y).reshape(-1)
            if y.dtype != p.dtype:
                return [1999999998]
            j = np.searchsorted(p, y)
            j[j >= m] = 0
            out = np.where(p[j] == y, j, 1999999998)
            if kind[0] == "f":
                out[np.isnan(y)] = INV
            return out.tolist()

        def run():
            y = (rc.SortInPlace if inplace else rc.Sort)(x, mode)
            return {"y": code(y), "keep": int(x.tobytes() == (y.tobytes() if inplace else before))}
        rec.call("values", arg, run, lambda r: r)

    def issorted(kind, n, big=False):
        a, c = col(kind, n, None if not big else 4, rng.choice([0, 0, 0.1, 0.5]))
        c = np.array(c)
        if rng.random() < 0.8:
            o = np.argsort(c, kind="stable")
            a, c = a[o].copy(), c[o].copy()
            if n > 1 and rng.random() < 0.6:   # one inversion at a chosen place
                ch = np.where(c[1:] != c[:-1])[0]
                spots = [i for i in (16383, 16384, 32767, n - 2, 0) if i < n - 1]
                i = int(rng.choice(ch.tolist())) if len(ch) and rng.random() < 0.5 else rng.choice(spots)
                if c[i] == c[i + 1]:
                    hi = np.where((c > c[i]) & (c != INV))[0]
                    if len(hi):
                        a[i], c[i] = a[hi[-1]], c[hi[-1]]
                else:
                    a[[i, i + 1]], c[[i, i + 1]] = a[[i + 1, i]], c[[i + 1, i]]
        rec.call("issorted", {"x": c.tolist(), "d": kind}, lambda: rc.IsSorted(a), lambda r: int(bool(r)))

    rec.emit("begin", {}, {})
    sizes = [1, 2, 3, 5, 8, 15, 16, 17, 18, 20, 21, 31, 32, 33, 40, 64, 65, 130, 257]
    # every small column over three ranks
    c = 0
    for n in range(1, 5):
        for x in itertools.product(range(3), repeat=n):
            c += 1
            if c % nshards != shard:
                continue
            k = rng.choice(["i4", "i8", "f8", "S3", "U2", "u1", "f4"])
            p = pool(rng, k)
            o = rng.randrange(len(p) - 2)
            a, cs = p[[v + o for v in x]], list(x)
            s = rng.randrange(2)
            fn = rng.choice([rc.LexSort32, rc.LexSort64])
            rec.call("lex", {"cols": [cs], "asc": [s], "cuts": [n], "d": k}, lambda: fn([a], ascending=bool(s)), lambda r: {"idx": enc(r, False), "keep": 1})
            rec.call("issorted", {"x": cs, "d": k}, lambda: rc.IsSorted(a), lambda r: int(bool(r)))
    reps = 6 if tier == "quick" else 60
    for it in range(reps):
        for k in K:
            lex([k], rng.choice(sizes))
            issorted(k, rng.choice(sizes))
            values(k, rng.choice(sizes), rng.choice([1, 2, 3]), rng.random() < 0.5, None, rng.choice(["", "", "", "strided", "2d"]))
        for _ in range(8):
            lex([rng.choice(K) for _ in range(rng.choice([2, 2, 3, 4]))], rng.choice(sizes))
        for w in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, rng.randint(10, 40)):
            n = rng.choice(sizes) if it or w % 8 != shard % 8 else 33000
            v = np.frombuffer(rec.np.bytes(w * 6), "V%d" % w)
            ci = rec.np.randint(0, 6, n)
            a = v[ci]
            u = [x.tobytes() for x in v]
            codes = [u.index(u[i]) for i in ci]

            def call():
                b = a.tobytes()
                r = rc.LexSort32([a])
                return {"idx": enc(r, False), "keep": int(b == a.tobytes()), "sorted": int(bool(rc.IsSorted(a[r])))}
            rec.call("void", {"x": codes, "w": w}, call, lambda r: r)
        n, m = rng.choice(sizes), rng.choice([1, 3, 10, 40])
        s = rng.sample(range(m), m)
        x = [rng.randrange(m) for _ in range(n)]
        t1, t2 = rng.choice([("i4", "i4"), ("i4", "i8"), ("i8", "i8")])
        rec.call("indirect", {"x": x, "sort": s, "d": [t1, t2]}, lambda: rc.SortInPlaceIndirect(np.array(x, t1), np.array(s, t2)), lambda r: enc(r, False))
    # sizes beyond the threading threshold
    for j in range(2 if tier == "quick" else 20):
        n = rng.choice([32767, 32768, 32769, 40001, 65537])
        lex([K[(shard + 8 * j + rng.randrange(3) * 8) % len(K)]], n, True)
        issorted(rng.choice(K), rng.choice([32768, 32769, 40001, 65537]), True)
    lex([rng.choice(K), rng.choice(K)], 33000, True)
    lex([["U1", "U2", "U4", "S1", "S2", "S3", "S5", "S9"][(shard + rec.seed) % 8]], rng.choice([32768, 33000, 40001]), True)
    # presorted and reversed runs, so that whole blocks are copied by the merges
    n = rng.choice([32768, 40007])
    k = rng.choice(["i4", "f8", "i8", "f4", "u2", "S5"])
    p = pool(rng, k)
    cs = np.sort(rec.np.randint(0, len(p), n))
    if rng.random() < 0.5:
        cs = cs[::-1].copy()
    a = p[cs]
    rec.call("lex", {"cols": [cs.tolist()], "asc": [1], "cuts": [n], "d": k}, lambda: rc.LexSort32([a]), lambda r: {"idx": enc(r, False), "keep": 1})
    values(rng.choice([k for k in K if k[0] not in "SU"]), rng.choice([32768, 40000]), 1 + shard % 3, shard % 2 == 0, 5)
