PID = "C14"
TECHNIQUE = "TLA+ packing specification; TLC checks the parallel counting-sort design model and validates every recorded packing, row chain, bin count and sorted grouping"
LEVEL_NOTE = "Every recorded call (exhaustive small keys, randomized types, threaded sizes) is a step of Packing.tla; the parallel scatter is checked exhaustively in PackingMC.tla within small bounds. Trusts TLC and the value coding."
TRACE = "PackingTrace"
MODELS = [{"spec": "PackingMC", "workers": 3, "thorough_cfg": "PackingMC_thorough.cfg"}]
ASSUMPTIONS = ["key, count and index arrays are contiguous", "GroupByPack32 with a next array is given groups numbered by first appearance, as the grouping functions number them"]
import itertools
import numpy as np

KT = ["i1", "i2", "i4", "i8"]


def packing(k, nb):
    k = np.asarray(k)
    o = np.argsort(k, kind="stable")
    o = o[(k[o] >= 0) & (k[o] < nb)]
    c = np.bincount(k[o], minlength=nb) if len(o) else np.zeros(nb, int)
    f = np.concatenate([[0], np.cumsum(c)[:-1]]) if nb else np.zeros(0, int)
    return o.tolist(), f.tolist(), c.tolist()


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from keys import KINDS, coded, column, ncodes
    from recorder import enc
    rng = rec.rng

    def E(*names):
        return lambda r: {"len": len(r), **{n: enc(x) for n, x in zip(names, r)}}

    def key(k, t):
        return np.array(k, dtype=t)

    def nexts(k, nb, t):
        for back in (0, 1):
            rec.call("next", {"k": k, "nb": nb, "back": back, "d": t}, lambda: rc.MakeiNext(key(k, t), nb - 1, back), enc)

    def counts(k, nb, t, reps=1):
        rows, first, _ = packing(k, nb)
        seen = set()
        for _ in range(reps):
            try:
                s = repr(enc(rc.BinCount(key(k, t), nb)))
            except Exception as e:
                s = repr(e)
            if s not in seen:
                seen.add(s)
                rec.call("count", {"k": k, "nb": nb, "first": first, "rows": rows, "d": t}, lambda: eval(s), list)

    def packs(k, nb, t, reps=1):
        # every row must have a group here
        K = key(k, t)
        _, _, c = packing(k, nb)
        C = np.array(c, "i4")
        fns = [("bincount", lambda: (lambda r: {"count": enc(r[0]), "rows": enc(r[1]), "first": enc(r[2])})(rc.BinCount(K, nb, pack=True))),
               ("frombincount", lambda: (lambda r: {"count": c, "rows": enc(r[0]), "first": enc(r[1])})(rc.GroupFromBinCount(K, C)))]
        if nb > 1:
            fns.append(("pack32", lambda: (lambda r: {"rows": enc(r[0]), "first": enc(r[1]), "count": enc(r[2])})(rc.GroupByPack32(K, None, nb - 1))))
        for name, fn in fns:
            seen = []
            for _ in range(reps):
                r = fn()
                if r not in seen:
                    seen.append(r)
                    rec.call("pack", {"k": k, "nb": nb, "f": name, "d": t}, lambda: r, lambda x: x)

    def packnext(k, nb, t):
        # groups numbered by first appearance
        m, kk = {0: 0}, []
        for x in k:
            kk.append(m.setdefault(x, len(m)))
        u = len(m) - 1
        nx, last = [-1] * len(kk), {}
        for i, x in enumerate(kk):
            if x in last:
                nx[last[x]] = i
            last[x] = i
        rec.call("packnext", {"k": kk, "nb": u + 1, "d": t}, lambda: rc.GroupByPack32(key(kk, t), key(nx, "i4"), u), E("rows", "first", "count"))

    def lexorder(vals):
        return np.argsort(np.array(vals), kind="stable")

    def lex(kind, codes, it, base, sub=None):
        A = column(rng, kind, codes)
        v = coded(A.view("V%d" % A.dtype.itemsize).view("S%d" % A.dtype.itemsize) if False else np.array(codes))[0]
        rows = list(range(len(codes))) if sub is None else sub
        # any order that keeps equal values together will do: scramble the groups
        perm = list(range(max(codes) + 1)) if codes else []
        rng.shuffle(perm)
        order = sorted(rows, key=lambda i: (perm[codes[i]], i))
        if rng.random() < 0.3:
            order = sorted(rows, key=lambda i: (perm[codes[i]], -i))
        I = np.array(order, dtype=it)
        def f():
            r = rc.GroupFromLexSort(I, A, base_index=base) if base == 0 else rc.GroupFromLexSort(I, A)
            return r[0][I] if len(I) else r[0][:0], r[1], r[2]
        rec.call("lex", {"v": v, "order": order, "base": base, "d": [kind, it]}, f, E("key", "first", "count"))

    def lexcut(kind, codes, it, cuts):
        A = column(rng, kind, codes)
        order, lo = [], 0
        for c in cuts:
            order += sorted(range(c - lo), key=lambda i: codes[lo + i])
            lo = c
        I = np.array(order, dtype=it)
        def f():
            r = rc.GroupFromLexSort(I, A, cutoffs=np.array(cuts, "i8"))
            return list(r) + [I]
        rec.call("lexcut", {"v": codes, "order": order, "cuts": cuts, "d": [kind, it]}, f, E("key", "first", "count", "uniq", "after"))

    rec.emit("begin", {}, {})
    c = 0
    NB = 3
    for n in range(1, 6):
        for k in itertools.product(range(NB), repeat=n):
            c += 1
            if c % nshards != shard or (tier == "quick" and n == 5 and (c // nshards) % 3):
                continue
            k = list(k)
            t = KT[c // nshards % 4]
            nexts(k, NB, t)
            packs(k, NB, t)
            packnext(k, NB, t)
            counts(k, NB, t)
            kind = rng.choice(KINDS)
            off = rng.randrange(max(1, ncodes(kind) - 2))
            lex(kind, [min(x + off, ncodes(kind) - 1) for x in k], rng.choice(["i4", "i8"]), rng.choice([0, 1, 1]),
                sorted(rng.sample(range(n), rng.randrange(n + 1))) if rng.random() < 0.2 else None)
            cuts = sorted(rng.choice(range(n + 1)) for _ in range(rng.choice([0, 1, 2]))) + [n]
            lexcut(kind, [min(x + off, ncodes(kind) - 1) for x in k], rng.choice(["i4", "i8"]), cuts)
    # rows without a group, unused groups, sizes near vector and type limits
    for it in range(2 if tier == "quick" else 12):
        for t in KT:
            for n in [0, 1, 2, 7, 127, 128, 129, 130, 300, 2000]:
                nb = rng.choice([1, 2, 5, 40, 120])
                k = rec.np.randint(-2, nb + 3, n).tolist()
                if n and nb > 1:
                    nexts(k, nb, t)
                if n:
                    counts(k, nb, t)
                k = rec.np.randint(0, nb, n).tolist()
                if n:
                    packs(k, nb, t)
                    packnext(k, nb, t)
        for kind in KINDS:
            n = rng.choice([1, 3, 17, 200])
            m = min(ncodes(kind), rng.choice([1, 2, 9, 30]))
            codes = rec.np.randint(0, m, n).tolist()
            lex(kind, codes, rng.choice(["i4", "i8"]), rng.choice([0, 1]), None if rng.random() < 0.6 else sorted(rng.sample(range(n), rng.randrange(n + 1))))
            lexcut(kind, codes, rng.choice(["i4", "i8"]), sorted(rng.randrange(n + 1) for _ in range(rng.choice([1, 3, 12]))) + [n])
    if shard == 0:
        lex("i4", [], "i4", 1)
        lex("S3", [], "i8", 0)
        for t in ("u1", "u4", "f4", "f8", "b1", "u8"):
            k = np.zeros(5, t)
            rec.call("badkey", {"d": t, "f": "BinCount"}, lambda: rc.BinCount(k, 1), enc)
            rec.call("badkey", {"d": t, "f": "GroupFromBinCount"}, lambda: rc.GroupFromBinCount(k, np.array([5], "i4")), lambda r: 0)
            rec.call("badkey", {"d": t, "f": "MakeiNext"}, lambda: rc.MakeiNext(k, 1, 0), enc)
            rec.call("badkey", {"d": t, "f": "pack32"}, lambda: rc.GroupByPack32(k, None, 1), lambda r: 0)
    # threaded sizes
    jobs = [(n, nb, t) for n in (33000, 70000) for nb in (2, 50, 900, 20000) for t in KT if nb <= {"i1": 100, "i2": 30000}.get(t, 1 << 30)]
    rng.shuffle(jobs) if shard < 0 else None
    for ji, (n, nb, t) in enumerate(jobs):
        if ji % nshards != shard or (tier == "quick" and n > 60000 and ji // nshards % 2):
            continue
        p = rng.random()
        k = rec.np.randint(0, nb, n) if p < 0.5 else (np.arange(n) * nb // n if p < 0.75 else np.minimum(rec.np.geometric(0.3, n), nb - 1))
        k = k.tolist()
        packs(k, nb, t, 30)
        packnext(k, nb, t)
        k2 = [x if rng.random() < 0.9 else rng.choice([-1, nb]) for x in k]
        counts(k2, nb, t, 10)
        if nb > 1:
            nexts(k2, nb, t)
    big = [("S3", 40000, 500), ("i4", 20000, 25), ("U2", 9000, 12), ("f8", 40000, 18), ("S18", 5000, 25), ("i8", 33000, 29), ("u1", 8000, 14), ("S9", 33000, 19)]
    for bi, (kind, n, m) in enumerate(big):
        if bi % nshards == shard:
            codes = rec.np.randint(0, min(m, ncodes(kind)), n).tolist()
            lex(kind, codes, rng.choice(["i4", "i8"]), rng.choice([0, 1]))
            lexcut(kind, codes, rng.choice(["i4", "i8"]), sorted(rng.randrange(n + 1) for _ in range(20)) + [n])
