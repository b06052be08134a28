PID = "C12"
TECHNIQUE = "TLA+ specification of per-group order statistics and rolling windows; TLC validates every recorded GroupByAllPack32 call"
LEVEL_NOTE = ("Every recorded call (all functions, types, both index widths, exhaustive tiny groups, positive, negative, zero and huge "
              "windows, dyadic quantiles, banded threaded sizes) is a step of GroupPack.tla; RollingMC.tla checks the incremental "
              "window update against the definition exhaustively within small bounds. Trusts TLC and the value coding.")
TRACE = "GroupPackTrace"
MODELS = [{"spec": "RollingMC", "workers": 2, "thorough_cfg": "RollingMC_thorough.cfg"}]
ASSUMPTIONS = ["packings are consistent (as made by GroupByPack32) and contiguous",
               "integer invalids enter median, mode and non-skipping rolling functions only where the answer does not depend on them",
               "rolling sums of a float group are not judged after an invalid left the window (they stay invalid to the end of the group)"]
import itertools
import numpy as np

BIN = [100, 101, 102, 103, 104, 105, 106]
ROLL = [200, 201, 202, 203, 204, 205, 206, 207]
QS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 8), (7, 8), (1, 10), (9, 10), (1, 5)]
NOBOOL = {105, 202, 204, 205, 206, 207}


def supported(fn, k):
    if k == "b1":
        return fn not in NOBOOL
    if fn == 204:
        return k[0] == "i"
    return True


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    import gcols
    from recorder import INV, OTHER, enc, encpal
    from keys import palettes
    rng = rec.rng

    def unpack(r, fn, k, sc, lo, nb, F):
        r = r if fn >= 200 else r[lo:nb]
        if fn == 202 and k[0] == "u":
            m = 1 << (8 * int(k[1]))
            o = []
            for v in r.tolist():
                if v == m - 1:
                    o.append(INV)
                else:
                    q, rem = divmod(v if v < m // 2 else v - m, sc)
                    o.append(q if not rem else OTHER)
            return o
        return gcols.unscale(r, sc, F)

    def pack(cols, g, nuniq, fn, lo, dt, kt, w=0, q=(0, 1, 0), scale=None, stride=0, big=False):
        nb = nuniq + 1
        sc = [scale or rng.choice(gcols.scales(k, 2 if fn in (100, 101, 102, 103, 104, 203) else 0, len(g))) for k, _ in cols]
        if fn in (103, 105, 204) or (fn == 202):
            sc = [1 if k[0] != "u" or fn != 202 else 12 for k, _ in cols]
        if fn == 207 or fn == 106 or fn in (205, 206):
            sc = [1 if k[0] in "iu" else s for s, (k, _) in zip(sc, cols)]
        arrs = [gcols.column(k, c, s, stride) for (k, c), s in zip(cols, sc)]
        p, off = gcols.packing(g, nb)
        P, A, C = np.array(p, dt), np.array(off[:-1], dt), np.diff(np.array(off)).astype(dt)
        par = w
        if fn == 106:
            par = q[0] * 10 ** 9 // q[1] + q[2] * (10 ** 9 + 1)
        elif fn == 207:
            par = q[0] * 10 ** 9 // q[1] + w * (10 ** 9 + 1)
        Fs = [1 for _ in cols]
        for i, (k, _) in enumerate(cols):
            if fn in (105, 205, 206):
                Fs[i] = 1000
            elif fn in (106, 207) or (fn == 103 and k[0] == "f"):
                Fs[i] = 2 if k != "b1" else 1
        arg = {"fn": fn, "x": [list(map(int, c)) for _, c in cols], "k": [k for k, _ in cols], "g": list(map(int, g)), "nb": nb, "p": p,
               "off": off, "lo": lo, "w": int(max(-1000000000, min(1000000000, w))), "q": list(q), "F": 1000, "dt": dt, "kt": kt, "sc": [str(s) for s in sc]}
        m = len(cols)
        ik = np.asarray(g, dtype=kt)

        def half(a, s, F):
            # exact multiples of one half
            o = []
            for v in np.asarray(a).tolist():
                if isinstance(v, bool):
                    o.append(int(v))
                elif v != v:
                    o.append(INV)
                elif v in (np.inf, -np.inf):
                    o.append(gcols.PINF if v > 0 else gcols.NINF)
                else:
                    z = v / s * F
                    o.append(int(z) if abs(z) < 1e9 and z == int(z) else OTHER)
            return o

        def encode(r):
            out = []
            for i, (k, _) in enumerate(cols):
                if Fs[i] == 2:
                    out.append(half(r[i] if fn >= 200 else r[i][lo:nb], sc[i], 2))
                else:
                    out.append(unpack(r[i], fn, k, sc[i], lo, nb, Fs[i]))
            return out
        rec.call("pack", arg, lambda: rc.GroupByAllPack32(arrs, ik, P, A, C, nuniq, [fn] * m, [lo] * m, [nb] * m, par), encode)

    def strings(kind, codes, g, nuniq, fn, lo, dt, w):
        pal = palettes(kind)
        nb = nuniq + 1
        a = pal[np.asarray(codes)]
        p, off = gcols.packing(g, nb)
        P, A, C = np.array(p, dt), np.array(off[:-1], dt), np.diff(np.array(off)).astype(dt)
        z = pal.tolist().index(b"" if kind[0] == "S" else "")
        arg = {"fn": fn, "x": [[INV if c == z else c for c in codes]], "k": [kind], "g": g, "nb": nb, "p": p, "off": off, "lo": lo, "w": w,
               "q": [0, 1, 0], "F": 1, "dt": dt}

        def encode(r):
            v = encpal(r[0] if fn >= 200 else r[0][lo:nb], pal)
            return [[INV if c == z else c for c in v]]
        rec.call("pack", arg, lambda: rc.GroupByAllPack32([a], np.asarray(g, "i4"), P, A, C, nuniq, [fn], [lo], [nb], w), encode)

    def col(k, n, fn, mag=10):
        inv = rng.choice([0, 0, 0.1, 0.4])
        if k[0] != "f" and fn in (103, 104):
            inv = 0
        inf = rng.choice([0, 0, 0.1]) if fn in (100, 101, 102, 104, 203) else 0
        return gcols.codes(rng, k, n, mag, inv, inf)

    def window(fn, n):
        if fn in (101, 202, 203, 204):
            return rng.choice([0, 1, 1, 2, 3, -1, -2, -3, n, -n, n + 5, -n - 5, 2 ** 31 - 1, -2 ** 31, 2 ** 33, -2 ** 33])
        if fn == 207:
            return rng.choice([1, 2, 3, 4, 5, 8, max(1, n), n + 3])
        return rng.choice([0, 1, 2, 3, 4, 7, n, n + 5, 2 ** 31 - 1, 2 ** 33])

    rec.emit("begin", {}, {})
    # every tiny group
    c = 0
    for n in range(1, 5):
        for xs in itertools.product([1, 4, INV] if n < 4 else [1, INV], repeat=n):
            for fn in BIN + ROLL:
                for w in ([-2, -1, 0, 1, 2, 3] if fn in (101, 202, 203, 204) else [1, 2, 3] if fn == 207 else [0, 1, 2, 3] if fn >= 200 else [0]):
                    c += 1
                    if c % nshards != shard or (tier == "quick" and n >= 3 and (c // nshards) % 2):
                        continue
                    k = gcols.VKINDS[(c // nshards) % 10]
                    if k[0] != "f" and fn in (103, 104) and INV in xs:
                        k = "f4" if c % 3 else "f8"
                    if not supported(fn, k):
                        k = "i2"
                    q = rng.choice(QS) + (rng.randrange(2),)
                    pack([(k, xs)], [1 + rng.randrange(2) for _ in xs] if rng.random() < 0.5 else [1] * n, 2, fn, rng.randrange(2), rng.choice(["i4", "i8"]), "i1",
                         w, q)
    reps = 2 if tier == "quick" else 24
    for _ in range(reps):
        for k in gcols.VKINDS:
            for fn in BIN + ROLL:
                if not supported(fn, k):
                    continue
                n = rng.choice([1, 2, 3, 6, 10, 25, 60])
                nu = rng.choice([1, 2, 3, 7, n + 2])
                used = rng.sample(range(nu + 1), min(nu + 1, rng.choice([1, 2, 3, 50])))
                g = [rng.choice(used) for _ in range(n)]
                kinds = [k] if rng.random() < 0.6 else [k] + [z for z in rng.sample(gcols.VKINDS, 2) if supported(fn, z)]
                cols = [(z, col(z, n, fn, 5 if z == "i1" and fn == 202 else 10)) for z in kinds]
                pack(cols, g, nu, fn, rng.randrange(2), rng.choice(["i4", "i8"]), rng.choice(["i1", "i2", "i4", "i8"]) if nu < 127 else "i4",
                     window(fn, n), rng.choice(QS) + (rng.randrange(2),), None, rng.choice([0, 0, 2]))
        for kind in ["S1", "S3", "S9", "U1", "U5"]:
            for fn in (100, 101, 102, 203):
                n = rng.choice([1, 3, 9, 30])
                nu = rng.choice([1, 3, 6])
                pal = len(palettes(kind))
                strings(kind, [rng.randrange(pal) for _ in range(n)], [rng.randrange(nu + 1) for _ in range(n)], nu, fn, rng.randrange(2),
                        rng.choice(["i4", "i8"]), rng.choice([0, 1, 2, -1, -2, n, -n]))
    # large values: two middle elements whose sum leaves the type
    for k, v in [("i4", 107374182), ("i4", -107374182), ("u4", 214748364), ("i8", 800000000), ("u8", 999999999), ("i8", -800000000), ("i1", 6), ("i2", 1638), ("u2", 3276)]:
        s = {"i4": 10, "u4": 10, "i8": 10 ** 10, "u8": 18 * 10 ** 9, "i1": 10, "i2": 10, "u2": 10}[k]
        for fn in (103, 106):
            b = abs(v) // 2 * (1 if v > 0 else -1)
            v2 = b * 2
            arr = np.array([v2 * s, v2 * s, (v2 - 2) * s, (v2 - 2) * s], dtype=k)
            if s > 10 and fn == 106:
                continue  # the float result cannot hold every digit
            for rows in ([0, 1], [0, 2], [0, 1, 2, 3]):
                m = len(rows)
                g = [1] * m
                p, off = gcols.packing(g, 2)
                P, A, C = np.array(p, "i4"), np.array(off[:-1], "i4"), np.diff(np.array(off)).astype("i4")
                arg = {"fn": fn, "x": [[int(arr[i]) // s for i in rows]], "k": [k], "g": g, "nb": 2, "p": p, "off": off, "lo": 1, "w": 0, "q": [1, 2, 0],
                       "F": 1, "dt": "i4"}
                a = arr[rows]
                rec.call("pack", arg, lambda: rc.GroupByAllPack32([a], np.array(g, "i4"), P, A, C, 1, [fn], [1], [2], 5 * 10 ** 8),
                         lambda r: [[(int(z) // s if fn == 103 else int(2 * z) // s) if z == z else INV for z in r[0][1:2].tolist()]])
    # rolling quantiles over longer groups: the two heaps see every order
    for _ in range(4 if tier == "quick" else 40):
        n, nu = 120, rng.choice([1, 2])
        k = rng.choice(["i4", "i8", "f4", "f8", "u2", "i1"])
        pack([(k, col(k, n, 207))], [1 + rng.randrange(nu) for _ in range(n)], nu, 207, 1, rng.choice(["i4", "i8"]), "i4", rng.choice([2, 3, 5, 9, 20]),
             rng.choice(QS) + (0,))
    # one long column is cut in bands of groups
    jobs = [(fn, k) for fn in BIN + ROLL for k in ("i4", "f8", "f4", "i8", "u2", "i1") if supported(fn, k)]
    __import__("random").Random(rec.seed).shuffle(jobs)
    per = 2 if tier == "quick" else 10
    mine = jobs[shard * per:(shard + 1) * per]
    if tier == "quick":
        mine[0] = ([103, 104, 105, 106, 103, 104, 106, 105][shard % 8], rng.choice(["i4", "f8", "f4"]))
    for fn, k in mine:
        n = rng.choice([65537, 70000, 66000])
        nu = rng.choice([50, 300, 3000])
        g = rec.np.randint(0, nu + 1, n) if rng.random() < 0.7 else (np.arange(n) * (nu + 1)) // n
        c = gcols.big(rec, k, n, 5, 0 if (k[0] != "f" and fn in (103, 104)) else 200)
        w = rng.choice([1, 2, 3]) if fn >= 200 or fn == 101 else 0
        pack([(k, c)], g, nu, fn, rng.randrange(2), rng.choice(["i4", "i8"]), "i4", w, rng.choice(QS) + (rng.randrange(2),))
