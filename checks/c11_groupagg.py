PID = "C11"
TECHNIQUE = "TLA+ aggregation specification; TLC checks the scatter/gather model and validates every recorded GroupByAll32 call"
LEVEL_NOTE = ("Every recorded aggregation (all functions, value types, key widths, exhaustive tiny inputs, empty groups, invalids, "
              "infinities, threaded and banded sizes) is a step of GroupAgg.tla; the scattered accumulation is checked exhaustively in "
              "GroupAggMC.tla within small bounds. Fractional results are compared to one unit of a fixed-point scale. Trusts TLC and "
              "the value coding.")
TRACE = "GroupAggTrace"
MODELS = [{"spec": "GroupAggMC", "workers": 3, "thorough_cfg": "GroupAggMC_thorough.cfg"}]
ASSUMPTIONS = ["group keys are contiguous, in 0..unique_rows and as long as the values; only the bins asked for are judged",
               "float sums use values whose sums are exact in the type, so rounding order cannot matter"]
import itertools
import numpy as np

FNS = [0, 1, 2, 3, 4, 5, 50, 51, 52, 53, 54, 55]
FRAC = {1, 51, 4, 54, 5, 55}


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    import gcols
    from recorder import INV, PINF, NINF
    rng = rec.rng

    def agg(cols, g, nuniq, fn, lo, kt, F=1, stride=0, scale=None, again=0):
        """cols: list of (kind, codes).  One call with the same function for every column."""
        sc = [scale or rng.choice(gcols.scales(k, fn, len(g))) for k, _ in cols]
        if fn in (4, 54):
            sc = [1 for _ in sc]
        arrs = [gcols.column(k, c, s, stride) for (k, c), s in zip(cols, sc)]
        ik = np.asarray(g, dtype=kt)
        p, off = gcols.packing(g, nuniq + 1)
        f = F if fn in FRAC else 1
        arg = {"fn": fn, "x": [list(map(int, c)) for _, c in cols], "k": [k for k, _ in cols], "g": list(map(int, g)), "nb": nuniq + 1,
               "p": p, "off": off, "lo": lo, "hi": nuniq + 1, "F": f, "kt": kt, "sc": [str(s) for s in sc], "st": stride}
        m = len(cols)
        run = lambda: rc.GroupByAll32(arrs, ik, nuniq, [fn] * m, [lo] * m, [nuniq + 1] * m, 0)
        if again:   # the same call again and again: other schedules; every answer that occurred is recorded
            def alts(_):
                out = []
                for _ in range(again):
                    v = [gcols.unscale(x[lo:nuniq + 1], s, f) for x, s in zip(run(), sc)]
                    if v not in out:
                        out.append(v)
                return out
            rec.call("aggs", arg, lambda: None, alts)
            return
        rec.call("agg", arg, run, lambda r: [gcols.unscale(v[lo:nuniq + 1], s, f) for v, s in zip(r, sc)])

    rec.emit("begin", {}, {})
    KT = ["i1", "i2", "i4", "i8"]
    # every tiny input over two values and the invalid, two groups and the excluded bin
    c = 0
    for n in range(0, 4):
        for xs in itertools.product([1, 3, INV], repeat=n):
            for g in itertools.product(range(3), repeat=n):
                for fn in FNS:
                    c += 1
                    if c % nshards != shard or (tier == "quick" and (c // nshards) % 3 != 0 and n == 3):
                        continue
                    k = gcols.VKINDS[(c // nshards) % 10]
                    if n == 0:
                        continue
                    agg([(k, xs)], g, 2, fn, rng.randrange(2), rng.choice(KT), 100)
    # random small: more groups than rows, more rows than groups, several columns, all types
    reps = 3 if tier == "quick" else 30
    for _ in range(reps):
        for k in gcols.VKINDS:
            for fn in FNS:
                n = rng.choice([1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 60, 130])
                nu = rng.choice([1, 2, 3, 7, n, n + 3, 100])
                used = rng.sample(range(nu + 1), min(nu + 1, rng.choice([1, 2, 3, 200])))
                g = [rng.choice(used) for _ in range(n)]
                kinds = [k] if rng.random() < 0.5 else [k] + [rng.choice(gcols.VKINDS) for _ in range(rng.choice([1, 2, 4]))]
                frac = fn in FRAC
                mag = 9 if frac and n > 33 else 20
                F = 1 if not frac else {4: 100, 54: 100, 5: 10, 55: 10}.get(fn, 1000) if n < 61 else {4: 10, 54: 10, 5: 3, 55: 3}.get(fn, 1000)
                pi = rng.choice([0, 0.1, 0.5])
                cols = [(q, gcols.codes(rng, q, n, mag, pi, rng.choice([0, 0, 0.2]) if fn not in (4, 5, 54, 55) else 0)) for q in kinds]
                agg(cols, g, nu, fn, rng.randrange(2), rng.choice(KT if nu < 127 else KT[1:]), F, rng.choice([0, 0, 2, 3]),
                    1 if fn in (5, 55) else None)
    # values whose partial sums need more than the element's precision (float32 sums are kept in double)
    for fn in (0, 50, 1, 51, 4, 54):
        for _ in range(2):
            half = [16777215, 3, 5, 16777213, 1, 16777209]
            body = [v for h in rng.sample(half, 3) for v in (h, -h)] + [rng.randrange(1, 9) for _ in range(4)]
            if fn in (4, 54):
                body = [1000000 + v for v in (0, 2, 4, 1, 3)]
                F = 0
                s = [{"i": b} for b in body]
                arr = [gcols.column("f4", body)]
                g = [1] * 5
                # a shift of the data leaves the variance unchanged: judged on the shifted-back codes
                p, off = gcols.packing(g, 2)
                fm = 100
                rec.call("agg", {"fn": fn, "x": [[0, 2, 4, 1, 3]], "k": ["f4"], "g": g, "nb": 2, "p": p, "off": off, "lo": 1, "hi": 2, "F": fm,
                                 "kt": "i4", "sc": ["shift"], "st": 0},
                         lambda: rc.GroupByAll32(arr, np.array(g, "i4"), 1, [fn], [1], [2], 0), lambda r: [gcols.unscale(r[0][1:2], 1, fm)])
                continue
            g = [rng.choice([1, 1, 1, 2]) for _ in body]
            for i in range(0, 6, 2):
                g[i + 1] = g[i]
            agg([("f4", body)], g, 2, fn, 1, "i4", 100 if fn in FRAC else 1, 0, 1)
    # beyond the threading threshold: one column is scattered over the workers in blocks of 16384 rows
    sizes = [32768, 32769, 40000, 49152, 65536, 66000, 98305, 131072]
    jobs = []
    for fi, fn in enumerate([0, 50, 1, 51, 2, 52, 3, 53]):
        for ki in range(5):
            z = rec.seed + fi + ki
            jobs.append((fn, ["f4", "i4", "f8", ["i8", "i1", "i2"][z % 3], ["u4", "u8", "u1", "u2", "b1"][z % 5]][ki]))
    for fn in (4, 54, 5, 55):
        jobs += [(fn, ["f4", "f8"][(fn + rec.seed) % 2]), (fn, ["i4", "u2", "i8", "i1"][(fn + rec.seed) % 4])]
    if tier == "thorough":
        jobs = [(fn, k) for fn in FNS for k in gcols.VKINDS] * 3
    jobs = jobs[shard::nshards] + [(f, rng.choice(['i4', 'i8', 'u8', 'i2', 'u4'])) for f in (0, [0, 1, 2, 3][shard % 4])]
    for i, (fn, k) in enumerate(jobs):
        spoil = i >= len(jobs) - 2   # one invalid in a long integer column: whichever worker meets it
        n = rng.choice(sizes)
        nu = rng.choice([1, 2, 2, 5, 40, 100, 3000 if tier == "thorough" else 200])
        if i == 4 and shard % 2:
            nu = rng.choice([5000, n // 9])   # too many groups to scatter
        if spoil:
            n, nu = 131072, rng.choice([1, 2])
        lo = rng.randrange(2)
        lay = rng.choice(["random", "runs", "late", "early"])
        if lay == "random":
            g = rec.np.randint(0, nu + 1, n)
        elif lay == "runs":
            g = (np.arange(n) * (nu + 1)) // n
        elif lay == "late":   # most groups occur only in the last rows
            g = np.where(np.arange(n) < n - 2 * nu - 2, 1, np.arange(n) % (nu + 1))
        else:
            g = np.where(np.arange(n) < 2 * nu + 2, np.arange(n) % (nu + 1), min(1, nu))
        m = 2 if rng.random() < 0.15 and not spoil else 1
        mag, F = (9, 1000) if fn in (1, 51) else (1, 10) if fn in (4, 5, 54, 55) else (9, 1)
        if fn in (4, 5, 54, 55):
            # squared counts must stay small: at most 3000 rows per group
            nu = max(nu, n // 1500)
            g = rec.np.randint(0, nu + 1, n)
        if fn not in (4, 5, 54, 55) and i == 1:
            # the same numbers as every type
            c = rec.np.randint(0, mag + 1, n)
            c[rec.np.randint(0, n, rng.choice([1, 2, nu]))] = gcols.INV
            kt = rng.choice([t for t in KT if np.iinfo(t).max > nu + 1])
            ik, (p, off) = np.asarray(g, dtype=kt), gcols.packing(g, nu + 1)
            f = F if fn in FRAC else 1
            arrs = [gcols.column(t, c) for t in gcols.VKINDS if t != "b1"]

            def every(_):
                out = []
                for _ in range(12):
                    for r in rc.GroupByAll32(arrs, ik, nu, [fn] * len(arrs), [lo] * len(arrs), [nu + 1] * len(arrs), 0) + \
                            tuple(rc.GroupByAll32([x], ik, nu, [fn], [lo], [nu + 1], 0)[0] for x in arrs):
                        v = [gcols.unscale(r[lo:nu + 1], 1, f)]
                        if v not in out:
                            out.append(v)
                return out
            rec.call("aggs", {"fn": fn, "x": [c.tolist()], "k": ["all"], "g": g.tolist(), "nb": nu + 1, "p": p, "off": off, "lo": lo, "hi": nu + 1, "F": f, "kt": kt},
                     lambda: None, every)
        cols = [(k, gcols.big(rec, k, n, mag, 1 if spoil else rng.choice([0, 1, 2, 3, nu]))) for _ in range(m)]
        if fn in (2, 3, 52, 53) and k != "b1":  # extremes that sit in one block only
            for _, c in cols:
                c[rec.np.randint(0, n, 3)] = 10
                if k[0] != "u":
                    c[rec.np.randint(0, n, 3)] = -10
        kt = rng.choice([t for t in KT if np.iinfo(t).max > nu + 1])
        agg(cols, g, nu, fn, lo, kt, F, 0, rng.choice([1, gcols.scales(k, fn, n)[-1]]) if fn not in (4, 5, 54, 55) else 1, 60)
