PID = "C13"
TECHNIQUE = "TLA+ recurrence specification; TLC checks the one-pass design model and validates every recorded EmaAll32 call"
LEVEL_NOTE = ("Every recorded EmaAll32 call (all functions, value, key and time types, filters and resets, exhaustive tiny inputs, several "
              "columns in parallel) is a step of Ema.tla; that one pass with a state per group is the per-group definition is checked "
              "exhaustively in EmaMC.tla within small bounds. Decayed averages are compared row to row in a fixed-point scale of 1/4096. "
              "Trusts TLC and the value coding.")
TRACE = "EmaTrace"
MODELS = [{"spec": "EmaMC", "workers": 3, "thorough_cfg": "EmaMC_thorough.cfg"}]
ASSUMPTIONS = ["group keys, masks and times are contiguous and as long as the values; integer sentinels are not put into sums, products and averages",
               "times are not negative, and not decreasing for the decayed sum; float sums are exact in the type"]
import itertools
import math
import numpy as np

FN = {"sum": 300, "prod": 302, "nanmax": 306, "nanmin": 307, "max": 308, "min": 309}
EMA = {"decay": 301, "normal": 304, "weighted": 305}


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    import gcols
    from recorder import INV, enc
    rng = rec.rng
    KT = ["i1", "i2", "i4", "i8"]

    def mask(m):
        return None if m is None else np.asarray(m, dtype=bool)

    def flags(m, n, d):
        return [d] * n if m is None else [int(x) for x in m]

    def cum(fn, cols, g, nb, inc, rst, kt, stride=0, scale=None):
        n = len(g)
        sc = [scale or (1 if fn == "prod" else rng.choice(gcols.scales(k, 0, n))) for k, _ in cols]
        arrs = [gcols.column(k, c, s, stride) for (k, c), s in zip(cols, sc)]
        arg = {"fn": fn, "x": [list(map(int, c)) for _, c in cols], "k": [k for k, _ in cols], "g": list(map(int, g)), "nb": nb,
               "inc": flags(inc, n, 1), "rst": flags(rst, n, 0), "kt": kt, "masks": [inc is not None, rst is not None], "sc": [str(s) for s in sc]}
        rec.call("cum", arg, lambda: rc.EmaAll32(arrs, np.asarray(g, dtype=kt), nb, FN[fn], (0.0, None, mask(inc), mask(rst))),
                 lambda r: [gcols.unscale(v.view("i1") if v.dtype == bool else v, s) for v, s in zip(r, sc)])

    def ema(fn, cols, g, nb, inc, rst, t, kt, tt, unit, w=0, stride=0):
        n = len(g)
        sc = [rng.choice({"f8": [1, 0.25, 1e6], "f4": [1, 0.5]}.get(k, [1])) for k, _ in cols]
        arrs = [gcols.column(k, c, s, stride) for (k, c), s in zip(cols, sc)]
        arg = {"fn": fn, "x": [list(map(int, c)) for _, c in cols], "k": [k for k, _ in cols], "g": list(map(int, g)), "nb": nb,
               "inc": flags(inc, n, 1), "rst": flags(rst, n, 0), "hr": int(rst is not None), "t": t, "w": w, "kt": kt, "tt": tt, "unit": str(unit)}
        par = w / 8 if fn == "weighted" else math.log(2) / unit
        tm = np.array([x * unit for x in t], dtype=tt)
        rec.call("ema", arg, lambda: rc.EmaAll32(arrs, np.asarray(g, dtype=kt), nb, EMA[fn], (par, tm, mask(inc), mask(rst))),
                 lambda r: [gcols.unscale(v, s, 4096) for v, s in zip(r, sc)])

    def pick_mask(n, p=0.5):
        return rng.choice([None, [rng.random() < p for _ in range(n)], [rng.random() < 0.9 for _ in range(n)]])

    def pinv(fn, k):
        return 0 if (fn in ("sum", "prod") or fn in EMA) and k[0] != "f" else rng.choice([0, 0.2])

    def prodcodes(k, n):
        c = [1 if k[0] in "ub" else rng.choice([1, -1]) for _ in range(n)]
        for i in rng.sample(range(n), min(n, 10)):
            c[i] = rng.choice([0, 1]) if k == "b1" else rng.choice([2, 3, 0]) if k[0] == "u" else rng.choice([2, -2, 3, 1])
        if k[0] == "f" and n and rng.random() < 0.3:
            c[rng.randrange(n)] = INV
        return c

    rec.emit("begin", {}, {})
    NK = [k for k in gcols.VKINDS if k != "b1"]
    c = 0
    for n in range(0, 4):
        for xs in itertools.product([1, 3, INV], repeat=n):
            for g in itertools.product(range(3), repeat=n):
                for fn in ("nanmin", "nanmax", "min", "max", "sum", "prod"):
                    c += 1
                    if c % nshards != shard or (tier == "quick" and n == 3 and c // nshards % 3):
                        continue
                    k = NK[(c // nshards) % len(NK)] if fn not in ("sum", "prod") or INV not in xs else rng.choice(["f4", "f8"])
                    cum(fn, [(k, xs)], g, 2, pick_mask(n), pick_mask(n, 0.4), rng.choice(KT), scale=1)
    reps = 3 if tier == "quick" else 25
    for it in range(reps):
        for k in gcols.VKINDS:
            for fn in FN:
                n, nb = rng.choice([1, 2, 9, 33, 150]), rng.choice([1, 2, 5, 40])
                g = [rng.randrange(0 if rng.random() < 0.8 else 1, nb + 1) for _ in range(n)]
                codes = prodcodes(k, n) if fn == "prod" else gcols.codes(rng, k, n, 20, pinv(fn, k))
                cum(fn, [(k, codes)], g, nb, pick_mask(n), pick_mask(n, 0.2), rng.choice(KT), rng.choice([0, 0, 2]))
            for fn in EMA:
                n, nb = rng.choice([1, 2, 9, 40]), rng.choice([1, 2, 4])
                g = [rng.randrange(0, nb + 1) for _ in range(n)]
                tt = rng.choice(["i4", "i8", "u4", "u8", "f4", "f8", "g"])
                unit = rng.choice({"i4": [1, 1000], "i8": [1, 10 ** 9, 1 << 40], "u4": [1, 3000], "u8": [1, 10 ** 10], "f4": [1, 0.5], "f8": [1, 0.25, 1e5], "g": [1, 0.5]}[tt])
                b = 0 if tt == "f4" else rng.choice([0, 0, 3, 100000])
                t, at = [], b
                for _ in range(n):
                    at += rng.choice([0, 0, 1, 1, 2, 5, 40])
                    if fn != "decay" and rng.random() < 0.05:
                        at = b
                    t.append(at)
                ema(fn, [(k, gcols.codes(rng, k, n, 50, pinv(fn, k) / 4))], g, nb, pick_mask(n), pick_mask(n, 0.2), t, rng.choice(KT), tt, unit,
                    rng.randrange(0, 9), rng.choice([0, 0, 2]))
        for kt in KT:
            n, nb = rng.choice([1, 7, 100]), rng.choice([1, 3, 100])
            g = [rng.randrange(nb + 1) for _ in range(n)]
            inc = pick_mask(n)
            rec.call("nth", {"g": g, "nb": nb, "inc": flags(inc, n, 1), "kt": kt},
                     lambda: rc.EmaAll32([np.zeros(n)], np.asarray(g, dtype=kt), nb, 303, (0.0, None, mask(inc), None)), lambda r: [enc(r[0])])
        # many columns of different types at once: one worker per column
        for fn in ("sum", "nanmin", "max", "decay", "normal", "weighted"):
            n, nb = 60, 7
            g = [rng.randrange(nb + 1) for _ in range(n)]
            cols = []
            for _ in range(rng.choice([2, 5, 16])):
                k = rng.choice(gcols.VKINDS)
                cols.append((k, gcols.codes(rng, k, n, 20, pinv(fn, k))))
            if fn in FN:
                cum(fn, cols, g, nb, pick_mask(n), pick_mask(n, 0.2), rng.choice(KT))
            else:
                t = sorted(rng.randrange(50) for _ in range(n))
                ema(fn, cols, g, nb, pick_mask(n), pick_mask(n, 0.2), t, rng.choice(KT), rng.choice(["i8", "f8"]), 1, 3)
    # long columns, with group counts at the limits of the key types
    for fn, kt, nb in [("sum", "i1", 127), ("nanmax", "i2", 3000), ("min", "i4", 300), ("prod", "i8", 50), ("max", "i1", 127), ("nanmin", "i4", 1000)]:
        n = rng.choice([3000, 6000])
        k = rng.choice(NK)
        g = rec.np.randint(0, nb + 1, n).tolist()
        codes = prodcodes(k, n) if fn == "prod" else gcols.big(rec, k, n, 20, 0 if pinv(fn, k) == 0 else 100)
        cum(fn, [(k, codes)], g, nb, pick_mask(n), pick_mask(n, 0.05), kt)
