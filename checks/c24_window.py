PID = "C24"
TECHNIQUE = "TLA+ specification of row and time windows; TLC checks the running-variance design exhaustively and validates every recorded call"
LEVEL_NOTE = ("Every recorded Rolling and TimeWindow call (all functions and value types, windows from 1 row to longer than the series, "
              "invalids entering and leaving, strided, threaded sizes) is judged row by row by Window.tla; WindowMC.tla proves the running "
              "variance recurrence for every short series. Trusts TLC and the value coding.")
TRACE = "WindowTrace"
MODELS = [{"spec": "WindowMC", "workers": 2, "thorough_cfg": "WindowMC_thorough.cfg"}]
ASSUMPTIONS = ["rolling windows have at least one row and finite values",
               "the functions that do not skip invalids are not given integer invalids, and for floats are not judged after a NaN left the window",
               "variances and deviations divide by the number of values"]
import numpy as np
from c16_take import layout
from gcols import VKINDS, codes, column, big
from recorder import INV, OTHER, enc

SCALES = {"f4": [1, 0.5, 1024.0], "f8": [1, 0.25, 2.0 ** 40], "i2": [1, 1000], "i4": [1, 1 << 26], "i8": [1, 1 << 33, 1 << 50], "u4": [1, 1 << 27],
          "u8": [1, 1 << 40, 1 << 50], "u2": [1, 3000]}


def scaled(a, unit, F):
    """The answers in units, as fixed-point codes of scale F."""
    out = []
    for x in a.tolist():
        if x != x:
            out.append(INV)
            continue
        if isinstance(x, float) and abs(x) > 1e250:
            out.append(OTHER)
            continue
        y = round(float(x) / unit * F) if isinstance(x, float) and F != 1 else x / unit * F if isinstance(x, float) else (x * F // unit if x * F % unit == 0 else OTHER)
        out.append(int(y) if abs(y) < 10 ** 9 and int(y) == y else OTHER)
    return out


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    LAY = ["plain", "plain", "odd", "strided", "back"]

    def roll(kind, f, n, w, q=None):
        unit = rng.choice(SCALES.get(kind, [1]))
        nan = f in (1, 103, 104, 107, 109)
        pinv = rng.choice([0, 0.1, 0.4, 0.8]) if nan and kind != "b1" else rng.choice([0, 0, 0.05]) if kind[0] == "f" else 0
        x = codes(rng, kind, n, rng.choice([1, 3, 20]), pinv)
        if n > 6 and rng.random() < 0.3 and kind != "b1":
            k = rng.randrange(n)
            x[k:k + w + 2] = [x[k]] * len(x[k:k + w + 2])
        a = layout(rng, column(kind, x, unit), rng.choice(LAY))
        keep = a.tobytes()
        F = 1 if f in (0, 1) else 2 if f == 104 else 30 if f in (108, 109) else 100 if kind == "f4" else 1000
        p = w
        if f == 104:
            p = int(q[0] / q[1] * 10 ** 9) + w * (10 ** 9 + 1)
        u = unit * unit if f in (106, 107) else unit
        rec.call("roll", {"f": f, "x": x, "kind": kind, "w": w, "q": q or [0, 1, 1], "F": F}, lambda: rc.Rolling(a, f, p),
                 lambda r: {"r": scaled(r, u, F), "same": int(a.tobytes() == keep)})

    def time(kind, f, n, wide):
        x = codes(rng, kind, n, rng.choice([1, 2, 3]) if f else 20, 0.05 if kind[0] == "f" else 0)
        unit = 1 if f else rng.choice(SCALES.get(kind, [1]))
        t = np.cumsum(np.array([rng.choice([0, 0, 1, 1, 2, 5]) for _ in range(n)], "i8")) if n < 3000 else np.cumsum(rs.choice([0, 1, 1, 2, 5], n))
        d = rng.choice([0, 1, 2, 3, 5, 8] + ([40] if wide and not f else []))
        off = rng.choice([0, -50, 1600000000 * 10 ** 9])
        a, b = layout(rng, column(kind, x, unit), rng.choice(LAY)), layout(rng, t + off, rng.choice(LAY))
        keep = (a.tobytes(), b.tobytes())
        rec.call("time", {"f": f, "x": x, "t": t.tolist(), "d": d, "kind": kind}, lambda: rc.TimeWindow(a, b, f, d),
                 lambda r: {"r": scaled(r, unit, 1), "same": int((a.tobytes(), b.tobytes()) == keep)})

    def long(kind, n):
        unit = rng.choice(SCALES.get(kind, [1]))
        w = rng.choice([1, 7, 100, 16384, n - 1, n, n + 5])
        f = rng.choice([0, 1])
        x = big(rec, kind, n, 20, 50 if f and kind != "b1" else 0)
        a = layout(rng, column(kind, x, unit), rng.choice(LAY))
        keep = a.tobytes()
        rec.call("long", {"f": f, "x": [int(v) for v in x], "w": w}, lambda: rc.Rolling(a, f, w),
                 lambda r: {"r": scaled(r, unit, 1), "same": int(a.tobytes() == keep)})

    rec.emit("begin", {}, {})
    combos = [(k, f) for k in VKINDS for f in (0, 1, 102, 103, 104, 106, 107, 108, 109)]
    for rep in range(4 if quick else 40):
        for i, (k, f) in enumerate(combos):
            if i % nshards == shard:
                n, w = rng.choice([0, 1, 2, 5, 20, 60]), rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 40])
                roll(k, f, n, w, rng.choice([[0, 1, 1], [1, 1, 1], [1, 2, 1], [1, 4, 1], [3, 4, 1], [1, 8, 1], [3, 10, 1], [9, 10, 1]]) if f == 104 else None)
        for i, k in enumerate(VKINDS):
            if i % nshards == shard:
                time(k, 0, rng.choice([0, 1, 2, 10, 50]), True)
                time(k, 1, rng.choice([0, 1, 2, 10, 50]), True)
    for rep in range(1 if quick else 6):
        time(rng.choice(VKINDS), rng.choice([0, 1]), rng.choice([32768, 33000, 50000]), False)
        long(rng.choice(VKINDS), rng.choice([20000, 33000]))
        roll(rng.choice(VKINDS), rng.choice([1, 103, 107]), 1500, rng.choice([3, 40]))
