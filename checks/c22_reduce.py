PID = "C22"
TECHNIQUE = 'TLA+ reduction specification; TLC checks the chunk-and-gather design model and validates every recorded reduction'
LEVEL_NOTE = 'Every recorded call of Reduce (all types and reductions, vector-tail lengths, misaligned starts, invalids at chosen places, repeated threaded sizes) is explained by Reduce.tla; the parallel gather is checked exhaustively in ReduceMC.tla within small bounds. Trusts TLC and the value coding.'
TRACE = "ReduceTrace"
MODELS = [{"spec": "ReduceMC", "workers": 4, "thorough_cfg": "ReduceMC_thorough.cfg"}]
ASSUMPTIONS = ["sums stay within the accumulator type", "fractional results are compared as fractions of the exact value to a relative 1e-10"]
import itertools
import numpy as np

F = dict(sum=0, nansum=1, mean=102, nanmean=103, var=106, nanvar=107, std=108, nanstd=109, min=200, nanmin=201, max=202, nanmax=203,
         argmin=204, nanargmin=205, argmax=206, nanargmax=207)


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from gcols import VKINDS, codes, column, scales, unscale
    from recorder import INV, NINF, PINF, frac
    rng = rec.rng
    NEG = {"b1": 1}

    def shaped(a, form):
        """the same values at another alignment or as a multi-dimensional array"""
        n = len(a)
        if form == "off":
            o = rng.choice([1, 2, 3, 7])
            b = np.zeros(n + o, a.dtype)
            b[o:] = a
            return b[o:]
        if form == "byte" and a.dtype.itemsize > 1:
            raw = np.zeros(n * a.dtype.itemsize + 1, np.uint8)
            v = raw[1:].view(a.dtype)
            v[:] = a
            return v
        if form == "2d" and n % 2 == 0:
            return a.reshape(2, n // 2)
        if form == "F2" and n % 2 == 0:
            return np.asfortranarray(a.reshape(2, n // 2))
        if form == "gap" and n % 2 == 0:
            b = np.zeros((2, n // 2 + 3), a.dtype)
            b[:, :n // 2] = a.reshape(2, n // 2)
            return b[:, :n // 2]
        if form == "rev":
            return a[::-1].copy()[::-1]
        return a

    def one(f, kind, x, d, scale, c, a):
        before = a.tobytes()
        try:
            r = rc.Reduce(a, F[f]) if d is None else rc.Reduce(a, F[f], d)
        except ValueError:
            return {"t": "raise", "keep": int(a.tobytes() == before)}
        keep = int(a.tobytes() == before)
        if r is None:
            return {"t": "none", "keep": keep}
        b = f[3:] if f.startswith("nan") else f
        o = {"t": "num", "keep": keep}
        if b in ("argmin", "argmax"):
            o["v"] = int(r)
        elif b in ("sum", "min", "max"):
            if isinstance(r, float) or kind[0] == "f":
                o["v"] = unscale(np.array([float(r)]), scale)[0]
            elif b == "sum":
                o["v"] = INV if int(r) == -1 << 63 else unscale(np.array([r], "u8" if kind == "u8" else "i8"), scale)[0]
            else:
                if kind != "b1" and not np.iinfo(kind).min <= int(r) <= np.iinfo(kind).max:
                    o["v"] = 1999999998
                else:
                    o["v"] = unscale(np.array([r], kind), scale)[0]
        else:
            n = len(x)
            v = float(r)
            if b == "mean":
                o["q"] = frac(v / scale, 1e-10, max(n, 2))
            else:
                v = v / scale if b == "std" else v / scale / scale
                if b == "std":
                    v = -1e6 if v < 0 else v * v
                o["q"] = frac(v, 1e-10, max(n * n, 2) if n < 1000 else n)
        return o

    def red(f, kind, x, d=None, scale=1, c=0, form="c", times=1):
        a = shaped(column(kind, x, scale), form)
        arg = {"f": f, "k": kind, "x": x, "c": c, "d": 1 if d is None else d, "form": form, "scale": str(scale)}

        def run():
            out = []
            for _ in range(times):
                r = one(f, kind, x, d, scale, c, a)
                if r not in out:
                    out.append(r)
            return out
        rec.call("reduce", arg, run, lambda r: r)

    rec.emit("begin", {}, {})
    fs = list(F)
    # exhaustive small arrays over two values, the invalid and an infinity
    i = 0
    for n in range(1, 5):
        for x in itertools.product((-1, 1, 2, INV), repeat=n):
            i += 1
            if i % nshards != shard:
                continue
            for f in rng.sample(fs, 4):
                kind = rng.choice(["i1", "i2", "i4", "i8", "f4", "f8"])
                red(f, kind, list(x), rng.choice([None, None, 0, 1, 2]))
    reps = 2 if tier == "quick" else 20
    lens = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]
    for it in range(reps):
        for f in fs:
            for kind in VKINDS:
                n = rng.choice(lens)
                isn = kind != "b1"
                b = f[3:] if f.startswith("nan") else f
                mag = 20 if b not in ("var", "std") else 3
                pinv = rng.choice([0, 0, 1.0 / n, 0.3, 1.0]) if isn else 0
                x = codes(rng, kind, n, mag, pinv, 0.05 if kind[0] == "f" and rng.random() < 0.3 else 0)
                if isn and rng.random() < 0.3:   # one invalid exactly at the head or in the tail
                    x[rng.choice([0, n - 1, n // 2])] = INV
                if b in ("min", "max", "argmin", "argmax") and rng.random() < 0.5:   # a single extreme value, anywhere
                    base = rng.choice([3, 5, -4 if kind[0] in "if" else 4]) if isn else rng.randrange(2)
                    x = [base] * n
                    p = rng.randrange(n)
                    for q in {p, rng.choice([p, n - 1])}:
                        x[q] = (base + rng.choice([-1, 1])) if isn else 1 - base
                scale = rng.choice(scales(kind, 0, n))
                if kind == "f4" and b in ("var", "std", "mean"):
                    scale = rng.choice([1, 0.5, 1024.0])
                forms = ["c", "c", "off", "rev", "byte"] + (["2d", "F2", "gap"] if b in ("sum", "mean", "min", "max", "var", "std") else [])
                red(f, kind, x, rng.choice([None, 0, 1, 2]) if b in ("var", "std") else None, scale, 0, rng.choice(forms))
    # sums that need the low bits of 64-bit integers, extreme values of every type
    for kind in ("i1", "i2", "i4", "u1", "u2", "u4", "i8", "u8"):
        lo, hi = np.iinfo(kind).min + (kind[0] == "i"), np.iinfo(kind).max - (kind[0] == "u")
        for f in ("min", "max", "nanmin", "nanmax", "argmin", "argmax"):
            n = rng.choice(lens)
            p, q = rng.randrange(n), rng.randrange(n)
            a = np.zeros(n, kind)
            a[p], a[q] = lo, hi
            v = sorted(set(a.tolist()))
            x = [v.index(z) for z in a.tolist()]

            def enc_(r):
                return [{"t": "num", "keep": 1, "v": int(r) if "arg" in f else (v.index(int(r)) if int(r) in v else 1999999998)}] \
                    if r is not None else [{"t": "none", "keep": 1}]
            rec.call("reduce", {"f": f, "k": kind, "x": x, "c": 0, "d": 1, "form": "extreme"}, lambda: rc.Reduce(a, F[f]), enc_)
    # threaded sizes: repeated calls, ties and invalids in chosen chunks
    for f in fs:
        if tier == "quick" and (fs.index(f) + shard) % 2:
            continue
        b = f[3:] if f.startswith("nan") else f
        kind = rng.choice([k for k in VKINDS])
        n = rng.choice([32768, 32769, 49153, 65536, 80001])
        c = 0
        if b in ("var", "std"):
            d = rng.choice([0, 1])
            x = np.zeros(n, np.int64)
            lim = 30 if kind != "i1" else 10
            p = rec.np.permutation(n)[:60]
            v = rec.np.randint(1, 15, 30)
            if kind == "b1":
                continue
            c = 20 if kind[0] == "u" else rng.choice([0, 20])
            x[p[:30]], x[p[30:]] = v, -v
            x = x + c
            if rng.random() < 0.5 and f.startswith("nan"):
                x[p[30] // 2 + 1 if x[p[30] // 2 + 1] == c else p[0]] = c
                free = np.where(x == c)[0]
                x[free[rec.np.randint(0, len(free), 5)]] = INV
            scale = rng.choice([1, 2] if kind in ("i1", "u1") else [1, 2, 100] if kind in ("i2", "u2", "f4") else [1, 1 << 20])
            red(f, kind, x.tolist(), d, scale, c, rng.choice(["c", "off"]), 4)
            continue
        if b in ("sum", "mean"):
            mag = 10
            x = rec.np.randint(0 if kind[0] in "ub" else -mag, 2 if kind == "b1" else mag, n)
            if kind != "b1" and rng.random() < 0.5:
                x[rec.np.randint(0, n, rng.choice([1, 50]))] = INV
            scale = rng.choice([1] if kind in ("i1", "u1", "b1") else [1, 100])
            if kind == "f4":
                scale = 1
            red(f, kind, x.tolist(), None, scale, 0, rng.choice(["c", "off"]), 4)
            continue
        # one best value at several places in different chunks, or none better
        base = 5 if kind != "b1" else rng.randrange(2)
        x = np.full(n, base)
        best = (base - 1 if "min" in b else base + 1) if kind != "b1" else 1 - base
        for p in rng.sample([0, 1, 16383, 16384, 16385, 20000, 32767, n - 1, n - 2, rng.randrange(n), rng.randrange(n)], rng.choice([0, 1, 2, 3])):
            x[p] = best
        if kind != "b1" and rng.random() < 0.5:
            for p in rng.sample([0, 16383, 16384, 32767, n - 1, rng.randrange(n)], rng.choice([1, 2])):
                x[p] = INV
        red(f, kind, x.tolist(), None, 1, 0, rng.choice(["c", "off"]), 12)
    # the same long array as every type
    for f in fs:
        if tier == "quick" and (fs.index(f) + shard) % 4:
            continue
        b = f[3:] if f.startswith("nan") else f
        n = rng.choice([32768, 33000, 49153, 70001])
        x = np.full(n, 3)
        q = rng.sample(range(n), 10)
        x[q[:8]] = [1, 5, 2, 4, 1, 5, 4, 2]
        if rng.random() < 0.7:
            x[q[8:]] = INV
        x = x.tolist()
        arrs = [(k, column(k, x)) for k in VKINDS if k != "b1"]

        def every():
            out = []
            for _ in range(4):
                for k, a in arrs:
                    r = one(f, k, x, 0 if b in ("var", "std") else None, 1, 3, a)
                    if r["t"] != "none" and r not in out:
                        out.append(r)
            return out
        rec.call("reduce", {"f": f, "k": "all", "x": x, "c": 3 if b in ("var", "std") else 0, "d": 0 if b in ("var", "std") else 1, "form": "c"}, every, lambda r: r)
    # whole chunks without a valid value
    for f in ("nanargmin", "nanargmax", "nanmin", "nanmax", "nansum", "nanmean"):
        kind = rng.choice(["i4", "f8", "f4", "i8", "u2"])
        n = rng.choice([33000, 65536])
        x = np.full(n, INV)
        if rng.random() < 0.7:
            x[rng.choice([0, 16384, n - 1, rng.randrange(n)])] = 7
        red(f, kind, x.tolist(), None, 1, 0, "c", 6)
