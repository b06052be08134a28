PID = "C20"
TECHNIQUE = "TLA+ elementwise operator specification; TLC checks the chunk/vector/tail design model and operator laws and validates every recorded operator call"
LEVEL_NOTE = ("Every recorded BasicMathTwoInputs call (operators x type pairs x array/scalar forms x lengths x alignments, output arrays, multi-dimensional "
              "views, exhaustive 8-bit operand pairs) is a step of Elementwise.tla. Wide integers are coded in units of a power of two so that carries and wrap-around are "
              "exercised at both ends of the type. Trusts TLC and the coding; a call the library leaves to numpy (None) is accepted.")
TRACE = "ElementwiseTrace"
MODELS = [{"spec": "ElementwiseMC", "workers": 3, "thorough_cfg": "ElementwiseMC_thorough.cfg"}]
ASSUMPTIONS = ["float operands are exact small numbers, NaN or infinities; integer powers have small results; Python scalars fit the array's type",
               "the operators a type does not support (None) are numpy's business"]
import numpy as np

OPS = {"add": 1, "sub": 2, "mul": 3, "mod": 5, "min": 6, "max": 7, "floordiv": 10, "pow": 11, "rem": 12, "div": 101, "subdt": 102, "subdates": 103,
       "eq": 401, "ne": 402, "lt": 403, "gt": 404, "le": 405, "ge": 406, "land": 407, "lxor": 408, "lor": 409,
       "and": 503, "xor": 504, "or": 505, "andnot": 506, "notand": 507}
K = ["b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]
CMPS = ("eq", "ne", "lt", "gt", "le", "ge")
BITS = ("and", "or", "xor", "andnot", "notand")
W = {"b1": 8, "i1": 8, "u1": 8, "i2": 16, "u2": 16, "i4": 32, "u4": 32, "i8": 64, "u8": 64, "f4": 32, "f8": 64}


def common(a, b):
    r = np.result_type(np.dtype(a), np.dtype(b)).str[1:]
    return "f4" if "f4" in (a, b) and "f8" not in (a, b) else r


def span(k, s, cap):
    """The codes a type holds in units of 2^s."""
    if k == "b1":
        return 0, 1
    if k[0] == "f":
        return -cap, cap
    if k[0] == "u":
        return 0, min(cap, (1 << (W[k] - s)) - 1)
    h = 1 << (W[k] - 1 - s)
    return -min(cap, h), min(cap, h - 1)


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from recorder import INV, PINF, NINF, OTHER, LIM, fracs
    rng, rnp = rec.rng, rec.np

    def make(k, codes, s, off=0, shift=0):
        n = len(codes)
        if k[0] == "f":
            c = np.asarray(codes, dtype=np.int64)
            v = (c * (2.0 ** s) + off).astype(k)
            v[c == INV], v[c == PINF], v[c == NINF] = np.nan, np.inf, -np.inf
        elif k == "b1":
            v = np.asarray(codes, dtype=bool)
        else:
            inv = np.iinfo(k).min if k[0] == "i" else np.iinfo(k).max
            v = np.array([inv if c == INV else (c << s) + off for c in codes], dtype=k)
        if shift:
            b = np.zeros(n + shift, dtype=k)
            b[shift:] = v
            v = b[shift:]
        return v

    def decode(r, s, off, f, low=False):
        if f == "div":
            return fracs(r, 1e-6 if r.dtype.itemsize == 4 else 1e-9, 1000)
        if r.dtype.kind == "b":
            return [int(v) if v < 2 else OTHER for v in r.reshape(-1).view(np.uint8).tolist()]
        out = []
        for v in r.reshape(-1).tolist():
            if isinstance(v, float):
                if v != v:
                    out.append(INV)
                    continue
                if v in (np.inf, -np.inf):
                    out.append(PINF if v > 0 else NINF)
                    continue
                v = (v - off) / 2.0 ** s
                out.append(int(v) if v == int(v) and abs(v) < LIM else OTHER)
            else:
                if low and v == np.iinfo(r.dtype).min:
                    out.append(INV)
                    continue
                v -= off
                q = v >> s
                out.append(q if (q << s) == v and abs(q) <= (1 << 30) else OTHER)
        return out

    def call(f, ka, kb, A, B, sa, sb, so, w, off=0, offo=0, out=None, x=None, y=None, shift=(0, 0), **extra):
        """out: None, "new" (an array of the result's type), "first" (in place)"""
        x = make(ka, A, sa, off, shift[0]) if x is None else x
        y = make(kb, B, sb, off, shift[1]) if y is None else y
        a = {"f": f, "ka": ka, "kb": kb, "W": w, "a": A, "b": B, "s": [sa, sb, str(off)], "out": out or "", "sh": list(shift), **extra}
        o, n = None, max(len(A), len(B))
        c = common(ka, kb)
        ko = "b1" if f in CMPS or f in ("land", "lor", "lxor") else ("f4" if c == "f4" else "f8") if f == "div" else "f8" if f == "subdt" else c
        if out == "new":
            o = np.zeros(n, ko)
        elif out == "first":
            if ka != ko or len(A) != n:
                return
            o = x
        x0, y0 = (None if o is x else x.copy()) if isinstance(x, np.ndarray) else None, y.copy() if isinstance(y, np.ndarray) else None

        def enc(r):
            if r is None:
                return {"none": 1}
            keep = (x0 is None or x0.tobytes() == x.tobytes()) and (y0 is None or y0.tobytes() == y.tobytes())
            return {"none": 0, "k": r.dtype.str[1:], "v": decode(r, so, offo, f, f == "floordiv" and w == 0 and so == 0 and INV in A), "out": int(o is None or np.shares_memory(r, o) or n == 0), "keep": int(keep)}
        rec.call("bin", a, lambda: rc.BasicMathTwoInputs((x, y) if o is None else (x, y, o), OPS[f], 0), enc)

    def scaling(f, ka, kb):
        """(sa, sb, so, W, cap): scales of operands and result, the width that wraps (0 = not), and the largest code."""
        c = common(ka, kb)
        if f in BITS and "b1" in (ka, kb):
            return (0, 0, 0, W[c] if W[c] <= 30 else 0, 1 << 14)
        if "b1" in (ka, kb) or f in ("pow", "subdates", "subdt"):
            return (0, 0, 0, 32 if f == "none" else (0 if W[c] > 30 or c[0] == "f" else W[c]), 60 if f == "div" else 1 << 14)
        mx = min([W[k] - 2 for k in (ka, kb) if k[0] != "f"] or [8])
        if c[0] == "f":
            cap = (1 << 10 if f == "mul" else 1 << 20) if "f4" in (ka, kb) else (1 << 14 if f == "mul" else 1 << 27)
            s = rng.choice([0, 0, min(mx, 5), min(mx, 20)] + ([mx] if c == "f8" else []))
            if f == "div":
                cap = 60 if c == "f4" or f == "div" and "f4" in (ka, kb) else 500
            if ka[0] == kb[0] == "f":
                s = rng.choice([0, -2, 7])
            return (s, s, 0 if f in ("floordiv", "div") else 2 * s if f == "mul" else s, 0, cap)
        if f == "mul":
            t = rng.choice([0, 0, rng.randint(0, mx // 2), rng.randint(0, mx)])
            t2 = rng.randint(0, max(0, min(mx, W[c] - 2 - t)))
            so = t + t2
            w = W[c] - so
            return (t, t2, so, w if w <= 30 else 0, (1 << 15) if w <= 30 else 1 << 14)
        s = rng.choice([0, rng.randint(0, mx), mx])
        w = W[c] - s
        if f == "floordiv" and s:
            w = 99
        cap = 60 if f == "div" else (1 << 29) if w <= 30 else 1 << 28
        return (s, s, 0 if f in ("floordiv", "div") else s, w if w <= 30 else 0, cap)

    def codes(f, k, kk, n, s, cap, w, c, side):
        ka0, kb0 = k, kk
        lo, hi = span(k, s, cap)
        if f == "div":
            lo, hi = max(lo, -cap), min(hi, cap)
        if f == "pow":
            lo, hi = (max(lo, -5), min(hi, 5)) if side == 0 else (0, min(4, hi))
            if c in ("i1", "u1", "i2", "u2", "b1"):
                lo, hi = (max(lo, -3), min(hi, 3))
                lo = 0 if side else lo
        edge = rng.random() < 0.4
        pick = [lo, hi, 0, 1, hi - 1 if hi > 0 else 0, lo + 1 if lo < 0 else 0, -1 if lo < 0 else 1, hi // 2 + 1]
        pick = [min(max(p, lo), hi) for p in pick]
        if k != kk and k[0] in "iu":
            # the invalid's own bit pattern is not a number where it is converted
            if k[0] == "i" and lo << s == np.iinfo(k).min:
                lo += 1
            if k[0] == "u" and hi << s == np.iinfo(k).max:
                hi -= 1
            pick = [min(max(p, lo), hi) for p in pick]
        out = [rng.choice(pick) if edge or rng.random() < 0.2 else rng.randint(max(lo, -20), min(hi, 20)) if rng.random() < 0.4 else rng.randint(lo, hi)
               for _ in range(n)]
        fl = k[0] == "f"
        for i in range(n):
            p = rng.random()
            if fl and f in ("add", "sub", "mul", "min", "max", "div") + CMPS:
                if p < 0.08:
                    out[i] = INV
                elif p < 0.16:
                    out[i] = rng.choice([PINF, NINF])
            elif fl and f in ("floordiv", "mod", "rem") and p < 0.08:
                out[i] = INV
            elif not fl and k != "b1" and f not in ("pow", "div", "floordiv", "mod", "rem", "mul"):
                # an integer invalid: usable when the result's width is exact (or the result is a float or a comparison)
                usable = n > 1 and (ka0, kb0) not in (('i8', 'u8'), ('u8', 'i8')) and (c[0] == "f" or (w and (c[0] == "i" or s == 0)))
                if f in ("subdt", "subdates") or usable and p < 0.08:
                    out[i] = INV if p < 0.15 else out[i]
            if side == 1 and out[i] == 0 and (f in ("mod", "rem", "floordiv") and c[0] == "f"):
                out[i] = 1
        return out

    def one(f, ka, kb, n, scal=None, out=None):
        c = common(ka, kb)
        if f in BITS and c[0] == "f" or f in ("land", "lor", "lxor") and (ka, kb) != ("b1", "b1") or f == "rem" and c[0] != "f":
            return
        if c == "b1" and f in ("floordiv", "pow", "mod", "rem", "min", "max"):
            return
        if f in ("subdt", "subdates"):
            if ka not in ("i4", "i8") or kb != ka:
                return
        sa, sb, so, w, cap = scaling(f, ka, kb)
        if f == "rem":
            so = sa
        if f in BITS and c[0] != "b" and not w:
            s = W[c] - 30
            if "b1" in (ka, kb) or any(W[k] - 2 < s for k in (ka, kb)):
                # operands lie in the low bits: a signed one is extended, so only non-negative patterns have a small code
                A, B = [rng.randrange(0, 1 << 7) for _ in range(n)], [rng.randrange(0, 1 << 7) for _ in range(n)]
                if f in ("and", "or", "xor", "andnot", "notand"):
                    call(f, ka, kb, A if ka != "b1" else [v & 1 for v in A], B if kb != "b1" else [v & 1 for v in B], 0, 0, 0, 30, shift=(rng.randrange(3), rng.randrange(3)))
                return
            sa = sb = so = s
            w, cap = 30, 1 << 29
        if f == "subdates":
            w = 0
        na, nb = (1 if scal == "first" else n), (1 if scal == "second" else n)
        A, B = codes(f, ka, kb, na, sa, cap, w, c, 0), codes(f, kb, ka, nb, sb, cap, w, c, 1)
        if f == "subdt" or f == "subdates":
            A = [0 if rng.random() < 0.1 else v for v in A]
        if f == "sub" and c[0] == "u" and not w and A and B:
            A, B = ([max(A + B)] if len(A) == 1 else [max([v] + (B if len(B) == 1 else B[i:i + 1])) for i, v in enumerate(A)],
                    [min(A + B)] if len(B) == 1 else [min([v] + (A if len(A) == 1 else A[i:i + 1])) for i, v in enumerate(B)])
            A = [min(v, span(ka, sa, cap)[1] - (sa == 0 and ka != kb)) for v in A]
            B = [min(v, w2) for v, w2 in zip(B, (A * len(B) if len(A) == 1 else A))] if len(B) > 1 or len(A) == 1 else [min(A + B)]
        off = offo = 0
        ints = ka[0] in "iu" and kb[0] in "iu"
        if ints and f in CMPS + ("min", "max", "sub") and (c[0] != "f" or f in CMPS) and rng.random() < 0.3:
            # neighbours near a large value: order is kept
            lows, highs = [np.iinfo(k).min for k in (ka, kb)], [np.iinfo(k).max for k in (ka, kb)]
            off = rng.choice([min(highs) - 40, max(lows) + 40, 0, min(highs) // 2 + 1])
            if f == "sub" and c[0] == "u":
                off = 0
            sa = sb = so = 0
            w = 0
            A, B = [rng.randint(-39, 39) for _ in range(na)], [rng.randint(-39, 39) for _ in range(nb)]
            if off == 0:
                A, B = [abs(v) if ka[0] == "u" else v for v in A], [abs(v) if kb[0] == "u" else v for v in B]
                if f == "sub" and c[0] == "u":
                    w = W[c] if W[c] <= 30 else 0
                    if not w:
                        A, B = [v + 50 for v in A], B
            offo = 0 if f in ("sub",) + CMPS else off
        x = y = None
        if scal and n > 0 and rng.random() < 0.6:
            # a Python scalar, of a kind that leaves the type alone
            ki, kk, val = (ka, kb, A[0]) if scal == "first" else (kb, ka, B[0])
            if ki == kk and ki != "b1" and val not in (INV, PINF, NINF):
                sv = (val << sa) + off if ki[0] in "iu" else float(val * 2.0 ** (sa if scal == "first" else sb))
                if ki[0] in "iu":
                    sv = (val << (sa if scal == "first" else sb)) + off
                    if ki == "u8" and sv >= 1 << 63:
                        sv = None
                if sv is not None:
                    if scal == "first":
                        x = sv
                    else:
                        y = sv
        call(f, ka, kb, A, B, sa, sb, so, w, off, offo, out, x, y, shift=(rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 2])))

    jobs = []
    lens = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70]
    for f in OPS:
        for ka in K:
            for kb in K:
                same = ka == kb
                for r in range(3 if same else 1):
                    jobs.append((f, ka, kb, rng.choice(lens if not same else lens[3:]), None, rng.choice([None, None, "new"] + (["first"] if same else []))))
                if same:
                    for scal in ("first", "second"):
                        jobs.append((f, ka, kb, rng.choice(lens[1:]), scal, rng.choice([None, "new"])))
                elif rng.random() < 0.3:
                    jobs.append((f, ka, kb, rng.choice(lens[1:]), rng.choice(["first", "second"]), None))
    if tier == "thorough":
        for _ in range(20000):
            ka = rng.choice(K)
            kb = ka if rng.random() < 0.5 else rng.choice(K)
            jobs.append((rng.choice(list(OPS)), ka, kb, rng.randint(0, 130), rng.choice([None, None, "first", "second"]), rng.choice([None, "new", "first"])))
    rng.shuffle(jobs)
    rec.emit("begin", {"jobs": len(jobs)}, {})
    for i, j in enumerate(jobs):
        if i % nshards == shard:
            one(*j)

    # scalars outside the array's type
    for t in range(30 if tier == "quick" else 400):
        n = rng.choice([1, 2, 5, 17, 40])
        f = rng.choice(CMPS)
        form = rng.randrange(4)
        if form == 0:    # a negative scalar and unsigned values
            k, kb, v = rng.choice(["u1", "u2", "u4", "u8"]), "i8", -rng.choice([1, 2, 5, 1000, 1 << 27])
            sc = rng.choice([v, np.int64(v)] + ([np.int8(v)] if v >= -128 else []))
            A, s = [rng.randint(0, 200) for _ in range(n)], 0
        elif form == 1:  # large unsigned scalars and signed values
            k, kb, v, s = "i8", "u8", rng.choice([2, 3]), 62
            sc = rng.choice([v << 62, np.uint64(v << 62)])
            A = [rng.choice([-1, 0, 1]) for _ in range(n)]
        elif form == 2:  # an integer beyond 64 bits and floats or integers
            k, kb, v, s = rng.choice(["f8", "i8", "i4"]), "f8", rng.choice([-1, 1]) * rng.choice([1 << 4, 1 << 20]), 60
            sc = v << 60
            A = [rng.choice([-4, -1, 1, 3] if k != "i4" else [0]) for _ in range(n)]
            f = rng.choice(CMPS + ("add", "sub"))
        else:            # a large scalar and floats
            k, kb, v, s = "f8", "u8", rng.choice([1, 2, 3]), 62
            sc = rng.choice([v << 62, np.uint64(v << 62), np.array([v << 62], dtype="u8")])
            A = [rng.choice([-9, -1, 0, 1, 2, 3, 7]) for _ in range(n)]
            f = rng.choice(CMPS + ("add", "sub"))
        if rng.random() < 0.5:
            call(f, k, kb, A, [v], s, s, s, 0, y=sc, scalar=str(sc))
        else:
            call(f, kb, k, [v], A, s, s, s, 0, x=sc, scalar=str(sc))

    # the smallest integer divided by one and minus one
    for f in ("floordiv", "mod"):
        for k in ("i4", "i8"):
            n = rng.choice([1, 3, 20])
            call(f, k, k, [rng.choice([INV, INV, 5, -5]) for _ in range(n)], [rng.choice([-1, 1]) for _ in range(rng.choice([1, n]))], 0, 0, 0, 0)

    # every pair of 8-bit operands, in vectors
    for idx, (f, k) in enumerate([(f, k) for f in OPS for k in ("i1", "u1") if f not in ("pow", "rem", "land", "lor", "lxor", "subdt", "subdates", "div")]):
        if idx % nshards != shard:
            continue
        allv = list(range(-128, 128)) if k == "i1" else list(range(256))
        for b in (rng.sample(allv, 6) + [allv[0], allv[-1], 0, 1, 127]) if tier == "quick" else allv:
            if f == "mod" and b == 0:
                pass
            call(f, k, k, allv, [b], 0, 0, 0, 8, y=None)
            call(f, k, k, [b], allv, 0, 0, 0, 8)

    # long arrays cross the chunks of the worker pool
    for idx, (f, k) in enumerate([("add", "i4"), ("lt", "f8"), ("mul", "i8"), ("max", "u2"), ("xor", "u8"), ("eq", "i2"), ("sub", "f4"), ("ge", "u8")]):
        if idx % nshards != shard % 8:
            continue
        n = rng.choice([32768, 40001, 65535])
        lo, hi = span(k, 0, 1 << 9)
        w = W[k] if k[0] != "f" and W[k] <= 30 else 30 if f in BITS else 0
        if f == "xor":
            lo = 0
        A = rnp.randint(lo, hi + 1, n).tolist()
        B = rnp.randint(lo, hi + 1, n if rng.random() < 0.6 else 1).tolist()
        call(f, k, k, A, B, 0, 0, 0, w, shift=(rng.randrange(2), 0))

    # multi-dimensional arrays: whole, transposed, and views with gaps
    for t in range(12 if tier == "quick" else 200):
        f, k = rng.choice(["add", "sub", "lt", "max", "eq"]), rng.choice(["i4", "f8", "i8", "u1"])
        nr, nc = rng.randint(1, 5), rng.randint(1, 6)
        base = rnp.randint(0, 50, (nr + 2, nc * 2)).astype(k)
        views = {"c": lambda m: np.ascontiguousarray(m[:nr, :nc]), "f": lambda m: np.asfortranarray(m[:nr, :nc]), "cs": lambda m: m[:nr, :nc],
                 "fs": lambda m: np.asfortranarray(m)[:nr, :nc], "st": lambda m: m[:nr, ::2], "t": lambda m: np.ascontiguousarray(m[:nr, :nc].T).T}
        va, vb = rng.choice(list(views)), rng.choice(list(views))
        x, y = views[va](base), views[vb](rnp.randint(0, 50, (nr + 2, nc * 2)).astype(k))
        if rng.random() < 0.3:
            y = np.array([7], dtype=k)
        A, B = x.reshape(-1).astype(int).tolist(), y.reshape(-1).astype(int).tolist()
        call(f, k, k, A, B, 0, 0, 0, 8 if k == "u1" else 0, x=x, y=y, views=[va, vb, nr, nc])
        # shapes that do not match are never combined position by position
        if nr != nc and nr > 1 and nc > 1:
            z = np.asfortranarray(np.zeros((nc, nr), dtype=k))
            xf = np.asfortranarray(np.zeros((nr, nc), dtype=k))
            rec.call("bound", {"f": f, "sh": [nr, nc]}, lambda: rc.BasicMathTwoInputs((xf, z), OPS[f], 0), lambda r: "none" if r is None else "value")

    # concatenating strings
    for t in range(20 if tier == "quick" else 300):
        kind = rng.choice("SU")
        pal = ["", "a", "bc", "xyz", "q" * 9, "ab cd"]
        n = rng.choice([1, 2, 5, 17])
        p, q = [rng.choice(pal) for _ in range(n)], [rng.choice(pal) for _ in range(rng.choice([1, n]))]
        x, y = np.array(p, dtype=kind), np.array(q, dtype=kind)
        form = rng.choice(["arr", "scalar"])
        yy = y[0].item() if form == "scalar" and len(q) == 1 else y
        if len(q) != n and yy is y:
            continue
        if yy is not y and rng.random() < 0.5:
            # the scalar comes first
            rec.call("cat", {"k": kind, "a": [[ord(ch) for ch in v] for v in q], "b": [[ord(ch) for ch in v] for v in p]},
                     lambda: rc.BasicMathTwoInputs((yy, x), 1, 0),
                     lambda r: {"none": 1} if r is None else {"none": 0, "v": [[ord(ch) if isinstance(ch, str) else ch for ch in v] for v in r.tolist()]})
            continue
        rec.call("cat", {"k": kind, "a": [[ord(ch) for ch in v] for v in p], "b": [[ord(ch) for ch in v] for v in q]},
                 lambda: rc.BasicMathTwoInputs((x, yy), 1, 0),
                 lambda r: {"none": 1} if r is None else {"none": 0, "v": [[ord(ch) if isinstance(ch, str) else ch for ch in v] for v in r.tolist()]})
