PID = "C21"
TECHNIQUE = "TLA+ specification of the unary operators; TLC checks the strided-walk design model and rounding laws and validates every recorded unary call"
LEVEL_NOTE = ("Every recorded unary call (operators x types x lengths x alignments x strides x multi-dimensional layouts, with and without output arrays, "
              "all 8/16-bit values) is a step of Unary.tla. Trusts TLC and the coding; a call the library leaves to numpy (None) is accepted.")
TRACE = "UnaryTrace"
MODELS = [{"spec": "UnaryMC", "workers": 3, "thorough_cfg": "UnaryMC_thorough.cfg"}]
ASSUMPTIONS = ["roots, logarithms and exponentials are compared on exact cases (powers), within floating point rounding", "the sign of a zero is not compared",
               "isnormal of an integer invalid is left open"]
import numpy as np

OPS = {"abs": 201, "neg": 202, "fabs": 203, "invert": 204, "floor": 205, "ceil": 206, "trunc": 207, "round": 208, "negative": 212, "sign": 214,
       "exp": 216, "exp2": 217, "sqrt": 301, "log": 302, "log2": 303, "log10": 304, "cbrt": 308,
       "lnot": 601, "isinf": 603, "isnan": 604, "isfinite": 605, "isnormal": 606, "isnotinf": 607, "isnotnan": 608, "isnotfinite": 609,
       "isnotnormal": 610, "isnanorzero": 611, "signbit": 612, "bnot": 701}
TESTS = [f for f in OPS if f.startswith("is")] + ["lnot", "signbit"]
K = ["b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "f16"]
WID = {"b1": 8, "i1": 8, "u1": 8, "i2": 16, "u2": 16, "i4": 32, "u4": 32, "i8": 64, "u8": 64}
LOGS = {"log": 2.718281828459045, "log2": 2.0, "log10": 10.0}


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from recorder import INV, PINF, NINF, OTHER, LIM
    rng, rnp = rec.rng, rec.np

    def make(f, k, codes, s):
        """The values codes * 2^s (logarithms: base^code; exponentials: the argument that gives 2^code)."""
        c = np.asarray(codes, dtype=np.int64)
        if k == "b1":
            return c.astype(bool)
        if k[0] == "f":
            with np.errstate(all="ignore"):
                v = np.ldexp(c.astype("f16" if k == "f16" else "f8"), s)
                if f == "log":
                    v = np.exp2(c.astype("f8"))      # in units of ln 2
                elif f in LOGS:
                    v = np.power(LOGS[f], c.astype("f8"))
                elif f == "exp":
                    v = c * np.log(2.0)
                v = v.astype(k)
                v[c == INV], v[c == PINF], v[c == NINF] = np.nan, np.inf, 0 if f in LOGS else -np.inf
                v[c == OTHER] = -3
            return v
        if f in LOGS or f in ("exp", "exp2"):
            b = 10 if f == "log10" else 2
            return np.array([0 if x == NINF else -3 if x == OTHER else x if f in ("exp", "exp2") else b ** x for x in codes], dtype=k)
        inv = np.iinfo(k).min if k[0] == "i" else np.iinfo(k).max
        return np.array([inv if x == INV else x << s for x in codes], dtype=k)

    def decode(f, k, r, s):
        if r.dtype.kind == "b":
            return [int(v) if v < 2 else OTHER for v in r.view(np.uint8).tolist()]
        if r.dtype.kind in "iu":
            m = np.iinfo(k).max if k[0] == "u" and f in ("invert", "bnot") else 0
            out = []
            for v in r.tolist():
                if f in ("abs", "neg", "negative") and k[0] == "i" and v == np.iinfo(k).min:
                    out.append(INV)
                    continue
                v = v - m
                q = v if f == "sign" else v >> s
                out.append(q if (f == "sign" or (q << s) == v) and abs(q) <= (1 << 30) else OTHER)
            return out
        with np.errstate(all="ignore"):
            w = r.astype("f8") if f in LOGS or f in ("exp", "exp2", "cbrt") else np.ldexp(r, 0 if f == "sign" else -(s // 2 if f == "sqrt" else s)).astype("f8")
            if f == "log":
                w = w / np.log(2.0)
            if f == "cbrt":
                w = np.ldexp(w, -(s // 3))
            q = np.rint(w)
            tol = 1e-5 if r.dtype.itemsize == 4 else 1e-9
            exact = f not in ("exp", "exp2", "cbrt") and f not in LOGS
            ok = (q == w) if exact else np.abs(w - q) <= tol * np.maximum(1, np.abs(q))
        return [INV if v != v else PINF if v == np.inf else NINF if v == -np.inf else int(b) if o and abs(b) < LIM else OTHER
                for v, b, o in zip(w.tolist(), q.tolist(), ok.tolist())]

    def aligned(v, off):
        """A copy that starts off elements after a 64-byte boundary."""
        n = v.size * v.dtype.itemsize
        b = np.zeros(n + 128 + off * v.dtype.itemsize, np.uint8)
        p = (-b.ctypes.data) % 64 + off * v.dtype.itemsize
        w = b[p:p + n].view(v.dtype)
        w[:] = v
        return w

    def call(f, k, A, s=0, w=0, u=1, sub=0, x=None, out=None, method=None, **extra):
        x = make(f, k, A, s) if x is None else x
        a = {"f": f, "k": k, "W": w, "u": u, "sub": sub, "a": A, "s": s, "shape": list(x.shape), **extra}
        x0 = x.copy()

        def enc(r):
            if r is None:
                return {"none": 1}
            o = out is None or np.shares_memory(r, out) or x.size == 0
            keep = out is x or x0.tobytes() == x.tobytes()
            return {"none": 0, "k": {"f16": "f16"}.get(r.dtype.str[1:], r.dtype.str[1:]), "v": decode(f, k, r.reshape(-1), s), "out": int(bool(o)), "keep": int(bool(keep)), "shape": list(r.shape)}
        rec.call("un", a, (lambda: rc.BasicMathOneInput((x, out), OPS[f], 0)) if out is not None else
                 (lambda: rc.BasicMathUnaryOp(x, OPS[f])) if method == "u" else (lambda: rc.BasicMathOneInput(x if method == "o" else (x,), OPS[f], 0)), enc)

    def outkind(f, k):
        return "b1" if f in TESTS else k if k in ("f4", "f16") or f not in ("sqrt", "cbrt", "exp", "exp2") and f not in LOGS else "f8"

    def codes(f, k, n):
        """(codes, scale, W, u, sub)"""
        fl = k[0] == "f"
        if k == "b1":
            return [rng.randrange(2) for _ in range(n)], 0, 8, 1, 0
        hi = (1 << (WID[k] - (k[0] == "i"))) - 1 if not fl else 1 << (20 if k == "f4" else 27)
        lo = -hi if fl or k[0] == "i" else 0
        s, w, u, sub = 0, 0, 1, 0
        if f == "sqrt":
            q = (1 << (WID[k] - (k[0] == "i"))) - 1 if not fl else 0
            m = 20 if k == "f4" else 30000
            if not fl:
                s = rng.choice([0, WID[k] - 8 - WID[k] % 2])
                m = min(m, int(((hi >> s)) ** 0.5))
            else:
                s = rng.choice([0, 10, -4])
            A = [rng.randint(0, m) ** 2 if rng.random() < 0.85 else (-rng.randint(1, 9) if lo < 0 else 0) for _ in range(n)]
        elif f == "cbrt":
            m = 1200
            if not fl:
                s = rng.choice([0, 3 * ((WID[k] - 6) // 3)])
                m = 0
                while (m + 1) ** 3 <= min(hi >> s, 1200 ** 3):
                    m += 1
            A = [rng.randint(-m if lo < 0 else 0, m) ** 3 for _ in range(n)]
        elif f in LOGS:
            if fl:
                m = 30 if k == "f4" else 200
                A = [rng.choice([rng.randint(-m, m), rng.randint(-m, m), NINF, PINF, INV, OTHER]) for _ in range(n)]
            else:
                m = 0
                while (10 if f == "log10" else 2) ** (m + 1) <= hi:
                    m += 1
                A = [rng.choice([rng.randint(0, m), m, NINF] + ([OTHER] if lo < 0 else [])) for _ in range(n)]
            return A, 0, 0, 1, 0
        elif f in ("exp", "exp2"):
            if f == "exp" and not fl:
                return [0] * n, 0, 0, 1, 0
            A = [rng.choice([rng.randint(0, 20), NINF, PINF, INV] if fl else [rng.randint(0, 20)]) for _ in range(n)]
            return A, 0, 0, 1, 0
        elif fl:
            s = rng.choice([0, -2, -2, -1, 9] if f in ("floor", "ceil", "trunc", "round") else [0, -3, 30, -60])
            u = 1 << -s if s < 0 else 1
            if f in ("floor", "ceil", "trunc", "round"):
                A = [rng.randint(-17, 17) if rng.random() < 0.7 else rng.randint(lo, hi) for _ in range(n)]
            else:
                u = 1
                A = [rng.choice([0, 1, -1, lo, hi]) if rng.random() < 0.4 else rng.randint(lo, hi) for _ in range(n)]
                if f in TESTS and k != "f16" and rng.random() < 0.3:
                    s, sub = (-148, 1) if k == "f4" else (-1070, 1)
                    A = [max(min(v, 1000), -1000) for v in A]
                if f == "signbit":
                    A = [v or 1 for v in A]
        else:
            s = rng.choice([0, 0, rng.randint(0, WID[k] - 2)]) if f not in ("invert", "bnot") else 0
            w = WID[k] - s
            w = w if w <= 30 else 0
            c = 1 << 29
            A = [rng.choice([0, 1, max((lo - 1) >> s if lo < 0 else 0, -c), min(hi >> s, c)]) if rng.random() < 0.4 else rng.randint(max((lo - 1) >> s if lo < 0 else 0, -c), min(hi >> s, c)) for _ in range(n)]
            if lo < 0:
                A = [v + 1 if v << s == lo - 1 else v for v in A]
        for i in range(n):
            p = rng.random()
            if fl and p < 0.1 and f != "signbit":
                A[i] = INV
            elif fl and p < 0.18:
                A[i] = rng.choice([PINF, NINF])
            elif not fl and p < 0.1 and (f in TESTS or (f in ("abs", "neg", "negative", "sign") and lo < 0)):
                A[i] = INV
        if not fl and lo == 0:
            A = [min(v, min(hi, 1 << 29) - 1) if v != INV and v << s == hi else v for v in A]
        return A, s, w, u, sub

    # every operator and type, at many lengths, alignments and strides, fresh and given outputs
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 70]
    jobs = [(f, k) for f in OPS for k in K for _ in range(4 if tier == "quick" else 80)]
    rng.shuffle(jobs)
    rec.emit("begin", {"jobs": len(jobs)}, {})
    for i, (f, k) in enumerate(jobs):
        if i % nshards != shard:
            continue
        n = rng.choice(lens)
        A, s, w, u, sub = codes(f, k, n)
        x = make(f, k, A, s)
        form = rng.choice(["aligned", "off", "stride", "reverse", "plain"])
        if form == "aligned":
            x = aligned(x, 0)
        elif form == "off":
            x = aligned(x, rng.randint(1, 3))
        elif form == "stride":
            b = np.zeros(n * 3, dtype=x.dtype)
            b[::3] = x
            x = b[::3]
        elif form == "reverse":
            x = np.ascontiguousarray(x[::-1])[::-1]
        out, o = None, rng.random()
        if o < 0.3:
            z = np.zeros(n, dtype=outkind(f, k))
            out = aligned(z, rng.choice([0, 0, 1, 2]))
            if o < 0.08:
                out = np.zeros(2 * n, dtype=outkind(f, k))[::2]
        elif o < 0.4 and outkind(f, k) == k:
            out = x
        call(f, k, A, s, w, u, sub, x=x, out=out, method=rng.choice("uot"), form=form)

    # all values of the small types
    for idx, (f, k) in enumerate([(f, k) for f in ("abs", "neg", "invert", "sign", "bnot", "isnan", "isnotnan", "isfinite", "isnotfinite", "isnanorzero", "lnot", "isnormal")
                                  for k in ("i1", "u1") + (("i2", "u2") if tier == "thorough" else ())]):
        if idx % nshards != shard:
            continue
        A = list(range(np.iinfo(k).min, np.iinfo(k).max + 1))
        if f in TESTS or f in ("abs", "neg") and k[0] == "i":
            A = [INV if v == (np.iinfo(k).min if k[0] == "i" else np.iinfo(k).max) else v for v in A]
        call(f, k, A, 0, WID[k], x=aligned(make(f, k, A, 0), rng.choice([0, 1])), method="u")

    # multi-dimensional views, into new arrays and given ones
    def view(x):
        for _ in range(rng.randint(0, 3)):
            t = rng.randrange(6)
            ax = rng.randrange(x.ndim)
            pre = (slice(None),) * ax
            if t == 0:
                x = x.transpose(rng.sample(range(x.ndim), x.ndim))
            elif t == 1:
                x = x[pre + (slice(None, None, rng.choice([2, -1, -2])),)]
            elif t == 2:
                x = x[pre + (slice(0, rng.randint(1, 3)),)]
            elif t == 3 and x.ndim < 4:
                x = x[None]
            elif t == 4 and x.ndim < 4:
                x = np.broadcast_to(x, (rng.randint(1, 3),) + x.shape)
            elif t == 5 and x.ndim > 1:
                x = x[pre + (0,)]
        return x
    for t in range(60 if tier == "quick" else 2000):
        k, f = rng.choice([("f8", "abs"), ("f8", "isnan"), ("i4", "neg"), ("f4", "floor"), ("i8", "isnotnan"), ("u2", "lnot"), ("i2", "abs"), ("f8", "sqrt"), ("u4", "bnot")])
        sh = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
        base = rnp.randint(-30 if k[0] != "u" and f != "sqrt" else 0, 31, sh)
        if f == "sqrt":
            base = base * base
        x = base.astype(k)
        if k[0] == "f":
            x[rnp.random_sample(sh) < 0.1] = np.nan
        if rng.random() < 0.5:
            x = np.asfortranarray(x)
        x = view(x)
        A = [INV if v != v or (k[0] == "i" and v == np.iinfo(k).min) else int(v) for v in x.reshape(-1).tolist()]
        out, o = None, rng.random()
        if o < 0.4:
            out = np.zeros(x.shape, dtype=outkind(f, k))
        if o < 0.2:
            out = np.zeros(x.shape[::-1], dtype=outkind(f, k)).T
        elif o < 0.25:
            out = view(np.zeros([6] * x.ndim, dtype=outkind(f, k)))
            if out.shape != x.shape or not out.flags.writeable:
                out = None
        call(f, k, A, 0, WID.get(k, 0) if WID.get(k, 64) < 30 else 0, x=x, out=out, strides=[int(v) for v in x.strides], shapeout=0)

    # long arrays cross the chunks of the worker pool
    for idx, (f, k) in enumerate([("abs", "i4"), ("isnan", "f8"), ("floor", "f4"), ("isnotfinite", "f4"), ("isnan", "i2"), ("sqrt", "f8"), ("neg", "i8"), ("lnot", "u1"),
                                  ("sign", "f8"), ("bnot", "i1"), ("isfinite", "f8"), ("round", "f8")]):
        if idx % nshards != shard % 12:
            continue
        n = rng.choice([32768, 40001, 65535])
        c = rnp.randint(0 if k[0] == "u" or f == "sqrt" else -100, 101, n)
        c = c * c if f == "sqrt" else c
        A = c.tolist()
        if k[0] == "f" or f.startswith("is"):
            for _ in range(40):
                A[rng.randrange(n)] = INV
        x = make(f, k, A, 0)
        st = rng.choice([0, 0, 2])
        if st:
            b = np.zeros(2 * n, dtype=x.dtype)
            b[::2] = x
            x = b[::2]
        else:
            x = aligned(x, rng.choice([0, 0, 1]))
        call(f, k, A, 0, WID[k] if WID.get(k, 64) < 30 else 0, x=x, out=np.zeros(n, dtype=outkind(f, k)) if rng.random() < 0.4 else None, method="u")
