PID = "C19"
TECHNIQUE = 'TLA+ specification of conversion, common types, stacking and shifting; TLC checks the common-type scan against the laws for every list of types and validates every recorded call'
LEVEL_NOTE = 'Every recorded conversion (121 type pairs, safe and unsafe, any memory layout), common type, stack, homogenization and shift is judged by Convert.tla; the laws of the common type are checked exhaustively for lists of up to 3 (thorough 4) types. Trusts TLC and the value coding.'
TRACE = "ConvertTrace"
MODELS = [{"spec": "ConvertMC", "workers": 2, "thorough_cfg": "ConvertMC_thorough.cfg"}]
ASSUMPTIONS = ["values converted to another type are representable in it (and are not that type's invalid)", "unsafe conversion is given no invalid or infinite values"]
import numpy as np
from c16_take import NUM
from gcols import invalid
from recorder import INV, NINF, OTHER, PINF, enc

BITS = {"b1": 1, "i1": 7, "u1": 8, "i2": 15, "u2": 16, "i4": 31, "u4": 32, "i8": 63, "u8": 64, "f4": 24, "f8": 53}
WORDS = ["", "a", "b", "ab", "abc", "abd", "xbc", "abcdefg", "abcdefgh", "abcdefgi", "xbcdefgh", "abcdefghi", "abcdefghj", "a" * 15, "a" * 16, "a" * 16 + "b",
         "a" * 24, "a" * 25, "a" * 32, "a" * 33]


def name(num):
    return np.dtype([t for t in "?bBhHiIlLqQfd" if np.dtype(t).num == num][0]).str[1:]


def limits(ks, kd, frac):
    """Largest magnitude and power-of-two scale with which a value exists in both types."""
    b = min(BITS[ks], BITS[kd])
    if frac:
        b = min(BITS[ks] - 2, BITS[kd] - (2 if kd[0] == "f" else 0))
    lo = ks == "b1" or ks[0] == "u" or kd[0] == "u"
    return b, lo


def codes(rng, rs, n, ks, kd, inv, frac):
    """Codes in units of 1/4 (frac) or 1, the scale they are multiplied with, and the array."""
    if ks == "b1":
        c = rs.randint(0, 2, n)
        return c.tolist(), 1, c.astype("b1")
    b, unsigned = limits(ks, ks if kd == "b1" else kd, frac)
    scale = 1
    cb = min(b, 29)
    if b > cb and rng.random() < 0.6:
        scale = 1 << rng.randint(1, b - cb)
    elif ks[0] == "f" and kd in ("f4", "f8", "b1") and rng.random() < 0.3:
        scale = 1 << rng.randint(0, 60)
    if frac:
        cb = min(cb, 27)
    hi = min((1 << cb) - 1, 999999990 // (4 if frac else 1))
    if rng.random() < 0.5:
        hi = min(hi, 100)
    c = rs.randint(0 if unsigned else -hi, hi + 1, n).astype(np.int64)
    if n:
        for i in rs.randint(0, n, 3).tolist():
            c[i] = rng.choice([0, hi, 0 if unsigned else -hi, 1])
    # a value that is the target's own marker is not a value of it
    c[c * scale == (255 if kd == "u1" else 65535 if kd == "u2" else -1 << 40)] = 0
    c[c * scale == (255 if ks == "u1" else 65535 if ks == "u2" else -1 << 40)] = 0
    if frac:
        c = c * 4 + rs.randint(0, 4, n)
        a = (c / 4.0).astype(ks)
        scale = 1
    elif scale > 1:
        a = c.astype(ks) * np.dtype(ks).type(scale)
    else:
        a = c.astype(ks)
    c = c.tolist()
    if inv and n:
        for i in rs.randint(0, n, max(1, n // 6)).tolist():
            c[i] = INV
            a[i] = invalid(ks)
        if ks[0] == "f" and rng.random() < 0.5:
            for i in rs.randint(0, n, 2).tolist():
                s = rng.random() < 0.5
                c[i], a[i] = (PINF, np.inf) if s else (NINF, -np.inf)
    return c, scale, a


def unscale(r, unit, scale):
    """Codes of an array of values code * scale / unit."""
    r = np.ascontiguousarray(r).reshape(-1)
    k = r.dtype.kind
    if k == "b" or (unit == 1 and scale == 1):
        return enc(r)
    if k == "f":
        with np.errstate(all="ignore"):
            return enc(r.astype("f8") * unit / scale)
    out = enc(r // r.dtype.type(scale)) if scale > 1 else enc(r)
    bad = (r % r.dtype.type(scale) != 0) & (r != invalid(r.dtype.str[1:]))
    sent = r == invalid(r.dtype.str[1:])
    return [INV if s else OTHER if w else v for v, w, s in zip(out, bad.tolist(), sent.tolist())]


def shape(rng, rs, a):
    """The same elements, in some view: strided, reversed, two- or three-dimensional, either order, transposed, sliced."""
    n = len(a)
    r = rng.random()
    if r < 0.35 or n == 0:
        return a
    if r < 0.5:
        st = rng.choice([2, 3])
        b = np.zeros(n * st, a.dtype)
        b[::st] = a
        return b[::st]
    if r < 0.55:
        return a[::-1]
    f = [d for d in (2, 3, 4) if n % d == 0]
    if not f:
        b = np.zeros(n + 1, a.dtype)
        b[1:] = a
        return b[1:]
    d = rng.choice(f)
    x = a.reshape(d, n // d)
    if rng.random() < 0.3 and (n // d) % 2 == 0:
        x = x.reshape(d, 2, n // d // 2)
    r = rng.random()
    if r < 0.2:
        return x
    if r < 0.4:
        return np.asfortranarray(x)
    if r < 0.6:
        return x.transpose(tuple(rs.permutation(x.ndim)))
    if r < 0.8:
        return x[::rng.choice([1, 2, -1]), ::rng.choice([1, 2, -1])]
    return np.asfortranarray(x)[::rng.choice([1, 2]), ::rng.choice([1, 2])]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"

    def convert(ks, kd, n):
        safe = rng.random() < 0.6
        frac = ks[0] == "f" and kd != "b1" and rng.random() < 0.4
        c, scale, a = codes(rng, rs, n, ks, kd, safe, frac)
        idx = shape(rng, rs, np.arange(n))
        # the view is rebuilt over the values so that codes and values are read in the same (logical) order
        order = np.ascontiguousarray(idx).reshape(-1)
        src = np.empty(max(1, n), a.dtype)[:n]
        src[:] = a
        v = relay(idx, src)
        c = [c[i] for i in order.tolist()]
        keep = v.tobytes()
        fn = rc.ConvertSafe if safe else rc.ConvertUnsafe
        unit = 4 if frac else 1

        def out(r):
            k = r.dtype.str[1:]
            fl = (not v.flags.c_contiguous or r.flags.c_contiguous) and (not v.flags.f_contiguous or r.flags.f_contiguous) and r.shape == v.shape
            return {"k": k, "c": unscale(r, unit if k[0] == "f" else 1, 1 if kd == "b1" else scale), "flags": int(fl), "same": int(v.tobytes() == keep)}
        rec.call("convert", {"c": c, "k": ks, "t": kd, "su": unit, "safe": int(safe), "lay": [list(v.shape), [s // v.itemsize for s in v.strides]]},
                 lambda: fn(v, np.dtype(kd).num), out)

    def relay(idx, src):
        """An array laid out exactly as idx (a view of 0..n-1) is, with src's values at those numbers."""
        if idx.size == 0:
            return src[:0].reshape(idx.shape)
        root = idx
        while root.base is not None and isinstance(root.base, np.ndarray):
            root = root.base
        mem = root.ravel(order="K")
        buf = src[np.clip(mem, 0, len(src) - 1)]
        off = (idx.__array_interface__["data"][0] - root.__array_interface__["data"][0]) // idx.itemsize
        return np.ndarray(idx.shape, src.dtype, buf, off * src.itemsize, tuple(s // idx.itemsize * src.itemsize for s in idx.strides))

    def s1(x):
        if rng.random() < 0.3:
            b = np.zeros(len(x) * 2, x.dtype)
            b[::2] = x
            return b[::2]
        return x

    def num(k, n, kd=None):
        lo = -100 if k[0] in "if" and (kd is None or kd[0] in "if") else 0
        c = rs.randint(lo, 2 if k == "b1" else 100, n)
        a = c.astype(k)
        c = c.tolist()
        if k != "b1" and n:
            for i in rs.randint(0, n, max(1, n // 6)).tolist():
                c[i], a[i] = INV, invalid(k)
        return c, a

    def kinds():
        m = rng.choice([1, 2, 3, 3, 8])
        return [rng.choice(NUM) for _ in range(m)] if rng.random() < 0.7 else [rng.choice(NUM)] * m

    def upcast(ks):
        arrs = [np.zeros(rng.choice([0, 1, 3]), k) for k in ks]
        rec.call("upcast", {"ks": ks}, lambda: rc.GetUpcastNum(arrs), lambda r: {"k": name(r)})

    def stack(n):
        ks = kinds()
        t = "" if rng.random() < 0.6 else rng.choice(NUM)
        arrs = [num(k, rng.choice([0, 1, 5, 100, n]), t or None) for k in ks]
        vs = [s1(a) for _, a in arrs]
        keep = [v.tobytes() for v in vs]
        off = [0] + np.cumsum([len(c) for c, _ in arrs]).tolist()
        rec.call("stack", {"arrs": [c for c, _ in arrs], "ks": ks, "t": t, "off": off},
                 (lambda: rc.HStack(vs)) if not t else (lambda: rc.HStack(vs, np.dtype(t).num)),
                 lambda r: {"k": r.dtype.str[1:], "c": enc(r), "same": int([v.tobytes() for v in vs] == keep)})

    def strings(n, wide=False):
        m, u = rng.choice([1, 2, 3, 6]) if not wide else 3, rng.choice("SU")
        ws = [rng.choice([1, 2, 3, 7, 8, 9, 16, 17, 24, 33]) for _ in range(m)] if wide or rng.random() < 0.6 else [rng.choice([1, 3, 8, 16])] * m
        arrs, vs = [], []
        for w in ws:
            fit = [i for i, s in enumerate(WORDS) if len(s) <= w]
            c = rs.randint(0, len(fit), rng.choice([0, 1, 5, n]) if not wide else n // 3 + 1)
            arrs.append(c.tolist())
            vs.append(s1(np.array(WORDS[:len(fit)], "%s%d" % (u, w))[c]))
        keep = [v.tobytes() for v in vs]
        back = {s: i for i, s in enumerate(WORDS)}

        def out(r):
            if r.dtype.kind != u:
                raise TypeError(r.dtype)
            return {"w": r.dtype.itemsize // (4 if u == "U" else 1), "c": [back.get(x.decode() if u == "S" else x, OTHER) for x in r.tolist()],
                    "same": int([v.tobytes() for v in vs] == keep)}
        rec.call("strings", {"arrs": arrs, "w": max(ws), "off": [0] + np.cumsum([len(c) for c in arrs]).tolist()}, lambda: rc.HStack(vs), out)

    def homogenize(n):
        ks = kinds()
        t = "" if rng.random() < 0.6 else rng.choice(NUM)
        arrs = [num(k, n, t or None) for k in ks]
        vs = [s1(a) for _, a in arrs]
        keep = [v.tobytes() for v in vs]

        def out(r):
            k = set(x.dtype.str[1:] for x in r)
            return {"k": k.pop() if len(k) == 1 else "", "arrs": [enc(x) for x in r], "same": int([v.tobytes() for v in vs] == keep)}
        rec.call("homogenize", {"arrs": [c for c, _ in arrs], "ks": ks, "t": t}, lambda: rc.HomogenizeArrays(vs, np.dtype(t).num if t else -1), out)

    def shift(n):
        arrs, vs, refuse = [], [], 0
        for k in kinds():
            m = rng.choice([0, 1, 2, 3, 9, n])
            if m > 1 and rng.random() < 0.3:
                # the columns of a table, each moved on its own
                cols = [num(k, m) for _ in range(rng.choice([2, 3]))]
                arrs += [c for c, _ in cols]
                vs.append(np.asfortranarray(np.array([a for _, a in cols]).T))
                continue
            c, a = num(k, m)
            arrs.append(c)
            r = rng.random()
            if r < 0.05:
                b = np.zeros(m * 2 + 1, a.dtype)
                b[:m * 2:2] = a
                a = b[:m * 2:2]
                refuse = 1
            elif r < 0.1:
                a.flags.writeable = False
                refuse = 1
            vs.append(a)
        k = rng.choice([-n - 1, -n, -5, -2, -1, 0, 1, 2, 3, n - 1, n, n + 1])
        rec.call("shift", {"arrs": arrs, "k": k, "refuse": refuse}, lambda: rc.ShiftArrays(vs, k),
                 lambda r: {"arrs": [enc(col) for x in vs for col in (x.T if x.ndim == 2 else [x])]})

    rec.emit("begin", {}, {})
    sizes = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 36, 63, 64, 65, 100, 1000, 1200]
    pairs = [(a, b) for a in NUM for b in NUM]
    for rep in range(1 if quick else 8):
        for i, (a, b) in enumerate(pairs):
            if i % nshards != shard:
                continue
            for n in rng.sample(sizes, 4) + [rng.choice([8, 16, 24, 36])]:
                convert(a, b, n)
    for _ in range(60 if quick else 600):
        upcast(kinds())
    for _ in range(60 if quick else 500):
        n = rng.choice(sizes)
        stack(n)
        strings(n)
        homogenize(n)
        shift(n)
    # lengths that are divided between threads
    for j in range(3 if quick else 20):
        n = rng.choice([16383, 16384, 16386, 32768, 40000])
        convert(rng.choice(NUM), rng.choice(NUM), n)
        rng.choice([stack, homogenize, strings])(rng.choice([16384, 16390, 33000]))
    n = 66000 if quick else 140000
    stack(n)
    strings(17000, True)
