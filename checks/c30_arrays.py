PID = "C30"
TECHNIQUE = "TLA+ definition of the array a list, tuple, scalar or array becomes; TLC checks the choice of type and validates every recorded call"
LEVEL_NOTE = ("Recorded calls over lists of one and of several kinds, nested lists, tuples, Python and numpy scalars, arrays of all types and layouts, requested types, "
              "copies and orders, and wrong arguments are judged by Arrays.tla item by item, with the reference counts of items and sources; ArraysMC.tla checks the choice of type. "
              "Trusts TLC and the value coding.")
TRACE = "ArraysTrace"
MODELS = [{"spec": "ArraysMC", "workers": 2}]
ASSUMPTIONS = ["which type a list gets that mixes integers of int64 with ones only uint64 holds is left to numpy (it takes float64)"]
import gc
import sys

import numpy as np
from c16_take import layout
from recorder import INV, NINF, OTHER, PINF


class Fast(np.ndarray):
    def __new__(cls, x):
        return np.asarray(x).view(cls)


class Thing:
    pass


class Sub(int):
    pass


class SubStr(str):
    pass


def item(v, objs):
    if isinstance(v, (bool, np.bool_)):
        return {"k": "b", "v": [int(v)]}
    if isinstance(v, (int, np.integer)):
        m = abs(int(v))
        return {"k": "i", "v": [int(v < 0), min(m // 10 ** 18, 2 * 10 ** 9), m // 10 ** 9 % 10 ** 9, m % 10 ** 9]}
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v:
            return {"k": "f", "v": [INV]}
        if v in (float("inf"), -float("inf")):
            return {"k": "f", "v": [PINF if v > 0 else NINF]}
        q = v * 4
        if q == int(q) and abs(q) < 10 ** 9:
            return {"k": "f", "v": [int(q)]}
        return {"k": "f", "v": [x - 32768 for x in np.array([v]).view("u2").tolist()]}
    if isinstance(v, (bytes, np.bytes_)):
        return {"k": "s", "v": list(bytes(v))}
    if isinstance(v, (str, np.str_)):
        return {"k": "u", "v": [ord(c) for c in str(v)]}
    return {"k": "o", "v": [next((i for i, o in enumerate(objs) if o is v), OTHER)]}


def cells(a):
    """The items of an array as numpy reads them, row by row (bytes and text without trailing NULs)."""
    return [a.flat[i] for i in range(a.size)] if a.dtype.kind == "O" else [x for x in a.ravel()]


def tname(d):
    return d.kind if d.kind in "SUO" else "?" if d.kind == "b" else d.str[1:] if d.kind in "iuf" else d.str


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})
    fast = shard % 2 == 1
    if fast:
        rc.SetFastArrayType(Fast(np.zeros(1)), None)
    sizes = [0, 1, 1, 2, 3, 7, 8, 9, 17, 33, 100]

    def describe(r, src, objs, f):
        d = {"t": tname(r.dtype), "sh": list(r.shape), "x": [item(v, objs) for v in cells(r)],
             "w": r.dtype.itemsize // (4 if r.dtype.kind == "U" else 1), "c": int(r.flags.c_contiguous), "f": int(r.flags.f_contiguous),
             "self": int(r is src), "alias": int(isinstance(src, np.ndarray) and np.shares_memory(r, src)),
             "cls": int(isinstance(r, Fast) if fast and f is rc.AsFastArray else isinstance(r, np.ndarray))}
        return d

    def one(op, a, src, args, kw, objs):
        f = rng.choice([rc.AsAnyArray, rc.AsFastArray])

        def call():
            before = repr(src) if not isinstance(src, np.ndarray) else (src.tobytes() if src.dtype.kind != "O" else repr(src))
            things = [o for o in objs if o is not None]
            rb = [sys.getrefcount(o) for o in things] + [sys.getrefcount(src)]
            r = f(*args, **kw)
            d = describe(r, src, objs, f)
            during = [sys.getrefcount(o) for o in things]
            # an array of objects holds each of them as often as it has it
            want = [b + (sum(1 for v in cells(r) if v is o) if r.dtype.kind == "O" and not isinstance(src, np.ndarray) else c - b) for b, c, o in zip(rb, during, things)]
            d["held"] = int(during == want)
            del r
            gc.collect(0)
            ra = [sys.getrefcount(o) for o in things] + [sys.getrefcount(src)]
            d["ref"] = sum(abs(x - y) for x, y in zip(rb, ra))
            after = repr(src) if not isinstance(src, np.ndarray) else (src.tobytes() if src.dtype.kind != "O" else repr(src))
            d["src"] = int(before == after)
            return d
        a = dict(a, fn=f.__name__)
        rec.call(op, a, call, lambda d: d)

    BIG = [2 ** 63 - 1, -2 ** 63, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 10 ** 9, -10 ** 18]
    HUGE = [2 ** 63, 2 ** 64 - 1, 2 ** 63 + 5]
    WIDE = [2 ** 64, 2 ** 70, 10 ** 20]

    def values(kind, n):
        g = {"bool": lambda: rng.random() < 0.5,
             "int": lambda: rng.choice([0, 1, -1, 5, rng.randint(-1000, 1000), rng.choice(BIG)]),
             "small": lambda: rng.randint(-100, 100),
             "nat": lambda: rng.randint(0, 100),
             "sub": lambda: Sub(rng.randint(-9, 9)),
             "huge": lambda: rng.choice(HUGE),
             "wide": lambda: rng.choice([0, 7, rng.choice(HUGE), rng.choice(WIDE)]),
             "float": lambda: rng.choice([0.5, -2.25, float("nan"), float("inf"), -float("inf"), rng.randint(-99, 99) / 4, rs.randn()]),
             "quart": lambda: rng.randint(1, 400) / 4,
             "bytes": lambda: rs.bytes(rng.choice([0, 1, 1, 2, 5, 16, 17])) if rng.random() < 0.7 else b"a\0b",
             "text": lambda: "".join(rng.choice("ab\xe9\u20ac\U0001f600\0") for _ in range(rng.choice([0, 1, 2, 3, 9]))),
             "substr": lambda: SubStr(rng.choice(["x", "yz", "", "\u20acq"])),
             "thing": lambda: rng.choice(POOL), "none": lambda: None}[kind]
        return [g() for _ in range(n)]
    POOL = [Thing() for _ in range(3)]
    kinds = ["bool", "int", "int", "float", "bytes", "text", "sub", "huge", "substr", "thing", "none", "wide"]
    for rep in range(260 if quick else 4000):
        n = rng.choice(sizes)
        mix = rng.random()
        if mix < 0.6:
            k = rng.choice(kinds)
            v = values(k, n)
            if n and k == "wide" and all(x < 2 ** 64 for x in v):
                v[rng.randrange(n)] = 2 ** 70
        elif mix < 0.8:
            # several kinds of number, the odd one anywhere
            v = values(rng.choice(["small", "quart", "bool"]), n)
            for _ in range(rng.randint(1, 2)):
                if n:
                    v[rng.randrange(n)] = values(rng.choice(["small", "quart", "bool"]), 1)[0]
        else:
            v = values(rng.choice(["thing", "none"]), n)
            if n:
                v[rng.randrange(n)] = values(rng.choice(["small", "none"]), 1)[0]
        objs = [x for x in v if isinstance(x, Thing)] or []
        objs = list({id(o): o for o in objs}.values()) + [None]
        form = rng.choice(["list", "list", "list", "tuple", "scalar", "nested"])
        sh = [n]
        if form == "scalar":
            if not n:
                continue
            v = v[:1]
            src, sh = v[0], []
        elif form == "tuple":
            src = tuple(v)
        elif form == "nested" and n:
            c = next(c for c in (4, 3, 2, 1) if n % c == 0)
            src, sh = [v[i:i + c] for i in range(0, n, c)], [n // c, c]
        else:
            src = v
        kw = {}
        if rng.random() < 0.2:
            kw["copy"] = rng.random() < 0.5
        order = ""
        if rng.random() < 0.25:
            order = kw["order"] = rng.choice("CF")
        one("make", {"x": [item(x, objs) for x in v], "sh": sh, "want": "", "order": order}, src, (src,), kw, objs)
    NUM = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]
    for rep in range(120 if quick else 2000):
        n = rng.choice(sizes)
        k = rng.choice(["nat", "quart", "bool", "small"])
        t = rng.choice(["i1", "i2", "i4", "i8", "f4", "f8", "?"] if k == "small" else NUM)
        v = values(k, n)
        form = rng.choice(["list", "tuple", "scalar"])
        if form == "scalar" and not n:
            continue
        src, sh = (v[0], []) if form == "scalar" else (tuple(v), [n]) if form == "tuple" else (v, [n])
        v = v[:1] if form == "scalar" else v
        dt = rng.choice([np.dtype(t), t, np.dtype(t).type])
        args, kw = ((src, dt), {}) if rng.random() < 0.5 else ((src,), {"dtype": dt})
        if rng.random() < 0.3:
            kw["copy"] = rng.random() < 0.5
        one("make", {"x": [item(x, []) for x in v], "sh": sh, "want": t, "order": ""}, src, args, kw, [])
    # arrays
    for rep in range(160 if quick else 2400):
        n = rng.choice(sizes)
        t = rng.choice(NUM + ["S3", "U2", "O"])
        if t[0] == "S":
            a = np.array(values("bytes", n) or [], t)
        elif t[0] == "U":
            a = np.array(values("text", n) or [], t)
        elif t == "O":
            a = np.empty(n, "O")
            a[:] = values("thing", n)
        else:
            a = np.array(values("nat", n), "i8").astype(t)
        how = rng.choice(["plain", "plain", "odd", "strided", "back", "2d", "F", "0d"]) if n else "plain"
        if how in ("2d", "F"):
            c = next(c for c in (4, 3, 2, 1) if n % c == 0)
            a = a.reshape(n // c, c)
            a = np.asfortranarray(a) if how == "F" else a
        elif how == "0d":
            a = a[:1].reshape(())
        elif not (t == "O" and how == "odd"):
            a = layout(rng, a, how)
        if fast and rng.random() < 0.5:
            a = a.view(Fast)
        objs = [o for o in cells(a) if isinstance(o, Thing)]
        kw = {}
        if rng.random() < 0.5:
            kw["copy"] = rng.random() < 0.6
        order = ""
        if rng.random() < 0.3:
            order = kw["order"] = rng.choice("CF")
        want = ""
        if t in NUM and rng.random() < 0.4:
            want = rng.choice([x for x in NUM if np.can_cast(t, x, "safe")])
            bad = [x for x in NUM if not np.can_cast(t, x, "safe")]
            if bad and a.ndim:
                g = rng.choice([rc.AsAnyArray, rc.AsFastArray])
                rec.call("wrong", {"fn": g.__name__}, lambda: g(a, dtype=np.dtype(rng.choice(bad))), lambda r: {})
            kw["dtype"] = np.dtype(want)
        d = {"x": [item(v, objs) for v in cells(a)], "t": tname(a.dtype), "sh": list(a.shape), "copy": int(kw.get("copy") is True), "order": order, "want": want}
        # a plain array given to AsFastArray becomes a view of itself, which the class decides: only the same array is asked of arrays of the class
        plain = fast and not isinstance(a, Fast)
        if plain:
            def call():
                before = a.tobytes() if a.dtype.kind != "O" else repr(a)
                r = rc.AsFastArray(a, **kw)
                dd = describe(r, a, objs, rc.AsFastArray)
                # the view shares the memory of the array it shows
                dd["self"] = int(dd["alias"] == 1 or a.size == 0) if d["copy"] == 0 and not order and not want else 0
                del r
                gc.collect(0)
                dd["ref"], dd["held"] = 0, 1
                dd["src"] = int(before == (a.tobytes() if a.dtype.kind != "O" else repr(a)))
                return dd
            if rng.random() < 0.5:
                rec.call("keep", dict(d, fn="AsFastArray"), call, lambda x: x)
                continue
            one_any(rec, rc, d, a, kw, objs, describe)
            continue
        one("keep", d, a, (a,), kw, objs)
    # datetimes: the unit and the moment
    for rep in range(20 if quick else 200):
        u = rng.choice(["ns", "us", "ms", "s", "D", "M", "Y"])
        c = rng.choice(["datetime64", "timedelta64"])
        x = getattr(np, c)(rng.randint(1, 5000), u)

        def call():
            r = rc.AsAnyArray(x)
            return {"t": "i8" if r.dtype == x.dtype else r.dtype.str, "sh": list(r.shape), "x": [item(int(v), []) for v in r.view("i8")], "w": 8,
                    "c": 1, "f": 1, "ref": 0, "held": 1, "src": 1, "cls": 1}
        rec.call("make", {"x": [item(int(x.astype("i8")), [])], "sh": [], "want": "", "order": "", "fn": u}, call, lambda d: d)
    # wrong arguments
    for src, args, kw in [([1, 2], (), {"order": 1}), ([1, 2], (), {"copy": 3}), ([1, 2], (), {"copy": None}), ([1, 2], ("zz",), {}), ([1], (), {"dtype": "zz"}),
                          ([1], ("i4",), {"dtype": "i4"}), ([1], ("i4", 1), {}), ([[1, 2], [3]], (), {}), ([[1], 2], (), {}), (["x"], ("i4",), {}),
                          (np.arange(3), (), {"order": 2}), ("x", ("f8",), {}), ([None], ("i4",), {}), (Thing(), ("f4",), {}), ([1.5, "a"], ("f8",), {})]:
        for f in (rc.AsAnyArray, rc.AsFastArray):
            rec.call("wrong", {"fn": f.__name__}, lambda: f(src, *args, **kw), lambda r: {})
            rec.call("wrong", {"fn": f.__name__}, lambda: f(), lambda r: {})


def one_any(rec, rc, d, a, kw, objs, describe):
    def call():
        before = a.tobytes() if a.dtype.kind != "O" else repr(a)
        b = sys.getrefcount(a)
        r = rc.AsAnyArray(a, **kw)
        dd = describe(r, a, objs, rc.AsAnyArray)
        del r
        gc.collect(0)
        dd["ref"], dd["held"] = abs(sys.getrefcount(a) - b), 1
        dd["src"] = int(before == (a.tobytes() if a.dtype.kind != "O" else repr(a)))
        return dd
    rec.call("keep", dict(d, fn="AsAnyArray"), call, lambda x: x)
