PID = "C31"
TECHNIQUE = "TLA+ definition of Python's operators on the library's array class; TLC checks the laws tying them together and validates every recorded operation"
LEVEL_NOTE = ("Recorded operations (26 operators, six comparisons; arrays of the class, numpy arrays, Python and numpy scalars on either side; in place; all number types, lengths, "
              "layouts; threaded sizes) are judged element by element by Operators.tla, with result type, class, identity of in-place results, operands and reference counts. "
              "Trusts TLC and the value coding.")
TRACE = "OperatorsTrace"
MODELS = [{"spec": "OperatorsMC", "workers": 2}]
ASSUMPTIONS = ["numbers are small and results exact (wrap-around and special values are C20's)", "Python scalars fit the array's type"]
import gc
import operator as O
import sys

import numpy as np
from c16_take import layout
from recorder import INV, fracs


class Fast(np.ndarray):
    def __new__(cls, x):
        return np.asarray(x).view(cls)


BIN = {"add": O.add, "sub": O.sub, "mul": O.mul, "div": O.truediv, "floordiv": O.floordiv, "mod": O.mod, "pow": O.pow, "and": O.and_, "or": O.or_, "xor": O.xor,
       "shl": O.lshift, "shr": O.rshift, "eq": O.eq, "ne": O.ne, "lt": O.lt, "le": O.le, "gt": O.gt, "ge": O.ge}
INP = {"add": O.iadd, "sub": O.isub, "mul": O.imul, "div": O.itruediv, "floordiv": O.ifloordiv, "mod": O.imod, "pow": O.ipow, "and": O.iand, "or": O.ior, "xor": O.ixor,
       "shl": O.ilshift, "shr": O.irshift}
UNA = {"neg": O.neg, "abs": abs, "inv": O.invert}
CMP = ("eq", "ne", "lt", "le", "gt", "ge")
K = ["b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]


def num(a, div=False):
    if div:
        return fracs(a, 1e-6 if a.dtype.itemsize == 4 else 1e-9, 1000)
    if a.dtype.kind == "b":
        return a.ravel().view("u1").tolist()
    from recorder import enc
    return enc(np.asarray(a), False)


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})
    rc.SetFastArrayType(Fast(np.zeros(1)), None)
    rc.BasicMathHook(Fast(np.zeros(1)), np.zeros(1))
    sizes = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 65, 100, 129]
    np.seterr(all="ignore")

    def codes(k, f, side, n):
        lo = 0 if k[0] in "bu" or k == "pb" else -5
        hi = 1 if k in ("b1", "pb") else 9
        if f == "pow":
            lo, hi = (max(lo, -3), 3) if side == "l" else (0, 3)
            hi = 1 if k in ("b1", "pb") else hi
        if f in ("shl", "shr"):
            lo, hi = (lo, 3) if side == "l" else (0, 4)
        if f == "sub" and k[0] == "u":
            lo, hi = (20, 29) if side == "l" else (0, 9)
        c = rs.randint(lo, hi + 1, n)
        if f == "mod":
            # the sign of a remainder depends on who computes it
            lo = 0
        c = rs.randint(lo, hi + 1, n) if f == "mod" else c
        if f in ("floordiv", "mod") and side == "r":
            c[c == 0] = 1
        return c.tolist()

    def arr(k, c):
        v = np.array(c, "i8").astype(k)
        return v

    def nan(c, k, f):
        if k[0] == "f" and f not in ("pow",) and rng.random() < 0.3:
            return [INV if rng.random() < 0.2 else x for x in c]
        return c

    def full(k, c):
        v = arr(k, [0 if x == INV else x for x in c])
        for i, x in enumerate(c):
            if x == INV:
                v[i] = np.nan
        return v

    def state(x):
        return x.tobytes() if isinstance(x, np.ndarray) else repr(x)

    def fits(ka, kb):
        # int64 with uint64 meet in float64
        return True

    def pick(f):
        while True:
            ka, kb = rng.choice(K), rng.choice(K)
            if f in ("and", "or", "xor", "shl", "shr") and ("f" in ka or "f" in kb or {ka, kb} & {"u8"} and {ka, kb} & {"i1", "i2", "i4", "i8"}):
                continue
            # which float an integer and a float32 meet in depends on who computes it, numpy or the library
            if ("f4" in (ka, kb) and ka != kb) or (f not in CMP and {ka, kb} & {"u8"} and {ka, kb} & {"i1", "i2", "i4", "i8"}):
                continue
            if f in ("shl", "shr") and ("b1" in (ka, kb) or ka != kb):
                continue
            if f not in ("add", "mul", "and", "or", "xor") + CMP and "b1" in (ka, kb):
                continue
            if f == "pow" and (ka != kb or ka in ("i1", "u1")):
                continue
            if f == "sub" and (ka[0] == "u") != (kb[0] == "u"):
                continue
            return ka, kb

    def operands(f, big=False, inplace=False):
        ka, kb = pick(f)
        form = rng.choice(["FF", "FF", "FN", "NF", "Fs", "Fs", "sF", "Fp", "Fp", "pF", "F1", "1F"]) if not inplace else rng.choice(["FF", "FN", "Fs", "Fp", "Fp", "F1"])
        if "s" in form and ka != kb:
            form = form.replace("s", "1")
        n = rng.choice([32768, 32769, 40001, 50000]) if big else rng.choice(sizes)
        na, nb = (1 if form[0] in "sp1" else n), (1 if form[1] in "sp1" else n)
        if form[0] == "p":
            ka = "pb" if kb == "b1" else "pf" if kb[0] == "f" and rng.random() < 0.5 else "pi"
        if form[1] == "p":
            kb = "pb" if ka == "b1" else "pf" if ka[0] == "f" and rng.random() < 0.5 else "pi"
        other = kb if ka[0] == "p" else ka
        a = codes(other if ka == "pi" else ka, f, "l", na)
        b = codes(other if kb == "pi" else kb, f, "r", nb)
        how = rng.choice(["plain", "plain", "odd", "strided", "back", "2d"]) if n > 1 and form[0] not in "sp1" and form[1] not in "sp1" else "plain"

        def make(k, c, t):
            if t == "p":
                return bool(c[0]) if k == "pb" else float(c[0]) if k == "pf" else int(c[0])
            v = arr(k, c)
            if t == "s":
                return v[0]
            if how == "2d":
                d = next(d for d in (5, 4, 3, 2, 1) if len(c) % d == 0)
                v = v.reshape(len(c) // d, d)
                v = np.asfortranarray(v) if rng.random() < 0.2 else v
            elif how != "plain":
                v = layout(rng, v, how if rng.random() < 0.7 else "plain")
            return v if t == "N" else v.view(Fast)
        x, y = make(ka, a, form[0]), make(kb, b, form[1])
        return ka, kb, a, b, form, how, x, y

    def refs(xs):
        return [sys.getrefcount(v) if isinstance(v, np.ndarray) else 0 for v in xs]

    def binary(f, big=False):
        ka, kb, a, b, form, how, x, y = operands(f, big)
        if f == "pow" and form in ("Fp", "Fs"):
            pass

        # the same operator called for the caller
        led = "N" not in form and rng.random() < 0.15

        def call():
            keep, rb = (state(x), state(y)), refs((x, y))
            r = rc.LedgerFunction(BIN[f], x, y) if led else BIN[f](x, y)
            shape = np.broadcast(x, y).shape
            d = {"k": r.dtype.str[1:], "v": num(np.ascontiguousarray(r), f == "div"), "cls": int(isinstance(r, Fast)), "sh": int(r.shape == shape), "src": int((state(x), state(y)) == keep)}
            own = int(r is x or r is y)
            del r
            gc.collect(0)
            d["ref"] = sum(abs(p - q) for p, q in zip(rb, refs((x, y))))
            return d
        rec.call("bin", {"f": f, "ka": ka, "kb": kb, "a": a, "b": b, "form": form, "how": how}, call, lambda d: d)

    def inplace(f, big=False):
        while True:
            ka, kb, a, b, form, how, x, y = operands(f, big, True)
            kk = {"pb": "b1", "pi": ka if ka != "b1" else "i8", "pf": ka if ka[0] == "f" else "f8"}.get(kb, kb)
            # into an integer array only what stays an integer; quotients only in floats
            if f == "div" and ka[0] != "f":
                continue
            if (ka != "b1" or kk == "b1") and np.can_cast(np.result_type(ka, kk), ka, "same_kind"):
                if ka[0] == "f" or kk[0] != "f":
                    if f not in ("pow", "floordiv", "mod") or kk == ka:
                        break
        if ka[0] == "u" and f == "sub" or ka[0] == "u" and kb[0] == "i":
            b = [abs(v) for v in b]
            y = abs(y)
            if isinstance(y, np.ndarray) and form in ("FF", "F1"):
                y = y.view(Fast)
        if x.ndim and x.size and not x.flags.writeable:
            return

        def call():
            keep, rb = state(y), refs((y,))
            c0 = sys.getrefcount(x)
            r = INP[f](x, y)
            d = {"k": r.dtype.str[1:], "v": num(np.ascontiguousarray(r), f == "div"), "cls": int(isinstance(r, Fast)), "sh": int(r.shape == x.shape), "src": int(state(y) == keep),
                 "self": int(r is x)}
            del r
            gc.collect(0)
            d["ref"] = sum(abs(p - q) for p, q in zip(rb, refs((y,)))) + abs(sys.getrefcount(x) - c0)
            return d
        rec.call("inp", {"f": f, "ka": ka, "kb": kb, "a": a, "b": b, "form": form, "how": how}, call, lambda d: d)

    def unary(f, big=False):
        k = rng.choice(["i1", "i2", "i4", "i8", "f4", "f8"] if f == "neg" else K[1:] if f == "abs" else ["b1", "i1", "u1", "i2", "u2", "i4", "i8"])
        n = rng.choice([32768, 40001]) if big else rng.choice(sizes)
        c = nan(codes(k, f, "l", n), k, f)
        v = full(k, c)
        x = (layout(rng, v, rng.choice(["plain", "odd", "strided", "back"])) if n > 1 else v).view(Fast)

        led = rng.random() < 0.15

        def call():
            keep, rb = state(x), refs((x,))
            r = rc.ApplyRows(UNA[f], x) if led else UNA[f](x)
            d = {"k": r.dtype.str[1:], "v": [int(t) for t in num(np.ascontiguousarray(r))], "cls": int(isinstance(r, Fast)), "sh": int(r.shape == x.shape), "src": int(state(x) == keep)}
            d["v"] = num2(r)
            del r
            gc.collect(0)
            d["ref"] = sum(abs(p - q) for p, q in zip(rb, refs((x,))))
            return d
        rec.call("una", {"f": f, "k": k, "x": c}, call, lambda d: d)

    def num2(r):
        from recorder import enc
        return enc(np.ascontiguousarray(r), False)

    WORDS = sorted(["", "a", "aa", "ab", "abc", "b", "ba", "bb", "zz", "z", "abcdefgh", "abcdefgz", "abcdefghi", "abcdefghij"])

    def texts(f):
        n = rng.choice(sizes)
        u = rng.random() < 0.5
        form = rng.choice(["FF", "FN", "NF", "F1", "Fp"])
        a, b = [rng.randrange(len(WORDS)) for _ in range(n)], [rng.randrange(len(WORDS)) for _ in range(1 if form[1] in "1p" else n)]

        def mk(c, t):
            w = [WORDS[i] if u else WORDS[i].encode() for i in c]
            if t == "p":
                return w[0]
            v = np.array(w, ("U" if u else "S") + str(rng.choice([10, 11, 16])))
            return v.view(Fast) if t != "N" else v
        x, y = mk(a, form[0]), mk(b, form[1])

        # the same operator called for the caller
        led = "N" not in form and rng.random() < 0.15

        def call():
            keep, rb = (state(x), state(y)), refs((x, y))
            r = BIN[f](x, y)
            d = {"k": r.dtype.str[1:], "v": num(np.ascontiguousarray(r)), "cls": int(isinstance(r, np.ndarray)), "sh": int(r.shape == (len(a),)), "src": int((state(x), state(y)) == keep)}
            del r
            gc.collect(0)
            d["ref"] = sum(abs(p - q) for p, q in zip(rb, refs((x, y))))
            return d
        rec.call("txt", {"f": f, "a": a, "b": b, "form": form}, call, lambda d: d)

    for rep in range(14 if quick else 200):
        for f in BIN:
            binary(f)
        for f in INP:
            inplace(f)
        for f in UNA:
            unary(f)
        for f in CMP:
            texts(f)
    names = list(BIN) + list(INP)
    for j in range(4 if quick else 30):
        f = names[(shard + 8 * j + rec.seed) % len(names)]
        (binary if (shard + 8 * j + rec.seed) % len(names) < len(BIN) else inplace)(f, True)
