"""Recorder used inside a driver process: one ndjson event per call into the code under test.

Every event is {"op", "st", "a", "r"}: the call's name, its outcome ("ok", "err" = raised, "crash"/"hang" = the process
died or stalled inside it), its arguments and its result, all as small integers (see the codes below).
"""
import json
import math
from fractions import Fraction

import numpy as np

# Codes shared with specs/Codes.tla (TLC's integers are 32-bit, so wide values never enter a trace)
INV = 2000000000    # the type's invalid: NaN for floats, the sentinel for integers
PINF = 1999999999
NINF = -1999999999
OTHER = 1999999998  # a number the trace's coding has no name for
LIM = 1000000000

SENT = {}
for _t in (np.int8, np.int16, np.int32, np.int64):
    SENT[np.dtype(_t)] = np.iinfo(_t).min
for _t in (np.uint8, np.uint16, np.uint32, np.uint64):
    SENT[np.dtype(_t)] = np.iinfo(_t).max

INTS = [np.dtype(t) for t in (np.int8, np.int16, np.int32, np.int64)]
UINTS = [np.dtype(t) for t in (np.uint8, np.uint16, np.uint32, np.uint64)]
FLOATS = [np.dtype(np.float32), np.dtype(np.float64)]


def enc1(x, sent=None):
    """Encodes one scalar."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        if sent is not None and x == sent:
            return INV
        return x if -LIM < x < LIM else OTHER
    f = float(x)
    if f != f:
        return INV
    if f == math.inf:
        return PINF
    if f == -math.inf:
        return NINF
    if f == int(f) and -LIM < f < LIM:
        return int(f)
    return OTHER


def enc(a, inv=True):
    """Encodes a one-dimensional numeric/bool array as integers; a type's invalid becomes INV (when inv)."""
    a = np.asarray(a)
    if a.ndim != 1:
        a = a.reshape(-1)
    k = a.dtype.kind
    if k == "b":
        # a byte that is neither 0 nor 1 is not a boolean
        return [int(v) if v < 2 else OTHER for v in np.ascontiguousarray(a).view(np.uint8).tolist()] if len(a) < 4096 \
            else _bools(a)
    if k in "iu":
        big = (a.astype(np.object_) if False else a)
        out = np.empty(len(a), np.int64)
        ok = (a < LIM) & (a > -LIM) if k == "i" else (a < LIM)
        out[:] = OTHER
        out[ok] = a[ok].astype(np.int64)
        if inv:
            out[a == SENT[np.dtype(a.dtype.type)]] = INV
        return out.tolist()
    if k == "f":
        f = a.astype(np.float64)
        out = np.full(len(a), OTHER, np.int64)
        with np.errstate(all="ignore"):
            ok = np.isfinite(f) & (np.abs(f) < LIM) & (np.floor(f) == f)
        out[ok] = f[ok].astype(np.int64)
        out[np.isnan(f)] = INV
        out[f == np.inf] = PINF
        out[f == -np.inf] = NINF
        return out.tolist()
    raise TypeError("enc: %s" % a.dtype)


def _bools(a):
    v = np.ascontiguousarray(a).view(np.uint8).astype(np.int64)
    v[v > 1] = OTHER
    return v.tolist()


def encpal(a, pal):
    """Encodes by position in a palette (list of values of the array's type); INV for invalid, OTHER when absent."""
    a = np.asarray(a)
    out = np.full(len(a), OTHER, np.int64)
    if a.dtype.kind == "f":
        out[np.isnan(a)] = INV
    for i, p in enumerate(pal):
        out[a == p] = i
    return out.tolist()


def frac(x, tol=1e-9, lim=20000):
    """A float as a [num, den] pair: den = 0 marks the specials (num = INV, PINF, NINF or OTHER)."""
    f = float(x)
    if f != f:
        return [INV, 0]
    if math.isinf(f):
        return [PINF if f > 0 else NINF, 0]
    q = Fraction(f).limit_denominator(lim)
    if abs(float(q) - f) > tol * max(1.0, abs(f)) or abs(q.numerator) > LIM:
        return [OTHER, 0]
    return [q.numerator, q.denominator]


def fracs(a, tol=1e-9, lim=20000):
    return [frac(v, tol, lim) for v in np.asarray(a).reshape(-1).tolist()]


class Recorder:
    def __init__(self, path):
        self.f = open(path + ".ndjson", "w")
        self.p = open(path + ".pending", "w")
        self.n = 0

    def emit(self, op, a, r, st="ok"):
        self.f.write(json.dumps({"op": op, "st": st, "a": a, "r": r}, separators=(",", ":")) + "\n")
        self.f.flush()
        self.n += 1

    def pend(self, op, a):
        self.p.seek(0)
        self.p.truncate()
        self.p.write(json.dumps({"op": op, "a": a}, separators=(",", ":")))
        self.p.flush()

    def call(self, op, a, fn, encode):
        """Runs fn() (the code under test), then records its encoded result."""
        self.pend(op, a)
        try:
            res = fn()
        except Exception as e:  # the code under test reported an error
            # a SystemError is the interpreter's complaint about a result and an exception at once (or neither)
            self.emit(op, a, (type(e).__name__ + ": " + str(e))[:120], "bad" if isinstance(e, SystemError) else "err")
            return None
        try:
            r = encode(res)
        except Exception as e:  # a result of the wrong shape or kind
            self.emit(op, a, "unencodable %s: %s" % (type(e).__name__, e), "bad")
            return res
        self.emit(op, a, r)
        return res

    def close(self):
        self.p.seek(0)
        self.p.truncate()
        self.p.write("DONE")
        self.p.close()
        self.f.close()
