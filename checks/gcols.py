"""Value columns and group layouts for the aggregation drivers."""
import numpy as np
from recorder import INV, PINF, NINF, OTHER, enc, enc1

VKINDS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "b1"]


def invalid(kind):
    if kind[0] == "f":
        return np.nan
    return np.iinfo(kind).min if kind[0] == "i" else np.iinfo(kind).max


def column(kind, codes, scale=1, strided=0):
    """The typed array of codes * scale (INV = the type's invalid, PINF/NINF = infinities)."""
    c = np.asarray(codes, dtype=np.int64)
    if kind == "b1":
        a = c.astype(bool)
    elif kind[0] == "f":
        a = (c * float(scale)).astype(kind)
        a[c == PINF], a[c == NINF], a[c == INV] = np.inf, -np.inf, np.nan
    else:
        ok = c != INV
        a = np.zeros(len(c), kind)
        a[ok] = np.array([int(x) * scale for x in c[ok].tolist()], dtype=kind) if len(c) else a
        a[~ok] = invalid(kind)
    if strided and len(a):
        b = np.empty(len(a) * strided, dtype=a.dtype)
        b[:] = a[0]
        b[::strided] = a
        a = b[::strided]
    return a


def scales(kind, fn=0, n=100):
    """Scales under which small codes stay in range for the type (and sums may need the wide accumulator)."""
    if fn in (2, 3, 52, 53) and kind in ("i8", "u8"):
        return [1, 1 << 58]
    if n > 1000 and kind in ("i8", "u8"):
        return [1, 1 << 33, 1 << 40]
    return {"i1": [1, 1, 6], "i2": [1, 1000], "i4": [1, 1 << 26], "i8": [1, 1 << 33, 1 << 50], "u1": [1, 12], "u2": [1, 3000],
            "u4": [1, 1 << 27], "u8": [1, 1 << 40, 1 << 51], "f4": [1, 0.5, 1024.0], "f8": [1, 0.25, 2.0 ** 40], "b1": [1]}[kind]


def codes(rng, kind, n, mag=20, pinv=0.0, pinf=0.0):
    if kind == "b1":
        return [rng.randrange(2) for _ in range(n)]
    lo = 0 if kind[0] == "u" else -mag
    out = [rng.randint(lo, mag) for _ in range(n)]
    for i in range(n):
        if rng.random() < pinv:
            out[i] = INV
        elif kind[0] == "f" and rng.random() < pinf:
            out[i] = rng.choice([PINF, NINF])
    return out


def big(rec, kind, n, mag=20, ninv=0):
    """A long column of codes, with ninv invalid entries at random places."""
    lo, hi = (0, 2) if kind == "b1" else (0 if kind[0] == "u" else -mag, mag + 1)
    c = rec.np.randint(lo, hi, n).astype(np.int64)
    if kind != "b1" and ninv:
        c[rec.np.randint(0, n, ninv)] = INV
    return c


def unscale(a, scale, F=1):
    """Results divided by the scale (exactly, when F = 1) as codes, or as F-fold fixed point."""
    a = np.asarray(a).reshape(-1)
    if a.dtype.kind == "b":
        return enc(a)
    if a.dtype.kind in "iu":
        s = invalid(a.dtype.str[1:])
        out = []
        for v in a.tolist():
            if v == s:
                out.append(INV)
            else:
                q, r = divmod(v, int(scale))
                out.append(q if r == 0 and abs(q) < 1000000000 else OTHER)
        return out
    out = []
    for v in a.astype(np.float64).tolist():
        if v != v:
            out.append(INV)
        elif v in (np.inf, -np.inf):
            out.append(PINF if v > 0 else NINF)
        else:
            w = v / scale * F
            q = round(w) if abs(w) < 1e10 else 10 ** 10
            out.append(int(q) if (F > 1 or q == w) and abs(q) < 1000000000 else OTHER)
    return out


def packing(g, nb):
    g = np.asarray(g, dtype=np.int64)
    return np.argsort(g, kind="stable").tolist(), np.concatenate([[0], np.cumsum(np.bincount(g, minlength=nb))]).tolist()


def exact(kind, c, scale):
    """Whether the coded values have exact sums in the type's float."""
    return True
