"""Key columns for the grouping/membership drivers: a column is a typed array plus its integer coding."""
import numpy as np


def palettes(kind):
    """Distinct values of one key type (no two compare equal, no signed zeros)."""
    if kind in ("i1", "i2", "i4", "i8"):
        ii = np.iinfo(kind)
        vals = [0, 1, -1, ii.min, ii.max, ii.min + 1, 7, 64, 100, -100, 3, 5, 17, 33, 65, 2, -2]
        if kind != "i1":
            vals += [255, 256, 257, 4096, -4096, 32767 - 5, 1000, 2000]
        if kind in ("i4", "i8"):
            vals += [65536, 65537, 1 << 20, -(1 << 20), (1 << 20) + 1, 1 << 30]
        if kind == "i8":
            vals += [1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 62, (1 << 40) + 7]
    elif kind in ("u1", "u2", "u4", "u8"):
        ii = np.iinfo(kind)
        vals = [0, 1, ii.max, ii.max - 1, 7, 64, 128, 127, 3, 5, 200, 33, 65, 2]
        if kind != "u1":
            vals += [256, 257, 4096, 32768, 32767, 1000]
        if kind in ("u4", "u8"):
            vals += [65536, 65537, 1 << 31, (1 << 31) + 1]
        if kind == "u8":
            vals += [1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) + 1]
    elif kind in ("f4", "f8"):
        vals = [1.0, -1.0, 0.5, 2.0, 3.0, 1e10, -1e10, np.inf, -np.inf, np.nan, 0.25, 1.5, 7.0, 100.0, 1e-5, 33.0, 65.0, 0.0]
    elif kind == "b1":
        vals = [False, True]
    elif kind[0] == "S":
        w = int(kind[1:])
        al = [b"", b"a", b"b", b"A", b"z", b"0", b" ", b"\xff"]
        vals = list(al)
        if w >= 2:
            vals += [b"aa", b"ab", b"ba", b"a ", b"zz", b"\xfe\xff"]
        if w >= 4:
            vals += [b"abcd", b"abce", b"bbcd", b"abc"]
        if w >= 9:
            vals += [b"abcdefgh", b"abcdefghi", b"abcdefgha", b"bbcdefghi", b"abcdEfghi"]
        if w >= 17:
            vals += [b"abcdefghijklmnopq"[:w], b"abcdefghijklmnopr"[:w], b"Abcdefghijklmnopq"[:w], b"abcdefghijklmnop"]
    elif kind[0] == "U":
        w = int(kind[1:])
        vals = ["", "a", "b", "A", "z", "\u00e9", "\u4e2d", "\U0001F600"]
        if w >= 2:
            vals += ["aa", "ab", "ba", "a\u4e2d", "\u4e2da"]
        if w >= 5:
            vals += ["abcde", "abcdf", "bbcde", "abcd"]
    else:
        raise ValueError(kind)
    return np.array(vals, dtype=kind)


KINDS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "b1", "S1", "S2", "S3", "S4", "S5", "S8", "S9", "S16", "S18",
         "U1", "U2", "U5"]


def column(rng, kind, codes, strided=False):
    """The typed array whose i-th element has the given code (codes index the palette); maybe non-contiguous."""
    pal = palettes(kind)
    a = pal[np.asarray(codes, dtype=np.int64)]
    if strided and len(a):
        k = rng.choice([2, 3])
        b = np.empty(len(a) * k, dtype=a.dtype)
        b[:] = pal[0]
        b[::k] = a
        a = b[::k]
    return a


def ncodes(kind):
    return len(palettes(kind))


def dense(rng, kind, n, shift=0):
    """n distinct values of a key type that fill a hash table densely, in a scrambled order (family depends on rng)."""
    perm = np.random.RandomState(rng.randrange(1 << 30)).permutation(n)
    i = perm + shift
    if kind[0] in "iu":
        bits = 8 * int(kind[1:])
        st = rng.choice([1, 3, 1 << 16, 1 << 17, (1 << 16) + 1, 12345]) if bits > 16 else 1
        if bits == 32:
            st = rng.choice([1, 3, 1 << 12, 60001])
        v = i.astype(np.int64) * st
        if kind[0] == "i" and rng.random() < 0.5 and bits > 16:
            v = v - (n // 2) * st
        return v.astype(kind)
    if kind[0] == "f":
        return (i * rng.choice([0.5, 1.0, 65536.0, 3.25])).astype(kind)
    w = int(kind[1:])
    fam = rng.choice([0, 1, 2, 3, 3, 3])
    if fam == 3 and kind[0] == "S" and w >= 3:  # few prefixes, every last byte
        P = np.random.RandomState(rng.randrange(1 << 30)).randint(1, 255, (n // 250 + 1, w)).astype("u1")
        P[:, 0], P[:, 1] = np.arange(len(P)) % 255 + 1, np.arange(len(P)) // 255 + 1
        b = P[i // 250].copy()
        b[:, -1] = i % 250 + 1
        return np.ascontiguousarray(b).view(kind)[:, 0].copy()
    fam = fam % 3
    if kind[0] == "S":
        al = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
    else:
        al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123\u00e9\u4e2d\u4e2e\U0001F600xyz0"
    al = al[:64]
    digits = min(w, 4 if fam == 0 else 3)
    vals = []
    for x in i.tolist():
        d = []
        y = x
        for _ in range(digits):
            d.append(al[y % 50:y % 50 + 1])
            y //= 50
        if y:
            raise ValueError("too many")
        s = al[:0].join(d)
        pad = w - len(s)
        if fam == 1:
            s = al[1:2] * pad + s        # differ in the last characters
        elif fam == 2:
            s = s + al[2:3] * rng.choice([0, pad])   # prefixes of one another
        vals.append(s)
    return np.array(vals, dtype=kind)


def coded(*arrays):
    """Integer codes under which elements of the given arrays (of one key type) are equal exactly when their codes are."""
    _, inv = np.unique(np.concatenate(arrays), return_inverse=True)
    out, at = [], 0
    for a in arrays:
        out.append(inv[at:at + len(a)].tolist())
        at += len(a)
    return out
