"""Keys that the current hash functions send to the two ends of a 65536-slot table (a generator only: which keys are
interesting, never what the answer is).  If the library hashes differently the keys are just distinct random keys."""
import numpy as np

_T = np.zeros(256, np.uint64)
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T[_i] = _c
U = np.uint64


def _crc(h, block):
    for c in range(block.shape[1]):
        h = _T[(h ^ block[:, c].astype(U)) & U(255)] ^ (h >> U(8))
    return h


def crc_rows(rows):
    """rows: uint8 matrix; 8 bytes at a time, the rest padded with zeros to 8"""
    h = np.zeros(len(rows), U)
    w = rows.shape[1]
    pad = np.zeros((len(rows), -w % 8), np.uint8)
    full = np.concatenate([rows, pad], axis=1)
    for k in range(0, full.shape[1], 8):
        h = _crc(h, full[:, k:k + 8])
    return h


def _mix(h):
    h = h ^ (h >> U(23))
    h = h * U(0x2127599bf4325c37)
    return h ^ (h >> U(47))


def fast_words(words, length):
    """words: uint64 matrix of the (zero padded) words"""
    m = U(0x880355f21e6d1965)
    h = np.full(len(words), (length * 0x880355f21e6d1965) & 0xFFFFFFFFFFFFFFFF, U)
    for k in range(words.shape[1]):
        h = (h ^ _mix(words[:, k])) * m
    return _mix(h)


def bytes_of(a):
    return np.ascontiguousarray(a).view(np.uint8).reshape(len(a), -1)


def _pick(h, mask=65535):
    s = h & U(mask)
    return np.where((s >= U(mask - 3)) | (s <= U(1)))[0]


def candidates(rng, kind, n=150000):
    r = np.random.RandomState(rng.randrange(1 << 30))
    k = np.dtype(kind)
    if k.kind in "iu":
        hi = min(np.iinfo(k).max, 1 << 40)
        a = np.unique(r.randint(1, hi, n).astype(k))
    elif k.kind == "f":
        a = np.unique((r.randint(1, 1 << 50, n) / 1024.0).astype(k))
    else:
        w = k.itemsize if k.kind == "S" else k.itemsize // 4
        a = np.unique(np.char.mod("%d", r.randint(10 ** (w - 1) if w < 18 else 10 ** 17, min(10 ** w, 10 ** 18), n)).astype(k))
    r.shuffle(a)
    return a


def crowd(rng, kind):
    """distinct values of one kind that meet at the ends of the table"""
    a = candidates(rng, kind)
    k = a.dtype
    with np.errstate(over="ignore"):
        if k.kind == "S":
            w = k.itemsize
            full = np.zeros((len(a), (w + 7) // 8 * 8), np.uint8)
            full[:, :w] = bytes_of(a)
            h = fast_words(full.view(np.uint64), w)
        elif k.kind == "U":
            cp = bytes_of(a).view(np.uint32)
            h = np.zeros(len(a), U)
            for c in range(cp.shape[1]):
                h = _crc(h, bytes_of(np.ascontiguousarray(cp[:, c])))
        elif k.itemsize == 4 and k.kind in "iu":
            h = _crc(np.zeros(len(a), U), bytes_of(a))
        elif k.itemsize == 8:
            h = fast_words(bytes_of(a).view(np.uint64), 8)
        elif k.itemsize == 4:
            b = bytes_of(a).view(np.uint32)[:, 0].astype(U)
            h = b ^ (b >> U(20))
        else:
            return a[:24]
    return a[_pick(h)][:40]


def crowd_rows(rng, kinds):
    """columns whose packed rows meet at the ends of the table"""
    cols = [candidates(rng, kinds[0])]
    n = len(cols[0])
    r = np.random.RandomState(rng.randrange(1 << 30))
    for k in kinds[1:]:
        c = candidates(rng, k, 2000)
        cols.append(c[r.randint(0, min(len(c), 7), n)])
    h = crc_rows(np.concatenate([bytes_of(c) for c in cols], axis=1))
    p = _pick(h)[:40]
    return [c[p] for c in cols]
