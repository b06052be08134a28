PID = "C23"
TECHNIQUE = 'TLA+ specification of binning by edges; TLC checks the bisection design for every small edge list and value, and validates every recorded call'
LEVEL_NOTE = 'Every recorded binning or edge search (all value and edge types and result widths, values on, next to and far outside the edges, invalids, strided and threaded sizes, strings) is judged by Cuts.tla; the bisection is checked exhaustively for up to 6 edges. Trusts TLC and the value coding.'
TRACE = "CutsTrace"
MODELS = [{"spec": "CutsMC", "workers": 2, "thorough_cfg": "CutsMC_thorough.cfg"}]
ASSUMPTIONS = ["edges are sorted (and distinct for binning); 64-bit integers met with floating edges lie within 2^53"]
import numpy as np
from c16_take import layout
from gcols import invalid
from recorder import INV, NINF, PINF, enc

VK = ["b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]
BK = ["i1", "i2", "i4", "i8", "u8", "f4", "f8"]
LAY = ["plain", "plain", "plain", "odd", "strided"]
WORDS0 = ["", "a", "ab", "abc", "abd", "b", "ba", "bb", "bbbbbbbbc", "c", "ca", "caa", "cab", "z", "za", "zzzzzzzz", "zzzzzzzzz"]


def bounds(k):
    if k == "b1":
        return 0, 1
    if k == "f4":
        return -(1 << 24), 1 << 24
    if k == "f8":
        return -(1 << 53), 1 << 53
    i = np.iinfo(k)
    return (int(i.min) + 1, int(i.max)) if k[0] == "i" else (0, int(i.max) - 1)


def ranked(lists):
    """The lists with every value replaced by its rank among all of them; the values are Python numbers, compared exactly."""
    order = {}
    for i, v in enumerate(sorted(set(v for x in lists for v in x if v == v and abs(v) != float("inf")))):
        order[v] = i + 1
    inf = float("inf")
    return [[INV if v != v else PINF if v == inf else NINF if v == -inf else order[v] for v in x] for x in lists]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"

    def edges(bk, nb, dup, vk):
        lo, hi = bounds(bk)
        if vk[0] == "f" and bk[0] != "f" or bk[0] == "f":
            lo, hi = max(lo, -(1 << 53)), min(hi, 1 << 53)
        R = rng.choice([10, 100, 1000, 100000, 1 << 40, 1 << 62])
        lo, hi = max(lo, -R), min(hi, R)
        if rng.random() < 0.3:
            lo = max(lo, bounds(vk)[0] - 5)
            hi = max(lo + 1, min(hi, bounds(vk)[1] + 5))
        if nb and rng.random() < 0.3 and hi - lo > 2 * nb:
            lo = rng.randint(lo, hi - 2 * nb)
            hi = lo + 2 * nb
        e = [rng.randint(lo, hi) for _ in range(nb)]
        if rng.random() < 0.2 and nb > 1:
            e[0], e[1] = lo, hi
        if bk[0] == "f" and rng.random() < 0.6:
            e = [x / 2 if abs(x) < (1 << 22) else x for x in e]
        e = sorted(e) if dup else sorted(set(e))
        if bk[0] == "f" and vk[0] == "f" and len(e) > 1 and rng.random() < 0.2:
            e[0], e[-1] = -np.inf, np.inf
        return np.array([np.dtype(bk).type(x) for x in e], bk)

    def values(vk, b, n, narrow):
        lo, hi = bounds(vk)
        if narrow and vk[-1] == "8" and vk != "i8"[:0]:
            lo, hi = max(lo, -(1 << 53)), min(hi, 1 << 53)
        near = [x for x in b.tolist() if abs(x) != np.inf] or [0]
        c = []
        for x in rng.sample(near, min(len(near), 60)):
            c += [x, x + 1, x - 1, x + 0.5, x - 0.5] if abs(x) < (1 << 50) else [x, int(x) + 1, int(x) - 1]
        c += [lo, hi, 0, 1]
        if vk[0] == "f":
            c = [float(x) for x in c]
        else:
            c = [int(x // 1) for x in c]
        c = np.array([np.dtype(vk).type(x) for x in c if lo <= x <= hi], vk)
        a = c[rs.randint(0, len(c), n)]
        if n and vk != "b1" and rng.random() < 0.8:
            a[rs.randint(0, n, max(1, n // 10))] = invalid(vk)
        if n and vk[0] == "f" and rng.random() < 0.5:
            a[rs.randint(0, n)] = np.inf
            a[rs.randint(0, n)] = -np.inf
        return a

    def isbad(a, vk):
        return a == invalid(vk) if vk[0] in "iu" else np.zeros(len(a), bool)

    def place(vk, bk, nb, n):
        mode = rng.choice(["cut", "cut", "left", "right", "sorted"])
        if mode == "sorted":
            bk = "f8"
        b = edges(bk, nb, mode in ("left", "right") and rng.random() < 0.5, vk)
        if mode in ("cut", "sorted") and len(b) == 1:
            return
        a = values(vk, b, n, bk[0] == "f")
        vl = a.tolist()
        if mode in ("cut", "sorted"):
            vl = [float("nan") if w else v for v, w in zip(vl, isbad(a, vk).tolist())]
        elif bk[0] == "f" and vk in ("i8", "u8"):
            # as an ordinary value the marker of a 64-bit integer is beyond what the edges resolve
            vl = [-float(1 << 63) if v < -(1 << 60) else float(1 << 64) if v > 1 << 60 else v for v in vl]
        ev, vv = ranked([b.tolist(), vl])
        b, v = layout(rng, b, rng.choice(LAY)), layout(rng, a, rng.choice(LAY))
        keep = (b.tobytes(), v.tobytes())
        if mode == "sorted":
            idx = layout(rng, (rc.LexSort32 if rng.random() < 0.5 else rc.LexSort64)([a]), rng.choice(LAY))
            cnt = rc.NanInfCountFromSort(a, idx)
            rec.emit("bad", {"v": vv, "kind": vk[0]}, {"r": [int(x) for x in cnt]})
            fn = lambda: rc.BinsToCutsSorted(v, b, idx, cnt, 0)
        else:
            fn = lambda: rc.BinsToCutsBSearch(v, b, {"cut": 0, "left": 1, "right": 2}[mode])
        rec.call("place", {"mode": mode, "e": ev, "v": vv, "k": [vk, bk]}, fn,
                 lambda r: {"r": enc(r), "same": int((b.tobytes(), v.tobytes()) == keep)})

    MANY = [c * k + t for c in "bcdeghijkmnopqrstuvw" for k in (1, 2, 3, 8) for t in ("", "a", "b", "y", "yz")]
    EVEN = ["%05d" % i for i in range(80000)]

    def strings(n, few=True, count=None):
        wa, wb = rng.choice([1, 2, 3, 8, 12]), rng.choice([1, 2, 3, 8, 12])
        WORDS = WORDS0 if few else MANY if not count or count <= len(MANY) else EVEN
        if not few:
            wa, wb = max(wa, 8), max(wb, 8)
        e = sorted(set(w[:wb] for w in rng.sample(WORDS, count or rng.randint(2, len(WORDS))) if w[:wb]))
        if len(e) < 2:
            return
        pool = sorted(set(w[:wa] for w in WORDS))
        a = np.array(pool, "S%d" % wa)[rs.randint(0, len(pool), n)]
        words = {w: i + 1 for i, w in enumerate(sorted(set(e) | set(pool)))}
        vv = [INV if not x else words[x.decode()] for x in a.tolist()]
        b, v = layout(rng, np.array(e, "S%d" % wb), rng.choice(LAY)), layout(rng, a, rng.choice(LAY))
        keep = (b.tobytes(), v.tobytes())
        rec.call("place", {"mode": "cut", "e": [words[x] for x in e], "v": vv, "k": [v.dtype.str, b.dtype.str]}, lambda: rc.BinsToCutsBSearch(v, b, 0),
                 lambda r: {"r": enc(r), "same": int((b.tobytes(), v.tobytes()) == keep)})

    rec.emit("begin", {}, {})
    sizes = [0, 1, 2, 3, 7, 8, 9, 31, 33, 64, 100, 257]
    counts = [0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 99, 100, 101, 102, 127, 128, 129, 260]
    pairs = [(a, b) for a in VK for b in BK]
    for rep in range(10 if quick else 60):
        for i, (a, b) in enumerate(pairs):
            if i % nshards == shard:
                place(a, b, rng.choice(counts), rng.choice(sizes))
                place(a, b, rng.choice(counts), rng.choice(sizes))
    for rep in range(30 if quick else 200):
        strings(rng.choice(sizes))
    for c in (100, 101, 102, 127, 128, 129, 260, None):
        strings(rng.choice([100, 257, 1000]), False, c)
    strings(1000, False, rng.choice([30000, 30001, 32769, 33000]))
    for rep in range(3 if quick else 20):
        place(rng.choice(VK), rng.choice(BK), rng.choice([3, 100, 101, 30000, 30001, 33000]), rng.choice([100, 1000]))
        place(rng.choice(VK), rng.choice(BK), rng.choice([3, 20, 101]), rng.choice([16385, 32768, 40000]))
    strings(rng.choice([32768, 40000, 66000]))
