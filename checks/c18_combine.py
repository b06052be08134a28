PID = "C18"
TECHNIQUE = 'TLA+ specification of filtering, pairing and renumbering group keys; TLC checks the pairing and renumbering design for every pair of small keys and filter, and validates every recorded call'
LEVEL_NOTE = 'Every recorded combination (all key widths, result widths, filters, layouts, threaded sizes, chains of keys, first and last rows, membership through labels) is judged by Combine.tla; its linear form is checked against the definition exhaustively. Trusts TLC and the value coding.'
TRACE = "CombineTrace"
MODELS = [{"spec": "CombineMC", "workers": 2, "thorough_cfg": "CombineMC_thorough.cfg"}]
ASSUMPTIONS = ["keys lie between 0 and their number of groups, which their type can represent"]
import numpy as np
from c16_take import layout
from recorder import INV, enc

TYPES = ["i1", "i2", "i4", "i8", "q", "l", "i"]
MAXK = {1: 126, 2: 32766, 4: 1 << 30, 8: 1 << 30}
LAY = ["plain", "plain", "plain", "odd", "strided", "back"]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"

    def key(n, m, t=None):
        """A key with m groups, of which some are unused."""
        t = t or rng.choice([t for t in TYPES if MAXK[np.dtype(t).itemsize] >= m])
        used = m if rng.random() < 0.5 else max(1, m // rng.choice([2, 3, 10]))
        pool = rs.randint(0, m + 1, used) if used < m else None
        c = pool[rs.randint(0, used, n)] if pool is not None else rs.randint(rng.choice([0, 1]) if m else 0, m + 1, n)
        if rng.random() < 0.2:
            c = np.sort(c)[::rng.choice([1, -1])]
        return c, layout(rng, c.astype(t), rng.choice(LAY))

    def filt(n, none=True):
        if none and rng.random() < 0.3:
            return [], None
        f = rs.random_sample(n) < rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
        return f.astype(int).tolist(), layout(rng, f, rng.choice(LAY))

    def code(a):
        return "%s%d" % (a.dtype.kind, a.dtype.itemsize)

    def keep(*arrs):
        old = [x.tobytes() for x in arrs if x is not None]
        return lambda: int([x.tobytes() for x in arrs if x is not None] == old)

    def groups(n):
        return rng.choice([1, 2, 3, 5, 10, 50, 100, 126, 127, 128, 200, 1000, 32000, 32767, 40000, max(1, n)])

    def filter1(n):
        c, k = key(n, groups(n))
        fc, f = filt(n, False)
        s = keep(k, f)
        rec.call("filter", {"key": c.tolist(), "f": fc, "k": code(k)}, lambda: rc.CombineFilter(k, f), lambda r: {"key": enc(r), "k": code(r), "same": s()})

    def pair(n):
        r = rng.random()
        if r < 0.4:
            m1, m2 = groups(n), groups(n)
        else:
            # the number of pairs at a change of the result's type
            lim = rng.choice([120, 120, 32000, 32000, 2000000000])
            m1 = rng.choice([1, 2, 7, 10, 50, 100] if lim == 120 else [1, 5, 100, 200, 10000] if lim == 32000 else [30000, 50000])
            m2 = max(1, lim // (m1 + 1) + rng.choice([-2, -1, 0, 1]))
        (c1, k1), (c2, k2) = key(n, m1), key(n, m2)
        if n and rng.random() < 0.7:
            i = rng.randrange(n)
            if k1.base is None and k2.base is None:
                c1[i], c2[i], k1[i], k2[i] = m1, m2, m1, m2
        fc, f = filt(n)
        s = keep(k1, k2, f)

        def out(r):
            b = np.asarray(r[0]).astype("i8")
            return {"r1": (b % (m1 + 1)).tolist(), "r2": (b // (m1 + 1)).tolist(), "same": s()}
        rec.call("pair", {"k1": c1.tolist(), "k2": c2.tolist(), "m1": m1, "m2": m2, "f": fc, "k": [code(k1), code(k2)]},
                 lambda: rc.CombineAccum2Filter(k1, k2, m1, m2, f), out)

    def compact(n):
        m = groups(n)
        c, k = key(n, m)
        mm = m if rng.random() < 0.8 else max(0, m - rng.choice([1, 2, m]))
        fc, f = filt(n)
        s = keep(k, f)
        rec.call("compact", {"key": c.tolist(), "m": mm, "f": fc, "k": code(k)}, lambda: rc.CombineAccum1Filter(k, mm, f),
                 lambda r: {"key": enc(r[0]), "first": enc(r[1]), "count": int(r[2]), "k": code(r[0]), "same": s()})

    def ends(n):
        m = groups(n)
        c, k = key(n, m)
        fc, f = filt(n)
        last = rng.choice([0, 1])
        s = keep(k, f)
        rec.call("ends", {"key": c.tolist(), "m": m, "f": fc, "last": last}, lambda: rc.MakeiFirst(k, m, f, last), lambda r: {"r": enc(r), "same": s()})

    def chain(n):
        """Several keys combined pair by pair, unused combinations dropped each time."""
        ms = [rng.choice([1, 2, 3, 5, 20, 100]) for _ in range(rng.choice([2, 3, 3, 4]))]
        ks = [key(n, m) for m in ms]
        fc, f = filt(n)

        def run():
            cur, m = ks[0][1], ms[0]
            for (c, k), mk in zip(ks[1:], ms[1:]):
                b, _ = rc.CombineAccum2Filter(cur, k, m, mk, f)
                cur, first, m = rc.CombineAccum1Filter(b, (m + 1) * (mk + 1), f)
            return cur, first
        rec.call("chain", {"parts": [c.tolist() for c, _ in ks], "n": n, "f": fc}, run, lambda r: {"key": enc(r[0]), "first": enc(r[1])})

    def member(n):
        ma, mb = rng.choice([1, 2, 5, 20]), rng.choice([1, 2, 5, 20])
        on = [-1] * ma
        free = list(range(mb))
        rng.shuffle(free)
        for i in rng.sample(range(ma), rng.randint(0, min(ma, mb))):
            on[i] = free.pop()
        base1, base2 = rng.choice([0, 1]), rng.choice([0, 1])

        def col(m, base, n):
            t = rng.choice(TYPES)
            c = rs.randint(0, m + base, n)
            if rng.random() < 0.5:
                c = np.minimum(c, rng.randint(0, m + base - 1))
            a = c.astype(t)
            c = c.tolist()
            if base == 0 and n:
                for i in rs.randint(0, n, max(1, n // 10)).tolist():
                    c[i], a[i] = INV, np.iinfo(t).min
            return c, layout(rng, a, rng.choice(LAY))
        ca, a = col(ma, base1, n)
        cb, b = col(mb, base2, rng.choice([0, 1, n, n]))
        ua = layout(rng, np.array([np.iinfo("i4").min if x < 0 else x for x in on], "i4"), rng.choice(LAY))
        s = keep(a, b, ua)
        rec.call("member", {"a": ca, "base1": base1, "on": [INV if x < 0 else x for x in on], "b": cb, "base2": base2, "m": mb},
                 lambda: rc.IsMemberCategoricalFixup(a, b, ua, mb, base1, base2),
                 lambda r: {"member": enc(r[0]), "index": enc(r[1]), "same": s()})

    rec.emit("begin", {}, {})
    sizes = [0, 1, 2, 3, 7, 8, 9, 16, 31, 33, 64, 100, 255, 257, 1000, 2500]
    for rep in range(60 if quick else 600):
        for fn in (filter1, pair, pair, compact, ends, chain, member):
            fn(rng.choice(sizes))
    for rep in range(1 if quick else 8):
        for fn in (filter1, pair, compact, ends, chain):
            fn(rng.choice([16384, 32768, 33000, 50000, 66000]))
    # more than eight blocks of work
    (filter1, pair)[shard % 2](rng.choice([147456, 148000, 165001]))
