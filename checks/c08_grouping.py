PID = "C08"
TECHNIQUE = 'TLA+ grouping specification; TLC checks the hash design model and validates every recorded grouping call'
LEVEL_NOTE = 'Every recorded grouping call of the driver (exhaustive small key tables, randomized wide ones, threaded sizes) is a step of Grouping.tla; the hash-table design is checked exhaustively in GroupHashMC.tla within small bounds. Trusts TLC and the value coding.'
TRACE = "GroupingTrace"
MODELS = [{"spec": "GroupHashMC", "workers": 2, "thorough_cfg": "GroupHashMC_thorough.cfg"}]
ASSUMPTIONS = ["keys are drawn from palettes of pairwise distinct values without signed zeros or NaN payloads"]

import itertools
import numpy as np


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from crowd import crowd, crowd_rows
    from keys import KINDS, coded, column, dense, ncodes
    rng = rec.rng
    L = lambda x: np.asarray(x).tolist()

    def gb(cols, codes, f, hint=0, mode=2):
        a = {"cols": codes, "f": [int(x) for x in f] if f is not None else [], "h": hint, "m": mode, "d": [str(c.dtype) for c in cols]}
        fb = np.array(f, dtype=bool) if f is not None else None
        rec.call("groupby", a, lambda: rc.MultiKeyGroupBy32(cols, hint, fb, mode),
                 lambda r: {"ikey": L(r[0]), "ifirst": L(r[1]), "n": int(r[2])})

    def others(cols, codes, f, hint=0):
        a = {"cols": codes, "f": [int(x) for x in f] if f is not None else [], "d": [str(c.dtype) for c in cols]}
        fb = np.array(f, dtype=bool) if f is not None else None
        rec.call("unique", a, lambda: rc.MultiKeyUnique32(cols, hint, fb), lambda r: {"ifirst": L(r[0]), "count": L(r[1])})
        rec.call("super", a, lambda: rc.MultiKeyGroupBy32Super(cols, hint, fb),
                 lambda r: {"ikey": L(r[0]), "ifirst": L(r[2]), "count": L(r[3])})
        a2 = dict(a, f=[])
        rec.call("hash", a2, lambda: rc.MultiKeyHash(cols, hint, None),
                 lambda r: dict(zip(["key", "nth", "size", "prev", "next", "first", "last"], [L(x) for x in r])))

    rec.emit("begin", {}, {})
    # every small input: all code sequences up to length 4 over 3 codes, with every filter, spread over the shards
    cnt = 0
    for n in range(1, 5):
        for codes in itertools.product(range(min(n, 3)), repeat=n):
            for f in [None] + ([list(x) for x in itertools.product([0, 1], repeat=n)] if n < 4 else [[1, 0, 1, 1], [0, 1, 1, 0]]):
                cnt += 1
                if cnt % nshards != shard:
                    continue
                kind = KINDS[(cnt // nshards) % len(KINDS)]
                if ncodes(kind) < 3:
                    kind = "i4"
                off = rng.randrange(ncodes(kind) - 2)
                cs = [c + off for c in codes]
                gb([column(rng, kind, cs)], [cs], f)
    reps = 6 if tier == "quick" else 40
    # each key type, alone and combined, at sizes around chunk and table boundaries
    for it in range(reps):
        for ki, kind in enumerate(KINDS):
            n = rng.choice([1, 2, 3, 5, 8, 17, 33, 64, 100, 200])
            m = rng.choice([1, 2, 3, ncodes(kind)])
            m = min(m, ncodes(kind))
            cs = [rng.randrange(m) for _ in range(n)]
            f = rng.choice([None, None, [rng.random() < 0.6 for _ in range(n)], [0] * n])
            col = column(rng, kind, cs, rng.random() < 0.4)
            gb([col], [cs], f, rng.choice([0, 0, 1, 10, 1000]), rng.choice([1, 2]))
            if it % 2 == 0:
                others([col], [cs], f, rng.choice([0, 100]))
            k = rng.choice([2, 2, 3, 4])
            kinds = [kind] + [rng.choice(KINDS) for _ in range(k - 1)]
            codes = [[rng.randrange(min(rng.choice([2, 3]), ncodes(x))) for _ in range(n)] for x in kinds]
            cols = [column(rng, x, c, rng.random() < 0.3) for x, c in zip(kinds, codes)]
            gb(cols, codes, f, 0, rng.choice([1, 2]))
            if it % 2 == 1:
                others(cols, codes, f)
            if n >= 2:
                cut = sorted(set([rng.randrange(1, n + 1), rng.randrange(1, n + 1), n]))
                a = {"cols": codes, "f": [int(x) for x in f] if f is not None else [], "cut": cut, "d": kinds}
                fb = np.array(f, dtype=bool) if f is not None else None
                ca = np.array(cut, dtype=np.int64)
                rec.call("partitioned", a, lambda: rc.MultiKeyGroupBy32(cols, 0, fb, 2, cutoffs=ca),
                         lambda r: {"ikey": L(r[0]), "ifirst": L(r[1][0]), "fcut": L(r[1][1]), "n": int(r[2])})
    # the rolling hash: batches continue one numbering, several open at once
    for it in range(4 if tier == "quick" else 30):
        open_, nid = {}, 0
        for step in range(14):
            act = rng.random()
            if not open_ or (act < 0.2 and len(open_) < 3):
                kinds = rng.choice([["i1"], ["i2"], ["i4"], ["i8"], ["S5"], ["S16"], ["i8", "u4"], ["i8", "i8"], ["S5", "i4"],
                                    ["S9", "i1"], ["U2", "i2"], ["i1", "i1"], ["f8", "i4"]])  # rolling keys: at most 16 bytes
                hid = shard * 100000 + it * 100 + nid
                nid += 1
                open_[hid] = [kinds, None]
            hid = rng.choice(list(open_))
            kinds, ptr = open_[hid]
            if act > 0.9 and ptr is not None:
                k0 = (np.array([1]),)
                rec.call("rolldel", {"id": hid}, lambda: rc.MultiKeyRolling(k0, -1, ptr), lambda r: 0)
                del open_[hid]
                continue
            n = rng.choice([1, 2, 5, 12])
            codes = [[rng.randrange(min(5, ncodes(x))) for _ in range(n)] for x in kinds]
            cols = tuple(column(rng, x, c) for x, c in zip(kinds, codes))
            a = {"cols": codes, "id": hid, "d": kinds}
            if ptr is None:
                r = rec.call("roll", a, lambda: rc.MultiKeyRolling(cols, 1000), lambda r: {"bin": L(r[0]), "run": L(r[1]), "n": int(r[2])})
            else:
                r = rec.call("roll", a, lambda: rc.MultiKeyRolling(cols, 0, ptr), lambda r: {"bin": L(r[0]), "run": L(r[1]), "n": int(r[2])})
            open_[hid][1] = r[3]
        for hid, (kinds, ptr) in open_.items():
            if ptr is not None:
                k0 = (np.array([1]),)
                rec.call("rolldel", {"id": hid}, lambda: rc.MultiKeyRolling(k0, -1, ptr), lambda r: 0)
    # tables filled with many distinct keys: long probe chains, wrap-around, keys differing in one byte
    DK = ["i4", "i8", "u4", "u8", "f4", "f8", "S3", "S4", "S5", "S7", "S8", "S9", "S16", "S18", "U3", "U5", "i2", "u2"]
    jobs = [[k] for k in DK] + [["i8", "S5"], ["S3", "i1"], ["i4", "u4"], ["i2", "i4", "S3"], ["U3", "f8"], ["f4", "S9"],
                                ["i1", "i1", "i2"], ["S7", "u2", "i1"]]
    for ji, kinds in enumerate(jobs):
        if tier == "quick" and ji % nshards != shard:
            continue
        for big in (True, False):
            n = rng.choice([30000, 50000]) if big else rng.choice([1500, 2500])
            hint = rng.choice([0, 100, 100]) if big else 0    # a low hint makes a crowded table
            if len(kinds) == 1:
                base = [dense(rng, kinds[0], n)]
            else:  # each row of the tuple is distinct although the columns repeat
                q = np.random.RandomState(rng.randrange(1 << 30)).permutation(n)
                base, parts = [], []
                last = len(kinds) - 1
                for c, k in enumerate(kinds):
                    w = 120 if c < last else n // (120 ** last) + 1
                    d = dense(rng, k, min(w, 120) if k in ("i1",) else w)
                    base.append(d[(q % w) % len(d)])
                    q = q // w
            rep = np.random.RandomState(rng.randrange(1 << 30)).randint(0, n, n // 8)
            cols = [np.ascontiguousarray(np.concatenate([b, b[rep]])) for b in base]
            codes = [coded(c)[0] for c in cols]
            f = rng.choice([None, (rec.np.rand(len(cols[0])) < 0.8).astype(int).tolist()])
            if big:
                mode = rng.choice([1, 2, 2])
                gb(cols, codes, f, 0 if mode == 1 else hint, mode)
                continue
            live = np.ones(len(cols[0]), bool) if f is None else np.array(f, bool)
            seen, ik, fi = {}, [], []
            for i, row in enumerate(zip(*codes)):
                if not live[i]:
                    ik.append(0)
                    continue
                if row not in seen:
                    seen[row] = len(seen) + 1
                    fi.append(i)
                ik.append(seen[row])
            fb = None if f is None else live
            rec.call("uniquebig", {"cols": codes, "f": f or [], "d": kinds, "g": {"ikey": ik, "ifirst": fi}},
                     lambda: rc.MultiKeyUnique32(cols, 0, fb), lambda r: {"ifirst": L(r[0]), "count": L(r[1])})
            rec.call("super", {"cols": codes, "f": f or [], "d": kinds}, lambda: rc.MultiKeyGroupBy32Super(cols, 0, fb),
                     lambda r: {"ikey": L(r[0]), "ifirst": L(r[2]), "count": L(r[3])})
            rec.call("hash", {"cols": codes, "f": [], "d": kinds}, lambda: rc.MultiKeyHash(cols, 0, None),
                     lambda r: dict(zip(["key", "nth", "size", "prev", "next", "first", "last"], [L(x) for x in r])))
    # distinct keys that collide at the two ends of the hash table
    forms = [[k] for k in ("i4", "i8", "u4", "u8", "f4", "f8", "S5", "S9", "S12", "U6", "U9")] + \
        [["i8", "i4"], ["S7", "i8"], ["i4", "S3", "i2"], ["U6", "f4"]]
    for fi, kinds in enumerate(forms):
        if tier == "quick" and len(kinds) == 1 and fi % nshards != shard:
            continue
        base = [crowd(rng, kinds[0])] if len(kinds) == 1 else crowd_rows(rng, kinds)
        m = len(base[0])
        for sub in range((6 if tier == "quick" else 30) if m else 0):
            pick = np.array([rng.randrange(m) for _ in range(rng.randint(1, 14))], int)
            cols = [x[pick].copy() for x in base]
            codes = [coded(c)[0] for c in cols]
            gb(cols, codes, None, 0, 2)
            rec.call("super", {"cols": codes, "f": [], "d": kinds}, lambda: rc.MultiKeyGroupBy32Super(cols, 0, None),
                     lambda r: {"ikey": L(r[0]), "ifirst": L(r[2]), "count": L(r[3])})
            rec.call("hash", {"cols": codes, "f": [], "d": kinds}, lambda: rc.MultiKeyHash(cols, 0, None),
                     lambda r: dict(zip(["key", "nth", "size", "prev", "next", "first", "last"], [L(x) for x in r])))
    # sizes beyond the threading threshold (32768 rows), many and few distinct keys
    for kind in ["i1", "i2", "i4", "i8", "u4", "f4", "f8", "S5", "S3", "U2"][shard % 2::2] if tier != "quick" else \
            [["i4", "i8", "f8", "S5", "U2", "i2", "f4", "u8"][shard % 8]]:
        n = rng.choice([32768, 33000, 49152, 50001])
        base = rng.randrange(3)
        if kind in ("i4", "i8") and shard % 2 == 0:
            # many distinct values: the code is the value itself
            v = rec.np.randint(-9000, 9000, n)
            col, cs = v.astype(kind), v.tolist()
        else:
            cs = rec.np.randint(0, ncodes(kind), n).tolist()
            col = column(rng, kind, cs)
        f = None if base else (rec.np.rand(n) < 0.7).astype(int).tolist()
        gb([col], [cs], f)
    # two-column grouping of a large input
    if shard % 2 == 0 or tier != "quick":
        n = 40000
        c1 = rec.np.randint(0, 15, n).tolist()
        c2 = rec.np.randint(0, 12, n).tolist()
        gb([column(rng, "i8", c1), column(rng, "S5", c2)], [c1, c2], None)
