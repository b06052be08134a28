PID = "C09"
TECHNIQUE = 'TLA+ membership specification; TLC checks the lookup design model and validates every recorded membership call'
LEVEL_NOTE = 'Every recorded membership call (exhaustive small tables, randomized types and widths, threaded sizes) is a step of Membership.tla; the threaded lookup is checked exhaustively in MembershipMC.tla within small bounds. Trusts TLC and the value coding.'
TRACE = "MembershipTrace"
MODELS = [{"spec": "MembershipMC", "workers": 2, "thorough_cfg": "MembershipMC_thorough.cfg"}]
ASSUMPTIONS = ["keys are drawn from palettes of pairwise distinct values without signed zeros or NaN payloads",
               "arrays are contiguous"]
import itertools
import numpy as np


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from crowd import crowd, crowd_rows
    from keys import KINDS, coded, column, dense, ncodes, palettes
    from recorder import enc
    rng = rec.rng
    SK = [k for k in KINDS]

    def nan_of(kind):
        return 9 if kind in ("f4", "f8") else -1

    def im(kind, ca, cb, mode, hint=0, kb=None):
        a, b = column(rng, kind, ca), column(rng, kb or kind, cb)
        arg = {"a": ca, "b": cb, "nan": nan_of(kind), "d": kind, "db": kb or kind, "m": mode, "h": hint}
        rec.call("ismember", arg, lambda: rc.IsMember32(a, b, mode, hint), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})

    def cat(kind, ca, cb, mode, hint=0):
        a, b = column(rng, kind, ca), column(rng, kind, cb)
        arg = {"a": ca, "b": cb, "nan": nan_of(kind), "d": kind, "m": mode, "h": hint}
        rec.call("categorical", arg, lambda: rc.IsMemberCategorical(a, b, mode, hint),
                 lambda r: {"missed": int(r[0]), "idx": enc(r[1])})

    def multi(kinds, ca, cb, hint=0):
        A = [column(rng, k, c, rng.random() < 0.3) for k, c in zip(kinds, ca)]
        B = [column(rng, k, c, rng.random() < 0.3) for k, c in zip(kinds, cb)]
        rec.call("multi", {"a": ca, "b": cb, "d": kinds, "h": hint}, lambda: rc.MultiKeyIsMember32((A,), (B,), hint),
                 lambda r: {"found": enc(r[0]), "idx": enc(r[1])})

    rec.emit("begin", {}, {})
    # every small pair of inputs over three keys
    c = 0
    for n in range(1, 4):
        for m in range(1, 4):
            for ca in itertools.product(range(3), repeat=n):
                for cb in itertools.product(range(3), repeat=m):
                    c += 1
                    if c % nshards != shard:
                        continue
                    kind = SK[(c // nshards) % len(SK)]
                    kind = kind if ncodes(kind) >= 3 else "i8"
                    off = rng.randrange(ncodes(kind) - 2)
                    im(kind, [x + off for x in ca], [x + off for x in cb], 1 + (c // 7) % 2)
    reps = 5 if tier == "quick" else 40
    for it in range(reps):
        for kind in SK:
            p = ncodes(kind)
            n, m = rng.choice([1, 2, 5, 17, 64, 130]), rng.choice([1, 2, 5, 17, 99, 100, 101, 126, 127, 128, 130, 300])
            ca = [rng.randrange(p) for _ in range(n)]
            sub = rng.sample(range(p), rng.randrange(1, p + 1))
            cb = [rng.choice(sub) for _ in range(m)]
            mode = rng.choice([1, 2])
            im(kind, ca, cb, mode, rng.choice([0, 0, 400]))
            cat(kind, ca, cb, rng.choice([1, 2]))
            if kind[0] in "SU":  # the two sides may have different widths
                other = {"S3": "S9", "S9": "S18", "S1": "S4", "S4": "S2", "S18": "S5", "U2": "U5", "U5": "U2", "U1": "U2"}.get(kind)
                if other:
                    pa, pb = palettes(kind).tolist(), palettes(other).tolist()
                    common = [x for x in pa if x in pb]
                    ia = rng.choices(range(len(pa)), k=n)
                    ib = rng.choices(range(len(pb)), k=m)
                    a, b = palettes(kind)[ia], palettes(other)[ib]
                    allv = sorted(set(pa) | set(pb))
                    xa, xb = [allv.index(x) for x in a.tolist()], [allv.index(x) for x in b.tolist()]
                    rec.call("ismember", {"a": xa, "b": xb, "nan": -1, "d": kind, "db": other, "m": mode, "h": 0},
                             lambda: rc.IsMember32(a, b, mode, 0), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})
            kinds = [kind] + [rng.choice(SK) for _ in range(rng.choice([1, 2, 3]))]
            n, m = rng.choice([1, 3, 20]), rng.choice([1, 4, 25, 120])
            two = lambda k: rng.sample(range(ncodes(k)), 2)
            t = [two(k) for k in kinds]
            multi(kinds, [[rng.choice(x) for _ in range(n)] for x in t], [[rng.choice(x) for _ in range(m)] for x in t], rng.choice([0, 0, 50]))
    # tables filled with many distinct keys: long probe chains, wrap-around, prefixes, keys differing in one byte
    DK = ["i4", "i8", "u4", "u8", "f4", "f8", "S3", "S4", "S5", "S7", "S8", "S9", "S16", "S18", "U3", "U5", "i2", "u2"]
    jobs = [[k] for k in DK] + [["S4/S7"], ["S7/S4"], ["S3/S18"], ["S9/S5"], ["U3/U5"], ["U5/U3"], ["i8", "S5"], ["S3", "i2"], ["i4", "u4"],
                                ["i2", "i4", "S3"], ["U3", "f8"], ["f4", "S9"]]
    for ji, kinds in enumerate(jobs):
        if tier == "quick" and ji % nshards != shard:
            continue
        n = rng.choice([30000, 32768, 50000, 55000])
        hint = rng.choice([0, 100, 100, 100])   # a low hint makes a crowded table
        if len(kinds) == 1 and "/" not in kinds[0]:
            d = dense(rng, kinds[0], n)
            nb = rng.choice([n // 2, n - 50])
            A, B = [d[rng.randrange(n // 4):]], [d[:nb][::-1].copy()]
            codes = [coded(A[0], B[0])]
        elif len(kinds) == 1:
            ka, kb = kinds[0].split("/")
            w = min(int(ka[1:]), int(kb[1:]))
            small = kb if int(kb[1:]) == w else ka
            d = dense(rng, small, n)
            ext = np.array([x + (b"x" if small[0] == "S" else "x") * (i % 2) for i, x in enumerate(d.tolist())], dtype=(ka if small == kb else kb))
            A, B = ([ext], [d]) if small == kb else ([d], [ext])
            codes = [coded(A[0], B[0])]
        else:
            q = np.random.RandomState(rng.randrange(1 << 30)).permutation(n)
            base = []
            last = len(kinds) - 1
            for c, k in enumerate(kinds):
                w = 120 if c < last else n // (120 ** last) + 1
                base.append(dense(rng, k, w)[q % w])
                q = q // w
            A, B = [x[5000:].copy() for x in base], [x[:n - 3000][::-1].copy() for x in base]
            codes = [coded(x, y) for x, y in zip(A, B)]
        arg = {"a": [c[0] for c in codes], "b": [c[1] for c in codes], "d": kinds}
        if len(A) > 1:
            rec.call("densemember", arg, lambda: rc.MultiKeyIsMember32((A,), (B,), hint), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})
        else:
            mode = rng.choice([1, 2, 2])
            hint = 0 if mode == 1 else hint
            arg["m"], arg["h"] = mode, hint
            rec.call("densemember", arg, lambda: rc.IsMember32(A[0], B[0], mode, hint), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})
            rec.call("densecategorical", arg, lambda: rc.IsMemberCategorical(A[0], B[0], mode, hint),
                     lambda r: {"missed": int(r[0]), "idx": enc(r[1])})
    # small tables of distinct keys that collide at the two ends of the hash table
    for it in range(1 if tier == "quick" else 6):
        forms = [[k] for k in ("i4", "i8", "u4", "u8", "f4", "f8", "S5", "S9", "S12", "U6", "U9")] + \
            [["i8", "i4"], ["S7", "i8"], ["i4", "S3", "i2"], ["U6", "f4"]]
        for fi, kinds in enumerate(forms):
            if tier == "quick" and len(kinds) == 1 and fi % nshards != shard:
                continue
            base = [crowd(rng, kinds[0])] if len(kinds) == 1 else crowd_rows(rng, kinds)
            for sub in range(8 if len(base[0]) else 0):
                m = len(base[0])
                pick = np.array(rng.sample(range(m), rng.randint(1, min(m, 10))), int)
                back = np.array(rng.sample(range(m), rng.randint(1, min(m, 10))), int)
                back = np.unique(np.concatenate([back, pick[:len(pick) // 2 + 1]]))
                A, B = [x[back][::-1].copy() for x in base], [x[pick].copy() for x in base]
                codes = [coded(x, y) for x, y in zip(A, B)]
                arg = {"a": [c[0] for c in codes], "b": [c[1] for c in codes], "d": kinds, "small": 1}
                if len(A) > 1:
                    rec.call("densemember", arg, lambda: rc.MultiKeyIsMember32((A,), (B,), 0), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})
                else:
                    rec.call("densemember", arg, lambda: rc.IsMember32(A[0], B[0], 2, 0), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})
                    rec.call("densecategorical", arg, lambda: rc.IsMemberCategorical(A[0], B[0], 2, 0),
                             lambda r: {"missed": int(r[0]), "idx": enc(r[1])})
    # many distinct keys, and sizes beyond the threading threshold
    kind = ["i4", "i8", "f8", "S5", "U2", "i2", "f4", "u8"][shard % 8]
    n = rng.choice([32768, 40000, 65537])
    ca = rec.np.randint(0, ncodes(kind), n).tolist()
    sub = rng.sample(range(ncodes(kind)), max(1, ncodes(kind) // 2))
    im(kind, ca, [rng.choice(sub) for _ in range(500)], 2)
    im(kind, ca[:300], [rng.choice(sub) for _ in range(34000)], 1 + shard % 2)
    for k2 in ("i4", "i8", "f8"):
        va, vb = rec.np.randint(-3000, 3000, 40000), rec.np.randint(-2000, 4000, 3000)
        rec.call("ismember", {"a": va.tolist(), "b": vb.tolist(), "nan": -1000000, "d": k2, "m": 1 + shard % 2},
                 lambda: rc.IsMember32(va.astype(k2), vb.astype(k2), 1 + shard % 2, 0), lambda r: {"found": enc(r[0]), "idx": enc(r[1])})
        break
    k1 = rec.np.randint(0, 3, 36000).tolist()
    multi(["i8", "S5"], [k1, k1[::-1]], [[0, 1, 1, 2, 0], [1, 1, 1, 0, 2]])
