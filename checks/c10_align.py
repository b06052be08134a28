PID = "C10"
TECHNIQUE = "TLA+ as-of alignment specification; TLC checks the two-cursor design model and validates every recorded alignment and prebinned merge"
LEVEL_NOTE = "Every recorded alignment call (exhaustive small tables, randomized key and value types, long tables through a certificate) is a step of Align.tla; the cursor algorithm is checked exhaustively in AlignMC.tla within small bounds. Trusts TLC and the value coding."
TRACE = "AlignTrace"
MODELS = [{"spec": "AlignMC", "workers": 3, "thorough_cfg": "AlignMC_thorough.cfg"}]
ASSUMPTIONS = ["values are sorted among the valid ones, as the functions require", "value arrays are contiguous"]
import itertools
import numpy as np

NONE = 2000000000
VK = ["i4", "i8", "u4", "u8", "f4", "f8"]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    from keys import KINDS, coded, column, dense, ncodes
    from recorder import enc
    rng = rec.rng

    def values(codes, vk, scale):
        inv = np.nan if vk[0] == "f" else (np.iinfo(vk).min if vk[0] == "i" else np.iinfo(vk).max)
        return np.array([inv if x is None else x * scale for x in codes], dtype=vk)

    def scale(vk):
        return rng.choice({"i4": [1, 1 << 26], "u4": [1, 1 << 27], "i8": [1, 1 << 31, 1 << 58], "u8": [1, 1 << 32, 1 << 59],
                           "f4": [1, 0.5, 1e30], "f8": [1, 0.25, 1e300]}[vk])

    def E(v):
        return [NONE if x is None else int(x) for x in v]

    def align(kinds, c1, c2, v1, v2, fwd, exact, vk):
        K1 = [column(rng, k, c, rng.random() < 0.2) for k, c in zip(kinds, c1)]
        K2 = [column(rng, k, c, rng.random() < 0.2) for k, c in zip(kinds, c2)]
        f = scale(vk)
        A, B = values(v1, vk, f), values(v2, vk, f)
        rec.call("align", {"k1": c1, "k2": c2, "v1": E(v1), "v2": E(v2), "fwd": fwd, "exact": exact, "d": kinds, "v": vk},
                 lambda: rc.MultiKeyAlign32((K1,), (K2,), A, B, bool(fwd), bool(exact)), enc)

    def binned(kk, k1, k2, v1, v2, vk, uniq):
        f = scale(vk)
        A, B = values(v1, vk, f), values(v2, vk, f)
        rec.call("binned", {"k1": k1, "k2": k2, "v1": v1, "v2": v2, "d": kk, "v": vk},
                 lambda: rc.MergeBinnedAndSorted(np.array(k1, dtype=kk), np.array(k2, dtype=kk), A, B, uniq), enc)

    def times(n, lo, hi, pinv):
        v = sorted(rng.randrange(lo, hi) for _ in range(n))
        return [None if rng.random() < pinv else x for x in v]

    rec.emit("begin", {}, {})
    SK = [k for k in KINDS if ncodes(k) >= 2]
    # every pair of small tables over two keys and three times
    c = 0
    T = [0, 1, 2]
    for n in range(1, 3):
        for m in range(1, 4):
            for t1 in itertools.combinations_with_replacement(T, n):
                for t2 in itertools.combinations_with_replacement(T, m):
                    for a in itertools.product(range(2), repeat=n):
                        for b in itertools.product(range(2), repeat=m):
                            c += 1
                            if c % nshards != shard or (tier == "quick" and c // nshards % 3 and n + m > 3):
                                continue
                            kind = SK[rng.randrange(len(SK))]
                            off = rng.randrange(ncodes(kind) - 1)
                            v1, v2 = list(t1), list(t2)
                            if rng.random() < 0.2:
                                v2[rng.randrange(m)] = None
                            if rng.random() < 0.1:
                                v1[rng.randrange(n)] = None
                            align([kind], [[x + off for x in a]], [[x + off for x in b]], v1, v2, rng.randrange(2), rng.randrange(2), rng.choice(VK))
                            if c // nshards % 2:
                                binned(rng.choice(["i1", "i2", "i4", "i8"]), list(a), list(b), list(t1), list(t2), rng.choice(["i4", "i8", "f4", "f8"]), 2)
    for it in range(4 if tier == "quick" else 40):
        for vk in VK:
            for fwd in (0, 1):
                for exact in (0, 1):
                    kinds = [rng.choice(SK) for _ in range(rng.choice([1, 1, 2, 3]))]
                    n, m = rng.choice([0, 1, 2, 6, 30, 80]), rng.choice([0, 1, 2, 6, 30, 150])
                    p = rng.choice([2, 3, 40])
                    k1 = [[rng.randrange(min(p, ncodes(k))) for _ in range(n)] for k in kinds]
                    k2 = [[rng.randrange(min(p, ncodes(k))) for _ in range(m)] for k in kinds]
                    lo = 0 if vk[0] == "u" else -10
                    hi = rng.choice([3, 15])
                    align(kinds, k1, k2, times(n, lo, hi, rng.choice([0, 0.2])), times(m, lo, hi, rng.choice([0, 0.2])), fwd, exact, vk)
            if vk[0] != "u":
                for kk in ["i1", "i2", "i4", "i8"]:
                    n, m, p = rng.choice([0, 1, 5, 60]), rng.choice([0, 1, 7, 90]), rng.choice([1, 3, 20])
                    binned(kk, [rng.randrange(p) for _ in range(n)], [rng.randrange(p) for _ in range(m)],
                           times(n, -10, 15, 0), times(m, -10, 15, 0), vk, p + rng.choice([0, 0, 5]))

    # long tables: many keys, long probe chains
    def chains(c1, c2, fwd):
        st, nx = {}, [NONE] * len(c2)
        order = range(len(c2)) if fwd else range(len(c2) - 1, -1, -1)
        for j in order:
            nx[j] = st.get(c2[j], NONE)
            st[c2[j]] = j
        return nx, [st.get(x, NONE) for x in c1]

    jobs = [["i4"], ["i8"], ["f8"], ["S5"], ["S9"], ["U3"], ["u2"], ["S18"], ["f4"], ["S3", "i4"], ["i2", "i8"], ["U2", "f8"], ["i1", "S3"], ["u4"], ["S4"], ["i4", "i4"]]
    for ji, kinds in enumerate(jobs):
        if ji % nshards != shard and tier == "quick":
            continue
        n, m = rng.choice([3000, 8000]), rng.choice([3000, 20000])
        fwd, exact = rng.randrange(2), rng.randrange(2)
        d = rng.choice([20, m // 3, m - 10])
        if len(kinds) == 1:
            base = [dense(rng, kinds[0], d)]
        else:
            w = int(d ** 0.5) + 1 if kinds[0] != "i1" else 100
            q = np.random.RandomState(rng.randrange(1 << 30)).permutation(d)
            base = [dense(rng, kinds[0], w)[q % w], dense(rng, kinds[1], d // w + 1)[q // w]]
        i1 = rec.np.randint(0, d, n)
        i2 = rec.np.randint(0, max(1, d * 2 // 3), m) if rng.random() < 0.5 else np.arange(m) % d
        K1, K2 = [x[i1] for x in base], [x[i2] for x in base]
        c1, c2 = i1.tolist(), i2.tolist()
        span = rng.choice([5, 1000, 100000])
        vk = rng.choice(VK)
        v1, v2 = np.sort(rec.np.randint(0, span, n)), np.sort(rec.np.randint(0, span, m))
        nx, at = chains(c1, c2, fwd)
        rec.call("longalign", {"k1": c1, "k2": c2, "v1": v1.tolist(), "v2": v2.tolist(), "fwd": fwd, "exact": exact, "nx": nx, "at": at, "d": kinds, "v": vk},
                 lambda: rc.MultiKeyAlign32((K1,), (K2,), v1.astype(vk), v2.astype(vk), bool(fwd), bool(exact)), enc)
        kk, vk = rng.choice(["i4", "i8"] + ["i2"] * (m < 30000)), rng.choice(["i4", "i8", "f4", "f8"])
        nx, at = chains(c1, c2, 0)
        rec.call("longalign", {"k1": c1, "k2": c2, "v1": v1.tolist(), "v2": v2.tolist(), "fwd": 0, "exact": 1, "nx": nx, "at": at, "d": [kk], "v": vk},
                 lambda: rc.MergeBinnedAndSorted(i1.astype(kk), i2.astype(kk), v1.astype(vk), v2.astype(vk), d), enc)
