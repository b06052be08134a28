PID = "C06"
TECHNIQUE = "TLA+ specification of stacking SDS files; TLC replays every recorded history of saves and stacked reads"
LEVEL_NOTE = ("Histories that save datasets of different items, types, widths and lengths and read them stacked (all or named items, row filters, missing files, "
              "threaded sizes) are replayed on Sds.tla: rows in file order, invalid rows for missing items, widened types that keep every value, cut-offs. Trusts TLC and the value coding.")
TRACE = "SdsTrace"
MODELS = [{"spec": "SdsMC", "workers": 3}]
ASSUMPTIONS = ["row filters are given for datasets whose items have equal numbers of rows", "items of the same name agree in all but the first dimension and in memory order",
               "items with uint64 are mixed with unsigned items only (stacking int64 with uint64 warns about sign loss)",
               "a file without any of the requested items contributes no rows"]
import numpy as np
from c16_take import layout
from sdsfiles import NUM, Files, make, values


def stacking(rec, sections, big):
    import riptide_cpp as rc
    rng = rec.rng
    N = 5
    F = Files(rc, rec, N)
    pool = ["a", "b", "c", "d", "e", "price", "a1"]
    base = {n: rng.choice(NUM + ["b1", "S3", "U5"]) for n in pool}
    fam = {n: ["u1", "u2", "u4", "u8"] if base[n] == "u8" else [x for x in NUM if x != "u8"] for n in pool}
    order = {n: rng.random() < 0.25 for n in pool}
    tail = {n: rng.choice([(), (), (), (2,), (3,), (2, 2)]) for n in pool}

    def kind(n):
        k = base[n]
        if rng.random() < 0.6:
            return k
        if k in NUM:
            return rng.choice(fam[n])
        return {"S": lambda: rng.choice(["S1", "S3", "S12", "S40"]), "U": lambda: rng.choice(["U1", "U5", "U12", "U40"])}.get(k[0], lambda: k)()

    def dataset():
        rows = rng.choice([1, 2, 3, 5, 8, 30]) if not big else rng.choice([17000, 33000])
        if rng.random() < 0.08:
            rows = 0
        names = rng.sample(pool, rng.randint(1, 5 if not big else 2))
        out = []
        for n in names:
            k, sh = kind(n), (rows,) + tail[n]
            size = 1
            for x in sh:
                size *= x
            a = make(k, values(rng, k, size), sh)
            out.append((n, 1, np.asfortranarray(a) if order[n] else a))
        return rows, out

    rows = {f: [] for f in range(1, N + 1)}
    have = {f: False for f in rows}
    keys = {f: set() for f in rows}

    def choose():
        fs = [f for f in rows if rows[f]]
        return [rng.choice(fs) for _ in range(rng.choice([1, 1, 2, 3, 4]) if not sections else rng.choice([1, 1, 1, 2]))]

    def gap(src):
        missing = [f for f in rows if not rows[f]]
        if missing and rng.random() < 0.2:
            src.insert(rng.randrange(len(src) + 1), rng.choice(missing))
            if rng.random() < 0.1:
                return [rng.choice(missing)]
        return src

    for step in range(rng.randint(3, 9) if not big else 4):
        fs = [f for f in rows if rows[f]]
        r = rng.random()
        if not fs or r < 0.4:
            f = rng.randint(1, N if not sections else 2)
            n, its = dataset()
            sec = rng.choice(["s1", "s2", "day %d" % step, "x" * 60]) if sections and rng.random() < 0.75 else ""
            F.write(f, its, sec=sec, meta=rng.choice([0, 1, 5]), comp=rng.choice([1, 1, 0]), band=rng.choice([None, None, None, 2, 16, 5000]))
            rows[f] = (rows[f] if sec else []) + [n]
        elif r < 0.5 and sections:
            src = choose()
            out = rng.randint(3, N)
            if out not in src:
                F.concat(src, out)
                rows[out] = [x for f in src for x in rows[f]]
        elif r < 0.62 and sections:
            F.load(gap(choose()), rng.choice([None, rng.sample(pool, 2), rng.sample(pool, 4)]), must=rng.choice([None, None, False, True]))
        elif r < 0.66:
            F.info(gap(choose()))
        else:
            src = choose()
            inc = rng.choice([None, None, rng.sample(pool, 3), rng.sample(pool, 5)])
            mask = None
            if rng.random() < 0.35:
                total = sum(x for f in src for x in rows[f])
                p = rng.choice([0.02, 0.3, 0.8, 1])
                mask = [int(rng.random() < p) for _ in range(total)]
                if rng.random() < 0.2:
                    mask = mask[:rng.randint(0, total)]
                if not mask:
                    mask = None
            src = gap(src)
            F.stack(src, inc, mask, lambda m: layout(rng, m, rng.choice(["plain", "strided", "back"])))
    F.play()


def drive(rec, shard, nshards, tier):
    rec.emit("begin", {}, {})
    for rep in range(25 if tier == "quick" else 300):
        stacking(rec, False, rep % 12 == 11)
