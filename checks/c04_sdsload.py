PID = "C04"
TECHNIQUE = "TLA+ specification of SDS files as sections of items; TLC replays every recorded history of saves, overwrites, loads and information reads"
LEVEL_NOTE = ("Histories on real files (all types, dimensions, orders, flags, metadata sizes, compression types and levels, band sizes, thread settings, arrays up to "
              "several megabytes) are replayed step by step on Sds.tla. Trusts TLC, the value coding and digests of long arrays.")
TRACE = "SdsTrace"
MODELS = [{"spec": "SdsMC", "workers": 3}]
ASSUMPTIONS = ["arrays have one to five dimensions", "column-major arrays of other memory layouts are stored contiguously"]
import numpy as np
from sdsfiles import NUM, Files, anyarray

KINDS = NUM + ["b1", "S1", "S3", "S40", "U1", "U5", "U40", "c8", "c16"]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})

    def items(k, dig, big):
        out = []
        for i in range(k):
            kind = rng.choice(KINDS if dig else [x for x in KINDS if x[0] != "c"])
            nd = rng.choice([1, 1, 1, 2, 2, 3, 4, 5])
            if big:
                shape = (rng.choice([40000, 70000, 131072, 300001]),) if nd < 3 else (rng.choice([1, 3]), rng.choice([20000, 33000]), rng.choice([2, 3]))[:3]
            else:
                shape = tuple(rng.choice([1, 2, 3, 4, 5]) for _ in range(nd)) if nd > 1 else (rng.choice([0, 1, 2, 7, 64, 100, 513]),)
                if rng.random() < 0.05 and nd > 1:
                    shape = shape[:-1] + (0,)
            out.append(("%s%d" % (rng.choice(["a", "col_", "Name with blanks ", "n" * 60]), i), rng.choice([0, 1, 1, 1, 2, 3, 5, 9, 17]), anyarray(rng, rs, kind, shape, dig)))
        return out

    def history(dig, big):
        F = Files(rc, rec, 3, dig)
        have = []
        for step in range(rng.randint(2, 7)):
            f = rng.randint(1, 3)
            if not have or rng.random() < 0.45:
                F.write(f, items(rng.choice([1, 1, 2, 3, 5, 8] + ([40] if not big and not dig else [])), dig, big), meta=rng.choice([0, 1, 5, 9]), comp=rng.choice([1, 1, 1, 0]), level=rng.choice([-1, 1, 3, 9, 19] if not big else [1, 3]),
                        ft=rng.choice([1, 2, 3, 4, 5]), band=rng.choice([None, None, 1, 3, 10, 1000, 16384]) if not big else rng.choice([None, 5000, 16384, 100000]))
                have = sorted(set(have) | {f})
            elif rng.random() < 0.6:
                F.load([rng.choice(have) for _ in range(rng.choice([1, 1, 2, 3]))])
            elif rng.random() < 0.5:
                F.load([rng.choice(have)], one=True)
            else:
                F.info([rng.choice(have) for _ in range(rng.choice([1, 2]))])
        F.load(have)
        F.play()

    for rep in range(12 if quick else 120):
        history(False, False)
    for rep in range(8 if quick else 80):
        history(True, False)
    for rep in range(2 if quick else 12):
        if shard % 2:
            rc.SetThreadWakeUp(rng.choice([1, 2, 7]))
        history(True, True)
