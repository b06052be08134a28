PID = "C17"
TECHNIQUE = 'TLA+ specification of masked writes and conditional selection; TLC checks the parallel assignment design model and validates every recorded call with the destination before and after'
LEVEL_NOTE = 'Every recorded masked write or selection (all types, lengths around word and section sizes, strided and read-only destinations, scalars and arrays) is judged by Masked.tla; a refusal must leave the destination untouched. Trusts TLC and the value coding.'
TRACE = "MaskedTrace"
MODELS = [{"spec": "MaskedMC", "workers": 2, "thorough_cfg": "MaskedMC_thorough.cfg"}]
ASSUMPTIONS = ["values converted to another type are representable in it", "destination and values do not overlap in memory"]
import numpy as np
from c16_take import NUM, STR, decode, layout, pal
from gcols import invalid
from recorder import INV, enc

LAY = ["plain", "plain", "plain", "odd", "strided"]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"

    def mask(n):
        return rs.random_sample(n) < rng.choice([0.0, 0.05, 0.5, 0.5, 0.95, 1.0])

    def vals(kind, n, inv=False, lo=0):
        if kind[0] in "SU":
            p = pal(kind)
            c = rs.randint(0, len(p), n)
            return c.tolist(), p[c]
        c = rs.randint(lo, 2 if kind == "b1" else 100, n)
        a = c.astype(kind)
        c = c.tolist()
        if inv and kind != "b1" and n:
            for i in rs.randint(0, n, max(1, n // 8)).tolist():
                c[i] = INV
                a[i] = invalid(kind)
        return c, a

    def assign(kind, n, misfit=False, one=False):
        c, a = vals(kind, n, True)
        m = mask(n)
        if one:
            # a single element written by a single value
            m[:] = False
            m[rng.choice([0, n // 2, n - 1])] = True
        k = int(m.sum())
        # the numbers of values that fit, or others near them: one more or less, half, those of a part of the mask
        cut = rng.choice([n // 2, n - 1, max(0, n - 1) // 16384 * 16384])
        nv = rng.choice([1, k, k, k] if not misfit else [k - 1, k + 1, k + 1, 2 * k, max(0, k // 2), int(m[:cut].sum()), int(m[:cut].sum()), n])
        nv = max(0, nv)
        cv, v = vals(kind, nv, True)
        a, m, v = layout(rng, a, rng.choice(LAY)), layout(rng, m, rng.choice(LAY)), layout(rng, v, rng.choice(LAY))
        if not a.flags.owndata and rng.random() < 0.1:
            a.flags.writeable = False
        km, kv = m.tobytes(), v.tobytes()
        cum = np.cumsum(m).tolist()
        # memory around a strided or offset destination must not change either
        base = a.base if a.base is not None else None
        other = None
        if base is not None and a.dtype == base.dtype and len(base):
            out = np.ones(len(base), bool)
            st = (a.__array_interface__["data"][0] - base.__array_interface__["data"][0]) // a.itemsize
            out[st::max(1, a.strides[0] // a.itemsize)][:n] = False
            other = (out, base[out].tobytes())
        rec.call("assign", {"before": c, "m": m.astype(int).tolist(), "cum": cum, "v": cv, "k": kind, "w": int(a.flags.writeable)},
                 lambda: rc.SetItem(a, m, v),
                 lambda r: {"done": int(r), "after": decode(kind, a),
                            "same": int(m.tobytes() == km and v.tobytes() == kv and (other is None or base[other[0]].tobytes() == other[1]))})

    def put(kd, ks, n):
        lo = -90 if kd[0] in "if" and ks[0] in "if" and rng.random() < 0.5 else 0
        c, a = vals(kd, n, True)
        cv, v = vals(ks, n, kd != "b1", lo)
        m = mask(n)
        a, m, v = layout(rng, a, rng.choice(LAY)), layout(rng, m, rng.choice(LAY)), layout(rng, v, rng.choice(LAY))
        km, kv = m.tobytes(), v.tobytes()
        rec.call("put", {"before": c, "m": m.astype(int).tolist(), "v": cv, "k": [kd, ks], "b": int(kd == "b1" and ks != "b1")},
                 lambda: rc.PutMask(a, m, v),
                 lambda r: {"done": int(r), "after": decode(kd, a), "same": int(m.tobytes() == km and v.tobytes() == kv)})

    def select(kind, n):
        m = mask(n)

        def branch():
            if rng.random() < 0.35:
                c, a = vals(kind, 1)
                return c, (a[0].item() if rng.random() < 0.7 else a[0]), None
            c, a = vals(kind, n, True)
            a = layout(rng, a, rng.choice(LAY))
            return c, a, (a, a.tobytes())
        (cx, x, kx), (cy, y, ky) = branch(), branch()
        m = layout(rng, m, rng.choice(LAY))
        km = m.tobytes()
        dt = np.dtype(kind)
        rec.call("select", {"m": m.astype(int).tolist(), "x": cx, "y": cy, "k": kind},
                 lambda: rc.Where(m, (x, y), dt.num, dt.itemsize),
                 lambda r: {"done": int(r is not None), "r": [] if r is None else decode(kind, r),
                            "same": int(m.tobytes() == km and all(p is None or p[0].tobytes() == p[1] for p in (kx, ky)))})

    def misfit(kind, n):
        """choices whose lengths do not fit the condition: refused, or left to the caller"""
        m = mask(n)
        (cx, x), (cy, y) = vals(kind, rng.choice([1, n, n + 1, 2 * n])), vals(kind, rng.choice([1, n - 1, n + 1, 2 * n]))
        if rng.random() < 0.5:
            x, y = y, x
        dt = np.dtype(kind)
        before = x.tobytes() + y.tobytes() + m.tobytes()
        rec.call("misfit", {"n": n, "x": len(x), "y": len(y), "k": kind}, lambda: rc.Where(m, (x, y), dt.num, dt.itemsize),
                 lambda r: {"done": int(r is not None), "same": int(x.tobytes() + y.tobytes() + m.tobytes() == before)})

    rec.emit("begin", {}, {})
    small = list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100, 250]
    for it in range(2 if quick else 20):
        for j, kind in enumerate(NUM + STR):
            if (j + it) % nshards == shard or not quick:
                for n in rng.sample(small, 8):
                    assign(kind, n)
                    select(kind, n)
                    assign(kind, n, misfit=True)
                    if n > 2:
                        misfit(kind, n)
        for j, kd in enumerate(NUM):
            for q, ks in enumerate(NUM):
                if (j * 11 + q + it) % nshards == shard or not quick:
                    for n in rng.sample(small, 3):
                        put(kd, ks, n)
    big = [16383, 16384, 16385, 32767, 32768, 33000, 40003, 49152]
    for it in range(3 if quick else 25):
        assign(rng.choice(["b1", "i1", "i4", "f8"]), rng.choice(big[3:]), misfit=True)
        assign(rng.choice(["b1", "i2", "S5"]), [32768, 49152, 33000][(shard + it) % 3], one=it == 1)
        assign(rng.choice(NUM + STR), rng.choice(big))
        put(rng.choice(NUM), rng.choice(NUM), rng.choice(big))
        select(rng.choice(NUM + STR), rng.choice(big))
