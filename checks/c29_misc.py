PID = "C29"
TECHNIQUE = "TLA+ definitions of bit counts, trimming, interpolation and columns of records; TLC checks the definitions and validates every recorded call"
LEVEL_NOTE = ("Recorded calls over all item widths, layouts (odd, strided, reversed, two-dimensional), lengths around vector and block ends and threaded sizes are "
              "judged element by element by Misc.tla; MiscMC.tla checks the definitions on all short texts and tables. Trusts TLC and the value coding.")
TRACE = "MiscTrace"
MODELS = [{"spec": "MiscMC", "workers": 2}]
ASSUMPTIONS = ["tables are increasing with distances of powers of two, so that answers are exact", "arrays given for columns are contiguous and fit the records"]
import numpy as np
from c16_take import layout
from recorder import INV, OTHER

LAY = ["plain", "odd", "strided", "back", "2d", "F", "T"]


def shaped(rng, a, how):
    if how in ("2d", "F", "T"):
        for d in (7, 5, 3, 2, 1):
            if len(a) % d == 0:
                break
        b = a.reshape(len(a) // d, d)
        return b if how == "2d" else np.asfortranarray(b) if how == "F" else np.ascontiguousarray(b.T).T[:, :] if how == "T" and rng.random() < 0.5 else np.repeat(b, 2, axis=1)[:, ::2]
    return layout(rng, a, how)


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})
    sizes = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100]

    def items(a):
        w = a.dtype.itemsize
        b = np.frombuffer(a.tobytes(), "u1").tolist()
        return [b[i * w:i * w + w] for i in range(a.size)]

    for rep in range(60 if quick else 800):
        k = np.dtype(rng.choice(["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]))
        n = rng.choice(sizes)
        a = np.frombuffer(rs.bytes(n * k.itemsize), "u1" if k == "?" else k)
        if rng.random() < 0.5:
            a = a & a[::-1] & np.array(rng.choice([1, 3, 127, 0x55]), a.dtype)
        a = (a % 2).astype("?") if k == "?" else a
        a = shaped(rng, a, rng.choice(LAY)) if n else a
        keep = a.tobytes()
        rec.call("bits", {"x": items(a), "bool": int(k == "?"), "sh": list(a.shape)}, lambda: rc.BitCount(a),
                 lambda r: {"r": r.ravel().tolist(), "sh": list(r.shape), "same": int(a.tobytes() == keep)})

    for rep in range(60 if quick else 800):
        n, w, u = rng.choice(sizes), rng.choice([1, 2, 3, 5, 8, 9]), rng.random() < 0.5
        txt = ["".join(rng.choice(["a", " ", " ", "\0", "\t", "z"] + (["\u20ac", "\u2020", "\U00010020"] if u else ["\xa0", "\xff"])) for _ in range(rng.randint(0, w))) for _ in range(n)]
        a = np.array(txt, "U%d" % w) if u else np.array([t.encode("latin1") for t in txt], "S%d" % w)
        how = rng.choice(["plain", "odd", "strided", "back", "2d", "T"]) if n else "plain"
        base = None
        if how in ("2d", "T"):
            d = next(d for d in (5, 3, 2, 1) if n % d == 0)
            base = np.full((n // d + 2, d + 1), "q  ", a.dtype)
            v = base[1:-1, :d]
            v[...] = a.reshape(-1, d)
            mask = np.ones(base.shape, bool)
            mask[1:-1, :d] = False
            v = v.T if how == "T" else v
        else:
            step = {"plain": 1, "odd": 1, "strided": rng.choice([2, 3]), "back": -1}[how]
            base = np.full(n * abs(step) + 6, "q  ", a.dtype)
            sl = slice(3, 3 + n * abs(step), abs(step)) if step > 0 else slice(n + 2, 2, -1)
            v = base[sl] if n else base[3:3]
            v[:] = a
            mask = np.ones(base.shape, bool)
            mask[sl if n else slice(3, 3)] = False
        keep = base[mask].tobytes()
        ch = lambda z: [np.frombuffer(np.array(x).tobytes().ljust(z.dtype.itemsize, b"\0"), "u4" if u else "u1").tolist() for x in z.ravel()]
        rec.call("trim", {"x": [[int(y) for y in x] for x in ch(v)]}, lambda: rc.RemoveTrailingSpaces(v),
                 lambda r: {"r": ch(v) if r is v else [], "rest": int(base[mask].tobytes() == keep)})

    def coded(r):
        out = []
        for y in r.tolist():
            z = y * 16
            out.append(INV if y != y else int(z) if abs(z) < 1e9 and z == int(z) else OTHER)
        return out

    for rep in range(50 if quick else 600):
        long = rep % 16 == 15
        n, m = rng.choice(sizes) if not long else rng.choice([16385, 33000]), rng.choice([2, 2, 3, 4, 5, 8, 9, 17])
        if long:
            m = min(m, 3)
        k, two, clip = rng.choice(["f4", "f8"]), rng.random() < 0.5 and not long, rng.choice([0, 1])
        rows = max(n, 1) if two else 1
        xp = np.cumsum(np.array([[rng.choice([1, 2, 4, 8]) for _ in range(m)] for _ in range(rows)]), axis=1) - rng.choice([0, 5, 30])
        yp = rs.randint(-30, 31, (rows, m))
        if two and n == 0:
            xp, yp = xp[:0], yp[:0]
        x = rs.randint(2 * int(xp.min()) - 9, 2 * int(xp.max()) + 10, n) if n else np.zeros(0, "i8")
        if n > 2 and not two and rng.random() < 0.5:
            x[:3] = 2 * xp[0][rs.randint(0, m, 3)]
        a = x.astype(k) / np.array(2, k)
        code = x.tolist()
        for j in ([rng.randrange(n) for _ in range(rng.choice([0, 1, 3]))] if n else []):
            a[j], code[j] = np.nan, INV
        a = layout(rng, a, rng.choice(["plain", "odd", "strided", "back"]))
        X, Y = xp.astype(k), yp.astype(k)
        if not two:
            X, Y = X[0].copy(), Y[0].copy()
        keep = a.tobytes() + X.tobytes() + Y.tobytes()
        rec.call("interp", {"x": code, "xp": xp.tolist(), "yp": yp.tolist(), "clip": clip}, lambda: rc.InterpExtrap2d(a, X, Y, clip),
                 lambda r: {"r": coded(r), "same": int(a.tobytes() + X.tobytes() + Y.tobytes() == keep and r.dtype == a.dtype)})

    for rep in range(50 if quick else 600):
        long = rep % 10 == 9
        n = rng.choice(sizes) if not long else rng.choice([16384, 16385, 40001])
        kinds = ["i1", "i2", "i4", "i8", "f4", "f8", "S1", "S3", "S4", "S7", "S9", "S17", "U1", "U3", "c16"]
        fields, off = [], 0
        for c in range(rng.randint(1, 5)):
            off += rng.choice([0, 0, 1, 3])
            fields.append((off, np.dtype(rng.choice(kinds if not long else ["i1", "i2", "i4", "i8", "u2"]))))
            off += fields[-1][1].itemsize
        width = off + rng.choice([0, 0, 2])
        rng.shuffle(fields)
        raw = np.frombuffer(rs.bytes(n * width), "u1").copy()
        r0 = raw.view("V%d" % width) if n else np.zeros(0, "V%d" % width)
        bases = [np.full((n + 4) * k.itemsize, 0xA5, "u1") for _, k in fields]
        dest = np.empty(len(fields), object)
        for j, (b, (_, k)) in enumerate(zip(bases, fields)):
            dest[j] = b[2 * k.itemsize:(n + 2) * k.itemsize].view(k)
        offs = np.array([o for o, _ in fields], "i8")
        rest = lambda: int(all((b[:2 * k.itemsize] == 0xA5).all() and (b[(n + 2) * k.itemsize:] == 0xA5).all() for b, (_, k) in zip(bases, fields)))
        if not long:
            rec.call("cols", {"rows": [raw[i * width:i * width + width].tolist() for i in range(n)], "cols": [[o, k.itemsize] for o, k in fields]},
                     lambda: rc.RecordArrayToColMajor(r0, offs, dest), lambda r: {"r": [items(d) for d in dest], "rest": rest()})
        else:
            grid = raw.reshape(n, width)
            vals = []
            for o, k in fields:
                v = (np.arange(n) * rng.choice([1, 3, 7]) + o).astype(k)
                grid[:, o:o + k.itemsize] = v.view("u1").reshape(n, k.itemsize)
                vals.append(v.astype("i8").tolist())
            rec.call("longcols", {"v": vals}, lambda: rc.RecordArrayToColMajor(r0, offs, dest), lambda r: {"r": [d.astype("i8").tolist() for d in dest], "rest": rest()})
