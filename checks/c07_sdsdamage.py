PID = "C07"
TECHNIQUE = "TLA+ specification of reading damaged SDS files; TLC explains every recorded read of a truncated or damaged real file"
LEVEL_NOTE = ("Saved files are cut at every kind of place, damaged inside compressed payloads and magic numbers, or replaced by other bytes; every way of reading "
              "them must report an error or return only items that were saved. Trusts TLC and digests of array bytes.")
TRACE = "SdsDamageTrace"
MODELS = []
ASSUMPTIONS = ["damage is truncation, a damaged magic number, other bytes than an SDS file, or damage inside a payload that the compression notices"]
import os
import shutil
import struct
import tempfile
import numpy as np
from sdsfiles import Files, digest, make, values


def blocks(rc, path):
    """Where the payloads of the first section lie: (offset, compressed size, uncompressed size, bands)"""
    h = rc.MultiDecompressFiles([path], 5)[0].file_header
    b = open(path, "rb").read()
    out = []
    for k in range(h["ArraysWritten"]):
        x = b[h["ArrayBlockOffset"] + 128 * k:][:128]
        out.append(struct.unpack("<qqqii", x[96:128]))
    return out


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})
    names = ["a", "b", "price", "name"]

    def arrays(rows):
        out = []
        for n in names[:rng.randint(1, 4)]:
            r = rng.random()
            if r < 0.4:
                a = np.arange(rows, dtype=rng.choice(["i2", "i4", "i8", "f4", "f8"])) // rng.choice([1, 3, 50])
            elif r < 0.6:
                a = rs.randint(0, 1 << 30, rows).astype(rng.choice(["i4", "i8", "f8"]))
            elif r < 0.8:
                a = np.array(["w%d" % (k % 7) for k in range(rows)], rng.choice(["S5", "U9"]))
            else:
                a = np.asarray(np.arange(3 * rows, dtype="i4").reshape(rows, 3) // 2, order=rng.choice("CF"))
            out.append((n, a))
        return out

    def seen(n, a):
        return {"n": n, "k": a.dtype.str, "sh": list(a.shape), "v": digest(a)}

    def load(r):
        out = []
        for x in r:
            if x is None:
                continue
            for a, n in zip(x[1], x[2]):
                if a is not None:
                    out.append(seen(n[0].decode("latin1"), a))
        return {"items": out}

    def stacked(r):
        return {"items": [] if r is None else [seen(i[0].decode("latin1"), a) for a, i in zip(r[0], r[1])]}

    def one(path, saved, kind, info):
        how = rng.choice(["file", "multi", "multi", "stack", "info"])
        a = {"how": how, "damage": kind, "saved": saved, "at": info}
        if how == "file":
            rec.call("damaged", a, lambda: rc.DecompressFile(path, 3), load)
        elif how == "multi":
            rec.call("damaged", a, lambda: rc.MultiDecompressFiles([path], 3), load)
        elif how == "stack":
            rec.call("damaged", a, lambda: rc.MultiStackFiles([path], 3), stacked)
        else:
            rec.call("damaged", a, lambda: rc.MultiDecompressFiles([path], 5), lambda r: {"items": []})

    d = tempfile.mkdtemp(prefix="sdsd")
    try:
        for rep in range(25 if quick else 400):
            path = os.path.join(d, "f%d.sds" % rep).encode()
            saved, parts = [], 1 if rng.random() < 0.7 else rng.randint(2, 3)
            for p in range(parts):
                its = arrays(rng.choice([1, 5, 100, 1000, 5000] if rep % 5 else [40000, 100000]))
                kw = {"section": "s%d" % p} if parts > 1 else {}
                if rng.random() < 0.3:
                    kw["bandsize"] = 10000
                rc.CompressFile(path, b"meta" * rng.choice([0, 1, 100]), [a for _, a in its], [(n.encode(), 1) for n, _ in its], rng.choice([1, 1, 1, 0]), 3, 2, **kw)
                saved.append([seen(n, a) for n, a in its])
            good = open(path, "rb").read()
            pay = blocks(rc, path)
            flat = [x for s in saved for x in s]
            if parts > 1:
                # stacked rows of one item over all sections are no single saved item
                flat = flat + [{"n": n, "k": "any", "sh": [], "v": []} for n in []]
            for t in range(14):
                r = rng.random()
                if r < 0.55:
                    at = rng.choice([rng.randrange(len(good)), rng.randrange(len(good)), rng.choice([0, 1, 100, 511, 512, 513, 600]), max(0, len(good) - rng.choice([1, 2, 128, 512, 513]))]
                                    + [rng.choice([o, o + c // 2, o + c - 1, o + c]) for o, c, u, bc, bs in pay])
                    bad, kind = good[:min(at, len(good) - 1)], "cut"
                elif r < 0.85:
                    squeezed = [x for x in pay if x[1] < x[2] and x[3] == 0]
                    if not squeezed:
                        continue
                    o, c, u, bc, bs = rng.choice(squeezed)
                    at, kind = o + rng.choice([rng.randrange(4), rng.randrange(c)]), "payload"
                    bad = bytearray(good)
                    bad[at] ^= rng.choice([1, 255, 128])
                elif r < 0.93:
                    at, kind = rng.randrange(2), "magic"
                    bad = bytearray(good)
                    bad[at] ^= 0x55
                else:
                    at, kind = rng.choice([0, 10, 512, 3000]), "other"
                    bad = rs.bytes(at)
                with open(path, "wb") as f:
                    f.write(bytes(bad))
                if parts > 1:
                    how = "multi"
                    rec.call("damaged", {"how": how, "damage": kind, "saved": flat, "at": at}, lambda: rc.MultiDecompressFiles([path], 3), load)
                else:
                    one(path, flat, kind, at)
            os.unlink(path)
    finally:
        shutil.rmtree(d, ignore_errors=True)
