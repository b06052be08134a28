PID = "C28"
TECHNIQUE = "TLA+ specification of CRC-64 and of lossless decoding; TLC checks what the checksum detects and validates every recorded call"
LEVEL_NOTE = ("Checksums of real buffers of every length, value and alignment are recomputed byte by byte by Codec.tla; every recorded compression of arrays and "
              "byte strings, intact, cut or with one changed byte in the compressed frame, must give the same bytes back or an error. CodecMC.tla checks that the "
              "checksum notices every short burst and every cut in all short messages. Trusts TLC and, for long buffers, digests of the bytes.")
TRACE = "CodecTrace"
MODELS = [{"spec": "CodecMC", "workers": 2, "thorough_cfg": "CodecMC_thorough.cfg"}]
ASSUMPTIONS = ["damage lies in the compressed frame, which carries a checksum (the default); the array header in front of it has none"]
import numpy as np
from sdsfiles import digest


def limbs(x):
    x &= (1 << 64) - 1
    return [x >> (16 * i) & 65535 for i in range(4)]


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})

    def at(b, off, kind="u1"):
        """The bytes at an offset in memory, as an array"""
        buf = np.empty(len(b) + 136, "u1")
        start = (-buf.ctypes.data) % 64 + off
        v = buf[start:start + len(b)]
        v[:] = np.frombuffer(b, "u1")
        return v.view(kind)

    def some(n):
        how = rng.randrange(4)
        return bytes(rs.bytes(n)) if how == 0 else bytes([rng.choice([0, 255, 7])]) * n if how == 1 else bytes(rng.choice([0, 1, 128, 255]) for _ in range(n)) if how == 2 else \
            (np.arange(n) % 256).astype("u1").tobytes()

    for n in range(shard, 300 if quick else 1200, nshards):
        b = some(n)
        kinds = [k for k in ("u1", "i2", "f4", "i8", "S3", "?") if n % np.dtype(k).itemsize == 0]
        k = rng.choice(kinds)
        a = at(b, rng.choice([0, 0, 1, 4, 8, 13]) if k in ("u1", "S3", "?") else rng.choice([0, 8, 16]), k)
        rec.call("crc", {"b": list(b)}, lambda: rc.CalculateCRC(a), lambda r: {"crc": limbs(r)})
    for rep in range(20 if quick else 300):
        n = rng.choice([1000, 4096, 65537, 300001])
        b = some(n)
        c = bytearray(b)
        c[rng.choice([0, n - 1, n - 8, rng.randrange(n)])] ^= rng.choice([1, 128, 255])
        rec.call("check", {"n": n}, lambda: [rc.CalculateCRC(at(x, o)) for x, o in ((b, 0), (b, rng.choice([1, 7, 8, 63])), (bytes(c), 0))],
                 lambda r: {"c1": limbs(r[0]), "c2": limbs(r[1]), "c3": limbs(r[2])})

    def seen(a):
        return {"k": a.dtype.str, "sh": list(a.shape), "v": [x if x < 1 << 31 else x - (1 << 32) for x in np.frombuffer(a.tobytes(), "u1").tolist()] if a.nbytes <= 64 else digest(a)}

    def damage(b, lo):
        """One changed byte or a cut, behind the first lo bytes"""
        r = rng.random()
        if r < 0.5 and len(b) > lo:
            c = bytearray(b)
            c[rng.choice([lo, lo + 4, len(b) - 1, rng.randrange(lo, len(b))]) if len(b) > lo + 4 else lo] ^= rng.choice([1, 128, 255])
            return bytes(c)
        return b[:rng.choice([len(b) - 1, len(b) - 4, lo, rng.randrange(lo, len(b))] if len(b) > lo + 4 else [len(b) - 1])]

    kinds = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "?", "S5", "U3", "c16"]
    HEAD = 56
    for rep in range(60 if quick else 800):
        arrs = []
        n = rng.choice([0, 1, 2, 7, 100, 1000, 5000] + ([200000] if rep % 10 == 0 else []))
        for _ in range(rng.choice([1, 1, 2, 5])):
            k = np.dtype(rng.choice(kinds))
            b = some(n * k.itemsize)
            a = np.frombuffer(b, "u1").astype("?") if k == "?" else np.frombuffer(b, k) if n else np.zeros(0, k)
            if n and rng.random() < 0.2:
                a = a[::-1] if rng.random() < 0.5 else np.repeat(a, 2)[::2]
            arrs.append(a)
        level = rng.choice([-1, 0, 1, 3, 9, 19, 22, 40]) if sum(a.nbytes for a in arrs) < 50000 else rng.choice([1, 3])
        saved = [seen(a) for a in arrs]
        packed = rec.call("unpack", {"saved": [], "damaged": 0}, lambda: rc.CompressDecompressArrays(arrs, 0, level), lambda r: {"got": []})
        if not isinstance(packed, tuple):
            continue
        rec.call("unpack", {"saved": saved, "damaged": 0}, lambda: rc.CompressDecompressArrays(list(packed), 1), lambda r: {"got": [seen(x) for x in r]})
        if rng.random() < 0.3:
            # without checksums, read back with or without
            rc.SetZstdChecksumming(False)
            q = rec.call("unpack", {"saved": [], "damaged": 0}, lambda: rc.CompressDecompressArrays(arrs, 0, level), lambda r: {"got": []})
            rc.SetZstdChecksumming(rng.random() < 0.5)
            rec.call("unpack", {"saved": saved, "damaged": 0}, lambda: rc.CompressDecompressArrays(list(q), 1), lambda r: {"got": [seen(x) for x in r]})
            rc.SetZstdChecksumming(True)
        for t in range(4):
            j = rng.randrange(len(packed))
            bad = list(packed)
            bad[j] = np.frombuffer(damage(packed[j].tobytes(), HEAD), "u1")
            rec.call("unpack", {"saved": saved, "damaged": 1}, lambda: rc.CompressDecompressArrays(bad, 1), lambda r: {"got": [seen(x) for x in r]})
    for rep in range(60 if quick else 600):
        b = some(rng.choice([0, 1, 2, 10, 64, 1000, 70000]))
        packed = rec.call("unpack", {"saved": [], "damaged": 0}, lambda: rc.CompressString(b, rng.choice([-1, 1, 3, 9, 22])), lambda r: {"got": []})
        if not isinstance(packed, bytes):
            continue
        one = lambda x: {"got": [seen(np.frombuffer(x, "u1"))]}
        saved = [seen(np.frombuffer(b, "u1"))]
        rec.call("unpack", {"saved": saved, "damaged": 0}, lambda: rc.DecompressString(packed), one)
        for t in range(3):
            bad = damage(packed, 0)
            rec.call("unpack", {"saved": saved, "damaged": 1}, lambda: rc.DecompressString(bad), one)
