PID = "C27"
TECHNIQUE = ("TLA+ specification of shared datasets next to files: TLC explores every interleaving of saving (with kills) and loading processes and replays every recorded history")
LEVEL_NOTE = ("ShareMC.tla interleaves the steps of savers, which may be killed anywhere, and loaders. Histories on real shared memory (saves, replacements, copies of files, loads by this and "
              "another process, drops, killed and refused saves), saves racing loads, and threads are replayed on Share.tla. Trusts TLC and the value coding.")
TRACE = "ShareTrace"
MODELS = [{"spec": "ShareMC", "workers": 1, "thorough_cfg": "ShareMC_thorough.cfg"}, {"spec": "ShareMC", "cfg": "ShareMC_two.cfg", "workers": 1}]
ASSUMPTIONS = ["one process at a time saves under a name", "files have one section and are read without filters"]
DRIVE_TIMEOUT = 240
import gc
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import numpy as np
from recorder import INV
from sdsfiles import NUM, anyarray, code, digest, dtname, item, make, values

KINDS = NUM + ["b1", "S1", "S3", "S40", "U1", "U5", "U40"]


def metaof(b):
    b = bytes(b)
    for k in range(10):
        if b == (b"m%d" % k) * (1 + k):
            return k
    return -9


def section(x, dig):
    x = one(x)
    return {"meta": metaof(x[0]), "items": [item(n[0].decode(), n[1], a, dig) for a, n in zip(x[1], x[2])]}


def save(rc, path, meta, items, share=None, comp=1):
    more = () if share is None else (share,)
    rc.CompressFile(path, (b"m%d" % meta) * (1 + meta), [a for _, _, a in items], [(n.encode(), fl) for n, fl, _ in items], comp, 3, 2, *more)


def fill(version, n, k):
    return [("v%d" % i, 1, np.full(n, version, ["i4", "f8", "i8", "u2"][i % 4])) for i in range(k)]


def one(x):
    """A read of a file gives the list of its sections."""
    if isinstance(x, list):
        assert len(x) == 1
        return x[0]
    return x


def seen(x):
    return {"meta": metaof(x[0]), "lo": int(min(a.min() for a in x[1])), "hi": int(max(a.max() for a in x[1])), "n": len(x[1])}


def worker():
    """Another process: does one request after the other."""
    import riptide_cpp as rc
    for line in sys.stdin:
        q = json.loads(line)
        try:
            p, s = q["path"].encode(), q["share"].encode()
            if q["op"] == "load":
                x = rc.DecompressFile(p, 3, s)
                r = {"st": "ok", "r": section(x, q["dig"]), "w": sum(a.flags.writeable for a in one(x)[1])}
            elif q["op"] == "save":
                its = [(n, fl, make(k, v, sh)) for n, fl, k, v, sh in q["items"]]
                if not q["room"]:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (4096, resource.RLIM_INFINITY))
                try:
                    save(rc, p, q["meta"], its, s)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                r = {"st": "ok", "r": 0}
            elif q["op"] == "versions":
                print("go", file=sys.stderr, flush=True)
                for v in range(1, q["n"] + 1):
                    save(rc, p, v, fill(v, q["size"], q["items"]), s)
                r = {"st": "ok", "r": 0}
            elif q["op"] == "big":
                its = fill(q["meta"], q["size"], q["items"])
                print("go", file=sys.stderr, flush=True)
                save(rc, p, q["meta"], its, s)
                time.sleep(60)
                r = {"st": "ok", "r": 0}
        except Exception as ex:
            r = {"st": "bad" if isinstance(ex, SystemError) else "err", "r": [], "w": 0, "x": str(ex)[:100]}
        print("R" + json.dumps(r), flush=True)


class Other:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path[:0] = %r; import c27_shared; c27_shared.worker()" % sys.path], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def send(self, **q):
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()

    def go(self):
        while self.p.stderr.readline().strip() != "go":
            if self.p.poll() is not None:
                raise RuntimeError("the other process is gone")

    def get(self):
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("the other process is gone")
            if line[0] == "R" or "R{" in line:
                return json.loads(line[line.index("R{") + 1:])

    def kill(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.stderr.close()


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    rec.emit("begin", {}, {})
    dir = tempfile.mkdtemp(prefix="shm")
    tag = "%s-%d-" % (os.path.basename(dir), os.getpid())
    serial = [0]
    other = Other()

    def shm(share, path):
        return "/dev/shm/Global_%s!%s" % (share, os.path.basename(path))

    def unlink(share, path):
        try:
            os.unlink(shm(share, path))
        except OSError:
            pass

    def dataset(dig):
        out = []
        for i in range(rng.choice([0, 1, 1, 2, 3, 6])):
            kind = rng.choice(KINDS + (["c8", "c16"] if dig else []))
            nd = rng.choice([1, 1, 1, 2, 2, 3, 5])
            shape = (rng.choice([0, 1, 2, 7, 64, 100, 513] if not dig else [0, 1, 1000, 40000, 300001]),) if nd == 1 else tuple(rng.choice([1, 2, 3, 4, 5]) for _ in range(nd))
            if nd > 1 and rng.random() < 0.05:
                shape = shape[:-1] + (0,)
            out.append(("%s%d" % (rng.choice(["a", "col_", "Name with blanks ", "n" * 60]), i), rng.choice([0, 1, 1, 3, 17]), anyarray(rng, rs, kind, shape, dig)))
        return rng.choice([0, 1, 5, 9]), out

    def history(dig):
        nonlocal other
        serial[0] += 1
        NF, NS = 2, 2
        paths = {f: os.path.join(dir, "%s%d.%d.sds" % (tag, serial[0], f)) for f in range(1, NF + 1)}
        # a third file whose shared name may be too long
        paths[3] = os.path.join(dir, tag + "%d." % serial[0] + "x" * rng.choice([10, 225 - len(tag), rng.randint(200, 320) - len(tag)]))
        shares = {1: "s", 2: tag + "other"}
        ops, rs_, held = [], [], []
        exists = set()

        def name(s, f):
            return len("Global_") + len(shares[s]) + 1 + len(os.path.basename(paths[f]))

        def do(op, fn):
            try:
                r = fn()
            except Exception as ex:
                r = {"st": "bad" if isinstance(ex, SystemError) else "err", "r": [], "w": 0, "x": str(ex)[:100]}
            ops.append(op)
            rs_.append(r)
            return r

        def keep(x):
            held.append(x)
            return {"st": "ok", "r": section(x, dig), "w": sum(a.flags.writeable for a in one(x)[1])}

        def run():
            nonlocal other
            fds, maps = len(os.listdir("/proc/self/fd")), sum("Global_" in x for x in open("/proc/self/maps"))
            for step in range(rng.randint(4, 14)):
                r, s, f = rng.random(), rng.randint(1, NS), rng.choice([1, 1, 2, 2, 3])
                p, sh = paths[f].encode(), shares[s].encode()
                if r < 0.28:
                    meta, its = dataset(dig)
                    op = {"op": "share", "f": f, "s": s, "meta": meta, "items": [item(n, fl, a, dig) for n, fl, a in its], "name": name(s, f), "room": 1}

                    def mine():
                        save(rc, p, meta, its, sh, rng.choice([0, 1]))
                        return {"st": "ok", "r": 0}

                    def theirs():
                        other.send(op="save", path=paths[f], share=shares[s], meta=meta, room=op["room"],
                                   items=[[n, fl, a.dtype.str[1:] if a.dtype.kind not in "SU" else a.dtype.kind + str(a.dtype.itemsize // (4 if a.dtype.kind == "U" else 1)), [0 if a.dtype.kind in "SU" and c == INV else c for c in code(a)], list(a.shape)]
                                          for n, fl, a in its])
                        return other.get()
                    if not dig and rng.random() < 0.4 and all(not it["o"] for it in op["items"]):
                        # reads as much memory as a page holds: does not fit when there is no room
                        total = sum(a.nbytes for _, _, a in its)
                        op["room"] = int(rng.random() < 0.6 or total < 5000)
                        do(op, theirs)
                    else:
                        do(op, mine)
                elif r < 0.38 and f != 3:
                    meta, its = dataset(dig)
                    while not its:
                        meta, its = dataset(dig)

                    def write():
                        save(rc, p, meta, its, None, rng.choice([0, 1]))
                        return {"st": "ok", "r": 0}
                    do({"op": "write", "f": f, "meta": meta, "items": [item(n, fl, a, dig) for n, fl, a in its]}, write)
                    exists.add(f)
                elif r < 0.42 and f in exists:
                    def damage():
                        n = os.path.getsize(paths[f])
                        os.truncate(paths[f], rng.choice([0, 100, n // 2, n - 1, n - 1]))
                        return {"st": "ok", "r": 0}
                    do({"op": "damage", "f": f}, damage)
                    exists.discard(f)
                elif r < 0.46:
                    def away():
                        unlink(shares[s], paths[f])
                        return {"st": "ok", "r": 0}
                    do({"op": "unlink", "f": f, "s": s}, away)
                elif r < 0.66:
                    if rng.random() < 0.3:
                        def theirs():
                            other.send(op="load", path=paths[f], share=shares[s], dig=dig)
                            return other.get()
                        do({"op": "sload", "f": f, "s": s, "by": 1}, theirs)
                    else:
                        do({"op": "sload", "f": f, "s": s, "by": 0}, lambda: keep(rc.DecompressFile(p, 3, sh)))
                elif r < 0.74:
                    def info():
                        x = one(rc.DecompressFile(p, 5, sh))
                        return {"st": "ok", "r": {"meta": metaof(x[0]), "items": [{"n": n[0].decode(), "fl": int(n[1]), "k": dtname(c[1], c[3]), "sh": list(c[0])} for c, n in zip(x[1], x[2])]}}
                    do({"op": "sinfo", "f": f, "s": s}, info)
                elif r < 0.78 and f != 3:
                    do({"op": "load", "f": f}, lambda: keep(rc.DecompressFile(p, 3)))
                elif r < 0.86 and held:
                    k = rng.randrange(len(held))

                    def drop():
                        held[k] = None
                        gc.collect()
                        return {"st": "ok", "r": 0}
                    do({"op": "drop", "k": k + 1}, drop)
                elif r < 0.89 and dig and f != 3 and f not in exists:
                    its = fill(3, 400000, 5)
                    op = {"op": "kill", "f": f, "s": s, "meta": 3, "items": [item(n, fl, a, dig) for n, fl, a in its]}

                    def kill():
                        nonlocal other
                        other.send(op="big", path=paths[f], share=shares[s], meta=3, size=400000, items=5)
                        other.go()
                        time.sleep(rng.random() * 0.008)
                        other.kill()
                        other = Other()
                        return keep(rc.DecompressFile(p, 3, sh))
                    do(op, kill)
                else:
                    do({"op": "held"}, lambda: {"st": "ok", "r": [[] if x is None else [section(x, dig)] for x in held]})
            do({"op": "held"}, lambda: {"st": "ok", "r": [[] if x is None else [section(x, dig)] for x in held]})
            held.clear()
            gc.collect()
            left = sum("Global_" in x for x in open("/proc/self/maps")) - maps
            n = len(os.listdir("/proc/self/fd")) - fds
            for s in shares:
                for f in paths:
                    unlink(shares[s], paths[f])
            for f in paths:
                if f != 3 and os.path.exists(paths[f]):
                    os.unlink(paths[f])
            return {"rs": rs_, "fds": n, "maps": left}
        rec.call("history", {"nf": 3, "ns": NS, "ops": ops}, run, lambda r: r)

    def race():
        serial[0] += 1
        path, share = os.path.join(dir, "%sr%d.sds" % (tag, serial[0])), "s"
        n, size, k = 9, rng.choice([10, 2000, 50000]), rng.choice([1, 4, 8])

        def run():
            out = []
            other.send(op="versions", path=path, share=share, n=n, size=size, items=k)
            other.go()
            done = []
            t = threading.Thread(target=lambda: done.append(other.get()))
            t.start()
            while not done:
                try:
                    x = seen(rc.DecompressFile(path.encode(), 3, share.encode()))
                except ValueError:
                    continue
                if not out or x != out[-1]:
                    out.append(x)
                time.sleep(0)
            t.join()
            last = seen(rc.DecompressFile(path.encode(), 3, share.encode()))["meta"]
            unlink(share, path)
            return {"seen": out, "last": last, "st": done[0]["st"]}
        rec.call("race", {"versions": n, "items": k, "size": size}, run, lambda r: r)

    def threads():
        serial[0] += 1
        T, rounds = 4, 6
        own, want = [], []
        for t in range(T):
            path = os.path.join(dir, "%st%d.%d.sds" % (tag, serial[0], t))
            its = [("v%d" % i, 1, anyarray(rng, rs, rng.choice(KINDS), (rng.choice([0, 5, 3000, 60000]),), True)) for i in range(rng.randint(1, 6))]
            own.append((path, its))
            save(rc, path.encode(), t, its)
            want.append({"meta": t, "items": [item(n, fl, a, True) for n, fl, a in its]})

        def run():
            got = [[] for _ in range(T)]
            fail = []

            def work(t):
                path, its = own[t]
                try:
                    for i in range(rounds):
                        if i % 3 == 2:
                            save(rc, path.encode(), t, its, b"s")
                        x = rc.DecompressFile(path.encode(), 3, b"s")
                        got[t].append(section(x, True))
                        if i % 2:
                            unlink("s", path)
                except BaseException as ex:
                    fail.append(ex)
            ts = [threading.Thread(target=work, args=(t,)) for t in range(T)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for path, _ in own:
                unlink("s", path)
                os.unlink(path)
            if fail:
                raise fail[0]
            return {"got": got}
        rec.call("threads", {"want": want}, run, lambda r: r)

    try:
        for rep in range(30 if quick else 400):
            history(False)
        for rep in range(10 if quick else 120):
            history(True)
        for rep in range(3 if quick else 30):
            race()
        for rep in range(4 if quick else 40):
            threads()
    finally:
        other.kill()
        shutil.rmtree(dir, ignore_errors=True)
        for x in os.listdir("/dev/shm"):
            if tag in x:
                os.unlink("/dev/shm/" + x)
