PID = "C26"
TECHNIQUE = ("TLA+ specification of the logging service: TLC explores every interleaving of its step-level protocol and validates runs of the real service recorded under a deterministic "
             "scheduler, and histories of the Python functions")
LEVEL_NOTE = ("LoggingMC.tla interleaves every step of loggers, handler and controller and checks order, completeness and termination. The real logging service is compiled with access "
              "instrumentation and scheduled (mutexes, condition variables, threads, clock); TLC validates every run against Logging.tla, and sessions, exits and threads through the Python "
              "functions against LogHistory.tla. Trusts TLC and the scheduler.")
TRACE = "LoggingTrace"
MODELS = [{"spec": "LoggingMC", "workers": 2, "thorough_cfg": "LoggingMC_thorough.cfg"}]
ASSUMPTIONS = ["memory is sequentially consistent", "a logger's level is set while logging is disabled", "at most 3 logging and 2 controlling threads per scheduled run"]
DRIVE_TIMEOUT = 120
ENV = {}
RUNS = {"quick": 2000, "thorough": 20000}
import json
import logging
import os
import subprocess
import sys
import threading
import time


def prepare(run):
    import build
    h = build.ROOT + "/harness/"
    ENV["LOGSVC"] = build.build_program("logger", [h + "logger.cpp"], ["logging/logging.cpp"],
                                        build.PYINC + ["-O1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"], ["-ldl"],
                                        plain=[h + "sched.cpp", h + "schedlib.cpp"])


class Sink(logging.Handler):
    def __init__(self, slow=0):
        super().__init__()
        self.got, self.slow = [], slow

    def emit(self, r):
        self.got.append((r.name, r.levelno, r.getMessage(), getattr(r, "timestamp", 0)))
        if self.slow:
            time.sleep(self.slow)


class Bad(logging.Filter):
    def __init__(self, mark):
        super().__init__()
        self.mark, self.hit = mark, 0

    def filter(self, r):
        if not self.hit and self.mark in r.getMessage():
            self.hit = 1
            raise RuntimeError("a filter that fails")
        return True


NAME = "riptable.riptide_cpp.SDSFile"


def touch(rc, marks):
    """Reads files that do not exist: the library logs about each."""
    try:
        rc.MultiDecompressFiles([b"/nonexistent/log-%s." % m.encode() for m in marks], 3, mustexist=0)
    except ValueError:
        pass


def mark_of(text):
    i = text.find("/log-")
    return None if i < 0 else text[i + 5:].split(".")[0]


EXIT = """
import sys, os, logging
sys.path[:0] = %r
import c26_logging as c, riptide_cpp as rc
lg = logging.getLogger(c.NAME); lg.setLevel(10); lg.propagate = False
fd = os.open(%r, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
class H(logging.Handler):
    def emit(self, r):
        if c.mark_of(r.getMessage()): os.write(fd, b"x")
lg.addHandler(H())
rc.EnableLogging(%d, %d, 1000000, None)
for i in range(%d): c.touch(rc, ["a"])
%s
"""


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rng = rec.rng
    quick = tier == "quick"
    rec.emit("begin", {}, {})
    lg = logging.getLogger(NAME)
    lg.propagate = False
    serial = [0]

    def session():
        n, level = rng.randint(0, 6), rng.choice([1, 10, 10, 40, 40, 50])
        room = rng.choice([100000, 100000, 100000, 1, 3])
        limit = rng.choice([None, None, None, 0, 1, 50])
        interval = rng.choice([2, 20, 5000])
        wide = rng.choice([1, 1, 3])
        bad = rng.randint(1, n) if n and level <= 40 and rng.random() < 0.3 else 0
        wait = int(interval < 100 and limit is None and rng.random() < 0.5)
        serial[0] += 1
        tag = "%d-%d-" % (shard, serial[0])
        h = Sink(0.0005 if limit is not None and rng.random() < 0.5 else 0)
        lg.setLevel(level)
        lg.addHandler(h)
        f = Bad("/log-" + tag + "%d-" % bad)
        hold = None
        if bad:
            lg.addFilter(f)
            hold, sys.unraisablehook = sys.unraisablehook, lambda a: None
        windows = {}

        def call(i):
            t = time.time_ns()
            touch(rc, [tag + "%d-%d" % (i, j) for j in range(wide)])
            windows[i] = (t, time.time_ns())

        def run():
            if rng.random() < 0.5:
                call(0)               # not enabled: must not be heard of
            if rng.random() < 0.3:
                rc.DisableLogging(-1)
            rc.EnableLogging(interval, rng.choice([1, 2, 50]), room, None)
            if rng.random() < 0.3:
                rc.EnableLogging(7, 1, 1, None)   # already enabled: changes nothing
            for i in range(1, n + 1):
                call(i)
                if rng.random() < 0.2:
                    time.sleep(0.003)
            early = 0
            if wait:
                end = time.time() + 20
                last, still = -1, 0
                while time.time() < end and still < 5:
                    time.sleep(0.02 + interval / 1000)
                    still = still + 1 if len(h.got) == last and last > 0 or (n == 0 or level > 40) else 0
                    last = len(h.got)
            early = len(h.got)
            rc.DisableLogging(-1 if limit is None else limit)
            k = len(h.got)
            if rng.random() < 0.5:
                call(0)
            time.sleep(rng.choice([0, 0.01]))
            return k, early

        def encode(x):
            k, early = x
            got, stray, stamps, seen = [], 0, 1, set()
            names = int(all(g[0] == NAME for g in h.got))
            levels = int(all(g[1] >= level for g in h.got))
            lo = min(w[0] for w in windows.values()) if windows else 0
            hi = max(w[1] for w in windows.values()) if windows else 0
            for g in h.got:
                m = mark_of(g[2])
                stamps = stamps and int(lo <= g[3] <= hi)
                if m is None:
                    continue
                i = int(m.split("-")[2]) if m.startswith(tag) else 0
                if i == 0:
                    stray += 1
                    continue
                stamps = stamps and int(windows[i][0] <= g[3] <= windows[i][1])
                if wide == 1 or m not in seen:   # of several files, only the first to fail may report its error once more
                    got.append(i)
                seen.add(m)
            return {"got": got, "any": int(len(h.got) > 0), "stray": stray, "late": len(h.got) - k, "stamps": stamps, "names": names, "levels": levels,
                    "early": len(got) if early == k else -1}

        rec.call("session", {"ops": n, "level": level, "full": int(room > 1000 and limit is None), "bad": bad, "wait": wait, "limit": int(limit is not None),
                             "interval": interval, "wide": wide}, run, encode)
        lg.removeHandler(h)
        if bad:
            lg.removeFilter(f)
            sys.unraisablehook = hold

    def crowd():
        T, n = 3, rng.randint(3, 12)
        serial[0] += 1
        tag = "%d-%d-" % (shard, serial[0])
        h = Sink()
        lg.setLevel(40)
        lg.addHandler(h)

        def run():
            rc.EnableLogging(5000, 50, 100000, None)
            touch(rc, [tag + "0-0"])
            rc.DisableLogging(-1)
            per = len([g for g in h.got if mark_of(g[2])])
            stop = []

            def work(t):
                for i in range(1, n + 1):
                    touch(rc, [tag + "%d-%d" % (t, i)])
                    time.sleep(0)

            def toggle():
                while not stop:
                    rc.EnableLogging(rng.choice([1, 5000]), 2, 100000, None)
                    time.sleep(0.0003)
                    rc.DisableLogging(-1)
            ts = [threading.Thread(target=work, args=(t,)) for t in range(1, T + 1)]
            cs = [threading.Thread(target=toggle) for _ in range(2)]
            for t in ts + cs:
                t.start()
            for t in ts:
                t.join()
            stop.append(1)
            for t in cs:
                t.join()
            rc.DisableLogging(-1)
            k = len(h.got)
            time.sleep(0.005)
            late = len(h.got) - k
            rc.EnableLogging(5000, 50, 100000, None)
            touch(rc, [tag + "%d-1" % (T + 1)])
            rc.DisableLogging(-1)
            return per, late

        def encode(x):
            per, late = x
            a["per"] = per
            got = [[] for _ in range(T + 2)]
            for g in h.got:
                m = mark_of(g[2])
                if m:
                    _, _, t, i = m.split("-")
                    got[int(t)].append(int(i))
            return {"got": got[1:T + 1], "after": len(got[T + 1]), "late": late}
        a = {"ops": n, "per": 0}
        rec.call("crowd", a, run, encode)
        lg.removeHandler(h)

    def refs():
        import gc
        import weakref
        h = Sink()
        lg.setLevel(10)
        lg.addHandler(h)

        def run():
            rc.EnableLogging(1000, 50, 100000, None)
            for i in range(30):
                touch(rc, ["r"])
            rc.DisableLogging(-1)
            h.got.clear()
            gc.collect()
            b = sys.getallocatedblocks()
            n = 100
            rc.EnableLogging(1000, 50, 100000, None)
            for i in range(n):
                touch(rc, ["r"])
            rc.DisableLogging(-1)
            m = len(h.got)
            h.got.clear()
            gc.collect()
            grown = (sys.getallocatedblocks() - b) / max(1, m)

            def cb(x):
                pass
            w = weakref.ref(cb)
            rc.EnableLogging(1000, 50, 100000, cb)
            del cb
            gc.collect()
            held = int(w() is not None)
            rc.DisableLogging(-1)
            rc.EnableLogging(1000, 50, 100000, None)
            rc.DisableLogging(-1)
            gc.collect()
            return {"held": held, "freed": int(w() is None), "grown": int(grown > 0.5)}
        rec.call("refs", {}, run, lambda r: r)
        lg.removeHandler(h)

    def leave():
        n = rng.choice([0, 1, 20, 200])
        code, how = rng.choice([(0, ""), (3, "sys.exit(3)"), (1, "raise RuntimeError()"), (0, "rc.DisableLogging(-1)")])
        interval, batch = rng.choice([1, 20, 100000]), rng.choice([1, 50])
        path = rec.out + ".exit"

        def once(k, how):
            if os.path.exists(path):
                os.unlink(path)
            p = subprocess.run([sys.executable, "-c", EXIT % (sys.path, path, interval, batch, k, how)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=60)
            got = os.path.getsize(path) if os.path.exists(path) else 0
            return p.returncode, got

        def run():
            c, got = once(n, how)
            _, one = once(1, "rc.DisableLogging(-1)")
            return {"code": c, "got": got, "want": one * n}
        rec.call("exit", {"code": code, "how": how, "n": n, "interval": interval, "batch": batch}, run, lambda r: r)

    def service():
        n = RUNS[tier]
        out = rec.out + ".svc"
        at, end = shard * n, shard * n + n
        stuck = 0
        while at < end and stuck < 4:
            rec.pend("run", {"at": at})
            p = subprocess.run([os.environ["LOGSVC"], out, str(rec.seed), str(at), str(end - at)], capture_output=True, text=True)
            with open(out) as f:
                lines = f.read().split("\n")
            os.unlink(out)
            k = 0
            for x in lines[1:]:
                if x.endswith("]}}"):
                    rec.f.write(x + "\n")
                    rec.n += 1
                    k += 1
            rec.f.flush()
            at += k
            if p.returncode:
                stuck += 1
                if p.returncode != 3:
                    rec.emit("run", {"i": at, "seed": rec.seed}, {"rc": p.returncode, "err": p.stderr[-300:]}, "crash")
                    at += 1

    service()
    for interval, batch in ((0, 50), (-1, 50), (100, 0), (10, 1)):
        def ask():
            rc.EnableLogging(interval, batch, 100, None)
            rc.DisableLogging(-1)
        rec.call("enable", {"interval": interval, "batch": batch}, ask, lambda r: 1)
    for _ in range(25 if quick else 400):
        session()
    refs()
    for _ in range(4 if quick else 60):
        crowd()
    for _ in range(3 if quick else 30):
        leave()
