PID = "C03"
TECHNIQUE = "TLA+ specification of reachable memory and the cache of dead arrays; TLC explores the cache design and validates recorded histories of creation, views, deletion, reuse and cache settings"
LEVEL_NOTE = ("RecyclerMC.tla explores every history of a small cache design (references, finaliser, buckets, eviction, reuse, collection); recorded histories of the real "
              "cache, with the address, type and content of everything reachable after every step, are validated step by step. Trusts TLC and the reading of addresses.")
TRACE = "RecyclerTrace"
STATEFUL = True
MODELS = [{"spec": "RecyclerMC", "workers": 2, "thorough_cfg": "RecyclerMC_thorough.cfg"}]
ASSUMPTIONS = ["arrays reached through weak references after they died are not counted as reachable", "the cache's clock does not pass its 60-second automatic collection inside a history"]
import gc
import weakref
import numpy as np

TYPES = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "g"]
LENS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 100]
ODDKINDS = ["swapped", "2d", "f2d", "0d", "ro", "complex", "str", "date", "base", "nonfa"]


class FA(np.ndarray):
    _name = None


def mem(a):
    lo, hi = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, "array_utils") else np.byte_bounds(a)
    if a.size == 0:
        hi = lo
    return {"h": lo >> 24, "l": lo & 0xffffff, "n": hi - lo}


def value(x):
    """The one value an array is filled with, or -1."""
    a = np.asarray(x)
    if a.dtype.kind == "M":
        a = a.view("i8")
    if a.size == 0:
        return 0
    if a.dtype.kind in "SU":
        s = set(a.ravel().tolist())
        return int(s.pop()) if len(s) == 1 else -1
    f = a.ravel()[0]
    if not (a == f).all():
        return -1
    f = f.item()
    f = f.real if isinstance(f, complex) else f
    return int(f) if f == int(f) and abs(f) < 1e9 else -1


class World:
    def __init__(self, rec, rc):
        self.rec, self.rc, self.rng = rec, rc, rec.rng
        self.h, self.root, self.meta, self.next, self.dropped = {}, {}, {}, 1, []

    def see(self):
        return [[i, value(x)] for i, x in sorted(self.h.items())]

    def emit(self, op, a, r, st="ok"):
        # the event also carries what every reachable handle shows
        import json
        self.rec.f.write(json.dumps({"op": op, "st": st, "a": a, "r": r, "see": self.see()}, separators=(",", ":")) + "\n")
        self.rec.f.flush()
        self.rec.n += 1

    def new(self):
        self.next += 1
        return self.next - 1

    def desc(self, a, fa=True):
        t = a.dtype.str.lstrip("|<=")
        good = a.flags.writeable and a.flags.aligned and a.flags.c_contiguous and a.flags.f_contiguous and a.ndim == 1 and a.strides == (a.itemsize,) if fa else True
        good = good and (type(a) is FA if fa else True)
        left = {k: v for k, v in getattr(a, "__dict__", {}).items() if v is not None}
        return {"t": t, "n": int(a.size), "good": int(good), "attrs": len(left), "m": mem(a)}

    def keep(self, i, a, root=None):
        self.h[i] = a
        self.root[i] = root or i


def drive(rec, shard, nshards, tier):
    import riptide_cpp as rc
    rc.SetFastArrayType(FA((1,)), None)
    rng = rec.rng
    gc.disable()
    for h in range(14 if tier == "quick" else 150):
        rec.emit("begin", {}, {})
        rc.SetRecycleMode(0)
        rc.RecycleSetGarbageCollectTimeout(100000)
        gc.collect()
        rc.RecycleGarbageCollectNow(-1)
        w = World(rec, rc)
        hits0 = rc.RecycleGarbageCollectNow(100000)["Hits"]
        types = rng.sample(TYPES, rng.choice([1, 2, 3]))
        lens = rng.sample(LENS, rng.choice([1, 2, 3]))
        if rng.random() < 0.1:
            lens = [rng.choice([40000, 33000])] + lens[:1]
        style = rng.random()
        for step in range(rng.choice([30, 60, 90])):
            one(w, rc, rng, types, lens, style, hits0)
        for i in list(w.h):
            drop(w, i)
        collect(w, rc, True, hits0)
        w.h.clear()


def drop(w, i):
    x = w.h.pop(i)
    ref = weakref.ref(x) if isinstance(x, np.ndarray) else None
    sole = not any(w.root[j] == w.root[i] for j in w.h)
    if sole and w.rng.random() < 0.15 and type(x) is FA:
        x.me = x            # only the cycle collector can end it
        del x
        gc.collect()
    else:
        del x
    dead = 1 if ref is None else int(ref() is None)
    if ref is not None:
        w.dropped.append((ref, w.root[i]))
    w.emit("drop", {"id": i}, {"dead": dead})


def collect(w, rc, everything, hits0):
    gc.collect()
    d = rc.RecycleGarbageCollectNow(-1 if everything else 100000)
    live = {id(x) for x in w.h.values()}
    roots = {w.root[i] for i in w.h}
    z = 0
    for ref, root in w.dropped:
        o = ref()
        if o is not None and id(o) not in live and root not in roots:
            # an array that is kept alive by a view of its memory is not the cache's
            z += not any(np.shares_memory(np.asarray(x), o) for x in w.h.values())
        del o
    w.emit("collect", {"all": int(everything)}, {"held": d["Heads"] - d["Tails"], "gone": d["TotalDeleted"], "hits": d["Hits"] - hits0, "zombies": z})
    if everything:
        w.dropped = []


def one(w, rc, rng, types, lens, style, hits0):
    ids = list(w.h)
    fas = [i for i in ids if type(w.h[i]) is FA and w.h[i].ndim == 1 and w.h[i].dtype.isnative and w.h[i].dtype.char in "".join(np.dtype(t).char for t in TYPES)]
    p = rng.random()
    v = rng.randint(1, 9)
    if len(ids) > 12:
        p = 0.55
    if p < 0.12:                                   # an array made by numpy
        t, n, i = rng.choice(types), rng.choice(lens), w.new()
        kind = rng.choice(ODDKINDS) if rng.random() < 0.35 else "plain"
        v = 1 if t == "?" else v
        if kind == "plain":
            a = FA((n,), t)
        elif kind == "swapped":
            t = rng.choice(["i2", "i4", "i8", "f8"])
            a = FA((n,), ">" + t)
        elif kind in ("2d", "f2d"):
            a = FA((n, 1 if rng.random() < 0.5 else 2), t, order="F" if kind == "f2d" else "C")
        elif kind == "0d":
            a = FA((), t)
        elif kind == "complex":
            a = FA((n,), "c16")
        elif kind == "str":
            a = FA((n,), "U1")
        elif kind == "date":
            a = FA((n,), "M8[ns]")
        elif kind == "base":
            a = np.empty(n, t).view(FA)
        elif kind == "nonfa":
            a = np.empty(n, t)
        else:
            a = FA((n,), t)
        a.fill(str(v)) if kind == "str" else a.view("i8").fill(v) if kind == "date" else a.fill(v)
        if kind == "ro":
            a.setflags(write=False)
        if type(a) is FA and rng.random() < 0.5:
            a._name = "n%d" % i
            if rng.random() < 0.3:
                a.note = i
        w.keep(i, a)
        d = w.desc(a, False)
        d["attrs"] = 0
        elig = kind == "plain"
        w.emit("make", {"id": i, "v": v, "t": d["t"], "n": d["n"], "elig": int(elig)}, d)
    elif p < 0.30:                                 # an array made by the library
        t, n, i = rng.choice(types), rng.choice(lens), w.new()
        v = 1 if t == "?" else v
        num = np.dtype(t).num
        how = rng.choice(["like", "like", "empty", "try", "like2"])
        proto = np.empty(n, "i1")
        a = {"id": i, "v": v, "t": np.dtype(t).str.lstrip("|<"), "n": n, "may": int(how == "try"), "how": how}
        w.rec.pend("alloc", a)
        if how == "like":
            x = rc.AllocateNumpy(proto, num)
        elif how == "like2":
            x = rc.AllocateNumpy(proto.reshape(n, 1)[:, 0], num)
        elif how == "empty":
            x = rc.Empty([n], num, 0, rng.random() < 0.3)
        else:
            x = rc.TryRecycleNumpy(num, [np.empty(n + 1, "i1"), proto.reshape(1, n), proto])
            if x is not None and x.size != n:
                a["n"] = n + 1
        if x is None:
            w.emit("alloc", a, {"none": 1})
            return
        d = w.desc(x)
        d["none"] = 0
        x.fill(v)
        if rng.random() < 0.4:
            x._name = "a%d" % i
            if rng.random() < 0.3:
                x.note = "a%d" % i
        w.keep(i, x)
        w.emit("alloc", a, d)
    elif p < 0.44 and fas:                         # results the library allocates
        i, j = w.new(), rng.choice(fas)
        x, vx = w.h[j], value(w.h[j])
        same = [k for k in fas if w.h[k].dtype == x.dtype and w.h[k].size == x.size]
        how = rng.choice(["add", "add", "take", "stack", "equal"])
        if x.dtype.char == "g" and how != "add":
            return
        w.rec.pend("compute", {"id": i, "how": how})
        if how == "add" and x.dtype.char != "?":
            k = rng.choice(same)
            val = vx + value(w.h[k])
            if val > 100:
                return
            y = rc.BasicMathTwoInputs((x, w.h[k]), 1, 0)
            if y is None:
                return
            t, n = y.dtype, x.size
        elif how == "take":
            n = rng.choice(lens)
            y = rc.MBGet(x, np.zeros(n, rng.choice(["i4", "i8"])))
            val, t = vx, x.dtype
        elif how == "stack":
            k = rng.choice([q for q in same if value(w.h[q]) == vx])
            y = rc.HStack([x, w.h[k]])
            val, t, n = vx, x.dtype, 2 * x.size
        else:
            k = rng.choice(same)
            y = rc.BasicMathTwoInputs((x, w.h[k]), 401, 0)
            if y is None:
                return
            val, t, n = int(vx == value(w.h[k])), y.dtype, x.size
        d = w.desc(y)
        d["v"] = value(y)
        w.keep(i, y)
        w.emit("compute", {"id": i, "how": how, "t": t.str.lstrip("|<"), "n": n, "v": val}, d)
    elif p < 0.52 and ids:                         # another way to reach the same memory
        i, j = w.new(), rng.choice(ids)
        x = w.h[j]
        how = rng.choice(["all", "part", "nd", "buf", "same"]) if isinstance(x, np.ndarray) else "same"
        if how == "part" and x.ndim == 1 and x.size > 1:
            y = x[rng.randint(0, 1):][::rng.choice([1, 1, 2, -1])]
        elif how == "nd":
            y = x.view(np.ndarray)
        elif how == "buf" and x.dtype.kind not in "M" and x.dtype.char != "g" and x.dtype.isnative and x.flags.c_contiguous:
            y = memoryview(x)
        elif how == "same":
            y = x
        else:
            y = x[...]
        w.keep(i, y, w.root[j])
        w.emit("view", {"id": i, "of": j, "how": how}, {"m": mem(np.asarray(y))})
    elif p < 0.75 and ids:
        if style < 0.3 and rng.random() < 0.5:
            ids = [i for i in ids if type(w.h[i]) is FA] or ids
        drop(w, rng.choice(ids))
    elif p < 0.83 and ids:
        i = rng.choice(ids)
        x = w.h[i]
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind not in "SUM" and x.base is None:
            v = 1 - value(x) if x.dtype.char == "?" else v
            x.fill(v)
            w.emit("fill", {"id": i, "v": v}, 0)
    elif p < 0.88 and fas:
        i = rng.choice(fas)
        w.rec.pend("request", {"id": i})
        w.emit("request", {"id": i}, int(rc.RecycleNumpy(w.h[i])))
    elif p < 0.91 and style > 0.5:
        on = rng.random() < 0.6
        w.emit("switch", {"on": int(on)}, int(rc.SetRecycleMode(0 if on else 1)))
    elif p < 0.94 and style > 0.7:
        n = rng.choice([100000, 100000, 0, 50000])
        w.emit("age", {"n": n}, rc.RecycleSetGarbageCollectTimeout(n))
    elif p < 0.99:
        collect(w, rc, rng.random() < 0.5, hits0)
