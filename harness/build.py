"""Builds the riptide_cpp extension module (and the C++ harness programs) from /repo's working tree.

Objects are kept in /verif/.cache/obj under the hash of (compiler flags, preprocessed translation unit), so an object is
reused exactly when the tokens the compiler would see are the same ones it saw before.  Nothing is written in /repo.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = ROOT + "/.cache"
OBJ = CACHE + "/obj"
RAW = CACHE + "/raw"
VENV = "/opt/vp/venv"
CXX = "/usr/bin/g++"
COMMON = ["-isystem", "/opt/vp/compat", "-DNDEBUG", "-std=c++20", "-fPIC", "-mavx2", "-mbmi2", "-fpermissive", "-pthread",
          "-fno-strict-aliasing", "-w", "-x", "c++"]
PYINC = ["-DBUILDING_RIPTIDE_CPP", "-Driptide_cpp_EXPORTS", "-I" + VENV + "/lib/python3.12/site-packages/numpy/core/include",
         "-isystem", "/usr/include/python3.12", "-isystem", VENV + "/include"]
# The three template-heavy units are built without optimisation to keep a rebuild near half a minute.
HEAVY = {"HashLinear.cpp", "GroupBy.cpp", "Ema.cpp"}
SONAME = "riptide_cpp.cpython-312-x86_64-linux-gnu.so"


def sources():
    """The translation units the project's own CMakeLists.txt lists (so that an added file is picked up)."""
    out, on = [], False
    with open(SRC + "/CMakeLists.txt") as f:
        for line in f:
            t = line.strip()
            if t.startswith("set(SOURCES"):
                on = True
                continue
            if on:
                name = t.rstrip(")")
                if name:
                    out.append(name)
                if t.endswith(")"):
                    break
    return [s for s in out if s.endswith(".cpp")]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def headers_hash(extra=()):
    fs = sorted(glob.glob(SRC + "/**/*.h", recursive=True)) + sorted(extra)
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def write_atomic(path, data):
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def compile_one(path, flags, hh):
    """Returns the object file of one translation unit, compiling it when no equal one was compiled before."""
    with open(path, "rb") as f:
        raw = sha(" ".join(flags), path, f.read(), hh)
    rawf = RAW + "/" + raw
    if os.path.exists(rawf):
        with open(rawf) as f:
            obj = f.read().strip()
        if os.path.exists(obj):
            return obj, "raw"
    pre = subprocess.run([CXX] + flags + ["-E", "-P", path], capture_output=True)
    if pre.returncode:
        raise BuildError(path, pre.stderr.decode(errors="replace"))
    obj = OBJ + "/" + sha(" ".join(flags), os.path.basename(path), pre.stdout) + ".o"
    how = "pre"
    if not os.path.exists(obj):
        tmp = "%s.%d.o" % (obj, os.getpid())
        r = subprocess.run([CXX] + flags + ["-c", path, "-o", tmp], capture_output=True)
        if r.returncode:
            raise BuildError(path, r.stderr.decode(errors="replace"))
        os.replace(tmp, obj)
        how = "compiled"
    write_atomic(rawf, obj.encode())
    return obj, how


class BuildError(Exception):
    pass


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(CACHE + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_module(verbose=False):
    """Builds (or finds) the extension module for the current tree; returns the directory to put on sys.path."""
    t0 = time.time()
    with Lock():
        os.makedirs(OBJ, exist_ok=True)
        os.makedirs(RAW, exist_ok=True)
        hh = headers_hash()
        todo = sources()
        todo.sort(key=lambda s: (s not in HEAVY, -os.path.getsize(SRC + "/" + s)))

        def one(s):
            flags = COMMON + ["-O0" if s in HEAVY else "-O1"] + PYINC
            t = time.time()
            o, how = compile_one(SRC + "/" + s, flags, hh)
            return s, o, how, time.time() - t

        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, todo))
        objs = [o for _, o, _, _ in sorted(res)]
        key = sha(*objs)[:24]
        d = CACHE + "/mod/" + key
        so = d + "/" + SONAME
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            tmp = so + ".%d" % os.getpid()
            r = subprocess.run([CXX, "-fPIC", "-shared", "-Wl,-soname," + SONAME, "-o", tmp] + objs +
                               ["-Wl,-rpath," + VENV + "/lib", "-lpython3.12", "-lzstd", VENV + "/lib/libtbb.so",
                                VENV + "/lib/libtbbmalloc.so", "-lrt", "-pthread"], capture_output=True)
            if r.returncode:
                raise BuildError("link", r.stderr.decode(errors="replace"))
            os.replace(tmp, so)
    n = sum(1 for _, _, how, _ in res if how == "compiled")
    if verbose:
        print("module: %d units, %d compiled, %.1f s -> %s" % (len(res), n, time.time() - t0, d))
    return d


def build_program(name, cpps, repo_cpps, flags, libs=(), plain=()):
    """Builds a stand-alone harness program from /verif/harness sources and chosen /repo sources.  The sources in
    `plain` are compiled without `flags`."""
    with Lock():
        os.makedirs(OBJ, exist_ok=True)
        os.makedirs(RAW, exist_ok=True)
        hh = headers_hash([c for c in cpps] + list(plain))
        fl = COMMON + flags + ["-I" + SRC]
        jobs = [(c, fl) for c in list(cpps) + [SRC + "/" + c for c in repo_cpps]] + [(c, COMMON + ["-O2"]) for c in plain]
        with cf.ThreadPoolExecutor(8) as ex:
            objs = [o for o, _ in ex.map(lambda p: compile_one(p[0], p[1], hh), jobs)]
        d = CACHE + "/prog/" + sha(name, " ".join(libs), *objs)[:24]
        exe = d + "/" + name
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            r = subprocess.run([CXX, "-o", exe + ".tmp"] + objs + ["-pthread"] + list(libs), capture_output=True)
            if r.returncode:
                raise BuildError("link " + name, r.stderr.decode(errors="replace"))
            os.replace(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    print(build_module(True))
