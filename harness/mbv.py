"""Runs one check: builds /repo, model checks the check's TLA+ models, drives the real code, validates the recorded traces
against the specification with TLC, and reports."""
import concurrent.futures as cf
import glob
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/vp/venv/bin/python3"
SPECS = ROOT + "/specs"


class CheckError(Exception):
    """The machinery failed: neither a pass nor a violation."""


class Tlc:
    """Result of one TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.rejects = [int(x) for x in re.findall(r'<<"REJECT", (\d+)', out)]
        self.finished = "Model checking completed. No error has been found" in out or "Finished in" in out


def run_tlc(spec, cfg, env=None, workers=1, heap="2g", timeout=600, extra=(), meta=None, depthfirst=False):
    meta = meta or (build.CACHE + "/run/tlc-%d-%d" % (os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
           "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 or timeout > 300 else 4)]
    if depthfirst:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    cmd += list(extra) + [spec]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        t = Tlc(r.returncode, r.stdout + r.stderr)
    except subprocess.TimeoutExpired as x:
        t = Tlc(-1, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT")
    shutil.rmtree(meta, ignore_errors=True)
    return t


def load(pid):
    fs = sorted(glob.glob(ROOT + "/checks/%s_*.py" % pid.lower()))
    if len(fs) != 1:
        raise CheckError("no single check file for " + pid)
    spec = importlib.util.spec_from_file_location("chk", fs[0])
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, ROOT + "/checks")
    spec.loader.exec_module(m)
    m.PATH = fs[0]
    return m


class Run:
    def __init__(self, chk, tier, seed):
        self.chk, self.tier, self.seed = chk, tier, seed
        self.pid = chk.PID
        self.dir = build.CACHE + "/run/%s-%d" % (self.pid, os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations, self.known_hits = [], []
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.opcount = [], [], {}
        self.moddir = "-"
        self.known = []
        kf = ROOT + "/known_findings.json"
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)) if k.get("property") == self.pid and k.get("status") == "known"]

    # -- model checking of the design-level specifications
    def model(self, m):
        name, cfg = m["spec"], m.get("cfg", m["spec"] + ".cfg")
        if self.tier == "thorough" and m.get("thorough_cfg"):
            cfg = m["thorough_cfg"]
        t = time.time()
        r = run_tlc(name, cfg, env=m.get("env"), workers=m.get("workers", 2), heap=m.get("heap", "3g"),
                    timeout=m.get("timeout", 600 if self.tier == "quick" else 3600), extra=m.get("extra", ()))
        if r.rc != 0 or not r.finished:
            raise CheckError("model %s/%s failed (rc %d):\n%s" % (name, cfg, r.rc, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"spec": name, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                            "wall_s": round(time.time() - t, 1)})
        return r

    # -- driving the code under test
    def drive_once(self, shard, nshards, tag):
        out = "%s/%s%d" % (self.dir, tag, shard)
        cwd = out + ".cwd"
        os.makedirs(cwd, exist_ok=True)
        env = dict(os.environ)
        env["TMPDIR"] = cwd
        env["PYTHONHASHSEED"] = "0"
        env["OMP_NUM_THREADS"] = "1"
        env["VERIF_CWD"] = cwd
        env.update(getattr(self.chk, "ENV", {}))
        timeout = getattr(self.chk, "DRIVE_TIMEOUT", 300) * (1 if self.tier == "quick" else 12)
        with open(out + ".log", "w") as log:
            p = subprocess.Popen([PY, HERE + "/drive.py", self.chk.PATH, self.moddir, out, str(shard), str(nshards),
                                  str(self.seed), self.tier], stdout=log, stderr=log, cwd=cwd, env=env,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "hang"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        pend = ""
        if os.path.exists(out + ".pending"):
            with open(out + ".pending") as f:
                pend = f.read()
        with open(out + ".log", errors="replace") as f:
            log = f.read()
        shutil.rmtree(cwd, ignore_errors=True)
        return out, rc, pend, log

    def drive(self, shard, nshards):
        """Records a shard.  A death or stall inside a call becomes the trace's last event, once a second run repeats it."""
        out, rc, pend, log = self.drive_once(shard, nshards, "t")
        if rc == 0 and pend == "DONE":
            return out
        if rc in (1, 2) or not pend or pend == "DONE":
            raise CheckError("driver shard %d failed (rc %s)\n%s" % (shard, rc, log[-3000:]))
        tries = [(rc, pend)]
        if rc == "hang" or rc == -9:
            out2, rc2, pend2, log2 = self.drive_once(shard, nshards, "r")
            if rc2 == 0 and pend2 == "DONE":
                print("note: shard %d: %s once, not repeated; the second run is used" % (shard, rc))
                return out2
            out, rc, pend, log = out2, rc2, pend2, log2
            if rc in (1, 2) or not pend or pend == "DONE":
                raise CheckError("driver shard %d failed (rc %s)\n%s" % (shard, rc, log[-3000:]))
        e = json.loads(pend)
        with open(out + ".ndjson") as f:
            lines = f.read().split("\n")
        lines = [x for x in lines[:-1]]
        lines.append(json.dumps({"op": e["op"], "st": "hang" if rc == "hang" else "crash", "a": e["a"], "r": str(rc)}))
        with open(out + ".ndjson", "w") as f:
            f.write("\n".join(lines) + "\n")
        print("note: shard %d ended with %s inside %s\n%s" % (shard, rc, e["op"], log[-800:]))
        return out

    # -- validating traces
    def is_known(self, e):
        for k in self.known:
            m = k["match"]
            if m.get("op") != e["op"] or ("st" in m and m["st"] != e["st"]):
                continue
            if all(e["a"].get(x) == v if isinstance(e["a"], dict) else False for x, v in m.get("a", {}).items()):
                return k
        return None

    def validate(self, out):
        path = out + ".ndjson"
        with open(path) as f:
            lines = [x for x in f.read().split("\n") if x]
        if not lines:
            raise CheckError("empty trace " + path)
        evs = [json.loads(x) for x in lines]
        stateful = getattr(self.chk, "STATEFUL", False)
        if self.known and not stateful:
            keep, kl = [], []
            for e, x in zip(evs, lines):
                keep.append(e)
                kl.append(x)
            evs, lines = keep, kl
        total = len(evs)
        spec = self.chk.TRACE
        todo, rejected, first = lines, [], True
        offs = list(range(total))
        for attempt in range(6):
            r = run_tlc(spec, spec + ".cfg", env={"TRACE": path}, heap="3g",
                        timeout=900 if self.tier == "quick" else 7200)
            if first:
                self.states += r.distinct
                self.transitions += r.generated
                first = False
            for l in r.rejects:
                if 1 <= l <= len(todo) and offs[l - 1] not in rejected:
                    rejected.append(offs[l - 1])
            if r.rc == 0 and (r.distinct == len(todo) + 1 or r.rejects):
                break
            if r.rc == 0 and getattr(self.chk, "HISTORY", False):
                raise CheckError("trace spec did not consume the trace:\n" + r.out[-2000:])
            if "TIMEOUT" in r.out[-10:] or "OutOfMemory" in r.out or "StackOverflow" in r.out:
                raise CheckError("TLC did not finish on %s\n%s" % (path, r.out[-1500:]))
            # TLC could not evaluate the specification on an event: the event is malformed (the unchanged tree has none).
            ls = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)]
            if not ls or stateful:
                at = ls[-1] if ls else None
                if at is None:
                    raise CheckError("TLC failed on %s\n%s" % (path, r.out[-3000:]))
                if offs[at - 1] not in rejected:
                    rejected.append(offs[at - 1])
                print("note: TLC could not evaluate event %d: %s" % (at, tail_error(r.out)))
                break
            at = ls[-1]
            print("note: TLC could not evaluate event %d: %s" % (at, tail_error(r.out)))
            if offs[at - 1] not in rejected:
                rejected.append(offs[at - 1])
            todo, offs = todo[at:], offs[at:]
            if not todo:
                break
            path = out + ".rest.ndjson"
            with open(path, "w") as f:
                f.write("\n".join(todo) + "\n")
        self.traces += sum(1 for e in evs if e["op"] == "begin") or 1
        self.events += total
        for e in evs:
            self.opcount[e["op"]] = self.opcount.get(e["op"], 0) + 1
        if len(self.samples) < 3:
            for e in evs[1: 2] + evs[len(evs) // 2: len(evs) // 2 + 1]:
                s = json.dumps(e)
                if len(s) < 1500:
                    self.samples.append(e)
        for i in rejected:
            e = evs[i]
            k = self.is_known(e)
            if k:
                self.known_hits.append(k)
                continue
            self.violation(e, "event %d of %s is no step of %s" % (i + 1, os.path.basename(out), spec), i)

    def violation(self, event, why, idx=0):
        self.violations.append((event, why, idx))

    def report(self, t0):
        rdir = build.CACHE + "/replay"
        os.makedirs(rdir, exist_ok=True)
        level = getattr(self.chk, "LEVEL", "model_checking")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "events_by_operation": self.opcount, "models": self.models,
               "samples": self.samples or [{"models": self.models}]}
        cov.update(getattr(self, "extra_cov", {}))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": getattr(self.chk, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1),
              "violations": len(self.violations)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        tmp = ROOT + "/evidence/.%s.%d" % (self.pid, os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, ROOT + "/evidence/%s.json" % self.pid)
        seen = set()
        for k in self.known:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if not self.violations:
            print("OK property=%s: %d events in %d traces accepted, %d states (%d transitions), %.1f s" %
                  (self.pid, self.events, self.traces, self.states, self.transitions, time.time() - t0))
            return 0
        path = "%s/%s-%d.json" % (rdir, self.pid, int(time.time()))
        with open(path, "w") as f:
            json.dump([{"event": e, "why": w, "index": i, "seed": self.seed, "tier": self.tier}
                       for e, w, i in self.violations[:50]], f, indent=1)
        for e, w, i in self.violations[:8]:
            s = json.dumps(e)
            print("rejected: %s\n   %s" % (w, s if len(s) < 700 else s[:450] + " ... " + s[-240:]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1


def tail_error(out):
    i = out.find("Error:")
    return " ".join(out[i:i + 300].split()) if i >= 0 else out[-200:]


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = load(pid)
    run = Run(chk, tier, seed)
    try:
        run.moddir = build.build_module() if getattr(chk, "NEEDS_MODULE", True) else "-"
        tb = time.time() - t0
        if hasattr(chk, "prepare"):
            chk.prepare(run)
        n = getattr(chk, "SHARDS", 16) * (1 if tier == "quick" else getattr(chk, "THOROUGH_SHARDS", 4))
        with cf.ThreadPoolExecutor(getattr(chk, "PARALLEL", 8)) as ex:
            fs = [ex.submit(run.model, m) for m in getattr(chk, "MODELS", []) if tier in m.get("tiers", (tier,))]

            def both(i):
                run.validate(run.drive(i, n))
            if hasattr(chk, "TRACE"):
                fs += [ex.submit(both, i) for i in range(n)]
            if hasattr(chk, "extra"):
                fs.append(ex.submit(chk.extra, run))
            for f in fs:
                f.result()
        print("%s %s seed=%d build %.1f s total %.1f s" % (pid, tier, seed, tb, time.time() - t0))
        rc = run.report(t0)
    except (CheckError, build.BuildError) as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 1 if False else 2
        if run.violations:
            rc = run.report(t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(run.dir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
