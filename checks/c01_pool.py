PID = "C01"
TECHNIQUE = "TLA+ specification of the thread pool: TLC explores every interleaving of the step-level protocol, its behaviours steer the real pool under a deterministic scheduler, and TLC validates the recorded runs"
LEVEL_NOTE = ("PoolMC.tla interleaves every shared access of the protocol (hand-over, wake-up, block taking, completion, join, interrupt) and checks safety and termination. The real "
              "CMathWorker is compiled with access instrumentation so that a scheduler chooses the next thread at every shared access: random, preemption-bounded, "
              "priority and specification-guided schedules. TLC validates every recorded run. Trusts TLC, the scheduler and sequentially consistent memory.")
TRACE = "PoolTrace"
NEEDS_MODULE = False
MODELS = [{"spec": "PoolMC", "workers": 2, "thorough_cfg": "PoolMC_thorough.cfg", "heap": "6g"}, {"spec": "PoolMC", "cfg": "PoolMC_int.cfg", "workers": 1}]
ASSUMPTIONS = ["memory is sequentially consistent (schedules are interleavings of single accesses)", "work is submitted by one thread at a time, as under the interpreter lock",
               "at most 4 processors and 8 threads per run"]
SHARDS = 6
THOROUGH_SHARDS = 8
DRIVE_TIMEOUT = 120
ENV = {}
RUNS = {"quick": 2500, "thorough": 20000}


def prepare(run):
    import build
    import mbv
    import re
    h = build.ROOT + "/harness/"
    wraps = ["-Wl,--wrap=" + x for x in ("syscall", "pthread_create", "sched_getaffinity", "usleep", "sched_yield")]
    ENV["POOL"] = build.build_program("pool", [h + "pool.cpp"], ["MathThreads.cpp", "MathWorker.cpp", "interrupt.cpp"],
                                      build.PYINC + ["-O1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"], wraps, plain=[h + "sched.cpp", h + "schedwrap.cpp"])
    r = mbv.run_tlc("PoolSim", "PoolSim.cfg", workers=1, timeout=300,
                    extra=["-simulate", "num=%d" % (60 if run.tier == "quick" else 1000), "-depth", "400", "-seed", str(run.seed)])
    gs = re.findall(r'<<\s*"ORDER",\s*<<([\d,\s]*)>>', r.out)
    if len(gs) < 10:
        raise mbv.CheckError("no behaviours from PoolSim:\n" + r.out[-1500:])
    with open(run.dir + "/guides", "w") as f:
        for g in gs:
            f.write(" ".join(x.strip() for x in g.split(",")) + "\n")
    ENV["GUIDES"] = run.dir + "/guides"


def drive(rec, shard, nshards, tier):
    import os
    import subprocess
    n = RUNS[tier]
    out = rec.out + ".pool"
    cmd = [os.environ["POOL"], out, str(rec.seed), str(shard * n), str(n)]
    if shard % 2:
        cmd.append(os.environ["GUIDES"])
    rec.pend("pool", {"shard": shard})
    p = subprocess.run(cmd, capture_output=True, text=True)
    with open(out) as f:
        lines = f.read().split("\n")
    os.unlink(out)
    for x in lines[:-1]:
        rec.f.write(x + "\n")
        rec.n += 1
    rec.f.flush()
    if p.returncode:
        rec.emit("run", {"shard": shard, "cpus": 0}, {"ev": [], "rc": p.returncode, "err": p.stderr[-500:]}, "crash")
