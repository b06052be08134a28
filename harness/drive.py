"""Driver process: imports the freshly built module and a check, and records one shard of that check's trace."""
import faulthandler
import importlib.util
import os
import sys

modpath, moddir, out, shard, nshards, seed, tier = sys.argv[1:8]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(modpath))
if moddir != "-":
    sys.path.insert(0, moddir)
faulthandler.enable()
# Some shards run on one or two processors only: then a thread of the pool serves several blocks of one piece of work, and
# threads are taken off their processor in the middle of theirs.
few = {1: 2, 3: 1, 6: 1}.get(int(shard) % 8)
if few:
    have = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {have[(int(shard) + i) % len(have)] for i in range(few)})
import numpy as np  # noqa: E402
import random  # noqa: E402
from recorder import Recorder  # noqa: E402

spec = importlib.util.spec_from_file_location("chk", modpath)
chk = importlib.util.module_from_spec(spec)
spec.loader.exec_module(chk)
rec = Recorder(out)
rec.rng = random.Random("%s/%s/%s" % (chk.PID, seed, shard))
rec.np = np.random.RandomState((int(seed) * 1009 + int(shard) * 97 + sum(map(ord, chk.PID))) % (2 ** 31))
rec.tier = tier
rec.seed = int(seed)
rec.out = out
chk.drive(rec, int(shard), int(nshards), tier)
rec.close()
sys.stdout.flush()
os._exit(0)
