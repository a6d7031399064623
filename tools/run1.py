"""run one generated run in this process (for gdb): run1.py PROP IDX [SEED]"""
import sys, os, random, json, mmap
sys.path.insert(0, '/verif/sim')
import build as B, core
bdir = B.build()
sys.path.insert(0, core.REPO); sys.path.insert(0, bdir); sys.path.insert(0, core.HERE)
import simlock; simlock.install()
import _graphillion, graphillion
from simapi import Sim
import workloads
prop, idx = sys.argv[1], int(sys.argv[2]); vs = int(sys.argv[3]) if len(sys.argv) > 3 else 1
sim = Sim(_graphillion.__file__)
wl = workloads.get(prop)
if os.path.exists(sys.argv[-1]):
    trace = json.load(open(sys.argv[-1]))['trace']
else:
    seed = core.H(vs, prop, idx)
    trace = wl.gen(random.Random(seed), os.environ.get('VERIF_TIER', 'quick'), idx); trace['seed'] = seed
shm = mmap.mmap(-1, 4096)
random.seed(trace['seed']); sys.setrecursionlimit(3000)
ctx = core.Ctx(sim, shm)
core.apply_cfg(sim, trace)
wl.run(trace, ctx)
print('ok', ctx.stats)
