#!/usr/bin/env python3
"""one.py PROPERTY HARNESS [PARAMS-JSON] [profile]: run one harness in this process (for development)."""
import json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.argv[0] = os.path.abspath(__file__)
import check
if os.environ.get("SX_CHILD") != "1":
    os.execve(check.VENV, [check.VENV, "-W", "ignore"] + sys.argv, dict(os.environ, **check.ENV))
sys.setrecursionlimit(5000)
from sx import loader
pid, name = sys.argv[1].upper(), sys.argv[2]
params = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
ntm = loader.load_symbolic()
_, hs = check.load_property(pid)
h = [x for x in hs if x.name == name][0]
run = lambda: check.work(h, params, ntm, float(os.environ.get("BUDGET", "60")), None, 1, 3, loader.REPO)
if "profile" in sys.argv:
    import cProfile, pstats
    p = cProfile.Profile()
    res = p.runcall(run)
    pstats.Stats(p).sort_stats("tottime").print_stats(25)
else:
    res = run()
res.pop("lines"), res.pop("samples")
print({k: v for k, v in res.items() if k != "functions"})
