#!/usr/bin/env python3
"""one mutant (the tree seen as /repo): executes random schedules of a component and prints the rules broken"""
import collections
import importlib
import json
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import tlc  # noqa: E402
from vlib.core import Run  # noqa: E402

comp = sys.argv[1]
GEN = dict(sched="gen_sched", worker="gen_worker", client="gen_client", system="gen_system", display="gen_display")
MOD = dict(sched="TraceScheduler", worker="TraceWorker", client="TraceClient", system="TraceSystem", display="TraceDisplay")
gen = importlib.import_module("sim." + GEN[comp])
profs = list(getattr(gen, "PROFILES", ["plain", "small"]))
run = Run("M00", "x", "quick", 1)
rng = random.Random(5)
res = {"killed": False, "n": 0}
try:
    for n in ((60, 300) if comp != "system" else (40, 120)):
        sch = [gen.schedule(rng, profs[i % len(profs)]) for i in range(n)]
        try:
            tr = run.execute(comp, sch, jobs=1, timeout=400)
        except tlc.MachineryError as e:
            res.update(killed=True, rules={"HARNESS": 1}, msg=str(e)[-300:])
            break
        p = os.path.join(run.work, "t.ndjson")
        with open(p, "w") as f:
            for t in tr:
                f.write(json.dumps(t) + "\n")
        acc, rej, _ = tlc.validate(MOD[comp], p, n, workers=1)
        res["n"] += n
        if rej:
            c = collections.Counter(x for _, cl in rej.values() for x in cl)
            res.update(killed=True, rules=dict(c), rejected=len(rej))
            break
except Exception as e:
    res["error"] = repr(e)[:300]
finally:
    import shutil
    shutil.rmtree(run.work, ignore_errors=True)
print(json.dumps(res))
