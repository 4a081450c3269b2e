"""Check C33: the options given at start are the ones the scheduler and the workers go by, however they are started."""
import random
import sys
import threading

from . import scheduler, tlc, worker
from .core import VERIF, Run

sys.path.insert(0, VERIF)
from sim import gen_deploy  # noqa: E402

SCHED = dict(limit=2, admission=2, loss=3, balance=4, functions=3, mixed=1)
WORK = dict(heartbeat=4, cache=4, mixed=1, functions=1)


def check(prop, tier, seed):
    run = Run(prop, "model_checking", tier, seed)
    rng = random.Random(f"{prop}/{seed}/{tier}")
    n = (500, 450) if tier == "quick" else (25000, 25000)
    failure = []

    def spec_side():
        try:
            for m in ["tasks", "functions"]:
                run.model(m, "MCScheduler", scheduler.model_cfg(m, tier), workers=3 if tier == "quick" else 8)
            name, mod, cfg = worker.model("run", tier)
            run.model("worker " + name, mod, cfg, workers=3 if tier == "quick" else 8)
        except Exception as e:
            failure.append(e)

    th = threading.Thread(target=spec_side)
    th.start()

    def lot(gen, profiles, k):
        bag = [p for p, j in profiles.items() for _ in range(j)]
        return [gen(rng, bag[i % len(bag)]) for i in range(k)]

    every = lambda c: True  # noqa
    a = run.judge("deploysched", "TraceScheduler", lot(gen_deploy.sched, SCHED, n[0]), every)
    b = run.judge("deployworker", "TraceWorker", lot(gen_deploy.worker, WORK, n[1]), every)
    run.notes["executions of schedulers and workers"] = list(n)
    th.join()
    if failure:
        raise failure[0]
    run.samples = [{"first events": t["ev"][:6], "cfg": t["cfg"]} for t in (a[-1], b[-1])]
    run.assumptions = ["processes are captured where they would be started and run by the harnesses of scheduler and worker",
                       "scheduler options are whole seconds: its time is stretched tenfold, with the fixed intervals of the "
                       "configuration"]
    return run.finish()
