"""Check C34: what is finished leaves nothing behind in the scheduler, the worker and the client."""
import random
import sys
import threading

from . import client, scheduler, tlc, worker
from .core import VERIF, Run

sys.path.insert(0, VERIF)
from sim import gen_soak  # noqa: E402

SCHED = dict(tasks=2, loss=2, limit=1, balance=1, admission=1, cancel=3, functions=2, graphs=3, teardown=4, junk=1, mixed=2)
CLIENT = dict(race=2, outcomes=3, graph=2, mixed=1)
WORK = dict(mixed=2, run=1, cancel=3, balance=2, functions=2, outcomes=2)


def check(prop, tier, seed):
    run = Run(prop, "model_checking", tier, seed)
    rng = random.Random(f"{prop}/{seed}/{tier}")
    n = (130, 90, 110) if tier == "quick" else (4000, 3000, 3000)
    failure = []

    def spec_side():
        try:
            for m in ["tasks", "graph", "functions"]:
                run.model(m, "MCScheduler", scheduler.model_cfg(m, tier), workers=3 if tier == "quick" else 8)
            for name, mod, cfg in [worker.model("run", tier), client.model("submit", tier)]:
                run.model(mod, mod, cfg, workers=3 if tier == "quick" else 8)
        except Exception as e:
            failure.append(e)

    th = threading.Thread(target=spec_side)
    th.start()

    def lot(gen, profiles, k):
        bag = [p for p, j in profiles.items() for _ in range(j)]
        return [gen(rng, bag[i % len(bag)]) for i in range(k)]

    def mine(rule):
        return rule.startswith("held.")

    parts = []
    for comp, module, gen, profiles, k, harmless in (
            ("soak", "TraceScheduler", gen_soak.sched, SCHED, n[0], scheduler.HARMLESS),
            ("soakclient", "TraceClient", gen_soak.client, CLIENT, n[1], client.HARMLESS),
            ("soakworker", "TraceWorker", gen_soak.worker, WORK, n[2], worker.HARMLESS)):
        parts.append(run.judge(comp, module, lot(gen, profiles, k), mine, ignored=[r for r in harmless if not mine(r)],
                               batch=400))
    th.join()
    if failure:
        raise failure[0]
    run.notes["stories"] = dict(zip(("scheduler", "client", "worker"), n))
    run.notes["rounds of each story"] = gen_soak.ROUNDS
    run.notes["measurements"] = sum(e["e"] == "held" for p in parts for t in p for e in t["ev"])
    run.samples = [{"amounts": [e["n"] for e in p[-1]["ev"] if e["e"] == "held"]} for p in parts]
    run.assumptions = ["what is held is counted in entries of the containers the running code can reach",
                       "a leak shows in most of the eight rounds of some story",
                       "the client keeps what it knows of each different function for good"]
    return run.finish()
