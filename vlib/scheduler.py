"""Checks C01-C13: the scheduler specification and its binding to the real scheduler."""
import random
import sys
import threading

from . import tlc
from .core import VERIF, Run

sys.path.insert(0, VERIF)
from sim import gen_sched  # noqa: E402

INVS = ["OneAnswer", "AnsweredWhenDone", "OwnAnswer", "OnePlace", "NoStranded", "NothingBad", "Dischargeable",
        "WithinLimit", "OneAck", "RefusedNoTrace", "AckBeforeAnswer", "FnHeld", "FnHeld2", "DepsDone", "NotWithheld",
        "NoUnsubst", "GraphAlive", "NothingLeft"]

BASE = dict(NClients=1, NWorkers=2, NFns=1, Limit=1, MaxWait="@NoMax", WTO=95, FRET=995, LB=False, Trig=2, MaxTasks=0,
            MaxTicks=0, MaxCancels=0, MaxLosses=0, MaxGraphs=0, MaxFails=0, MaxLate=0, MaxFnOps=1, Shapes="@NoShapes",
            Eager=True, LogLen=0)

# bounded closed models: (quick constants, thorough constants)
MODELS = {
    "tasks": (dict(MaxWait=1, MaxTasks=2, MaxCancels=1, MaxFails=1, MaxLate=1, NClients=2),
              dict(MaxWait=1, MaxTasks=3, MaxCancels=1, MaxFails=1, MaxLate=1, NClients=2)),
    "interleaved": (dict(MaxWait=1, MaxTasks=2, MaxCancels=1, MaxFails=0, MaxLate=1, Eager=False),
                    dict(MaxWait=1, MaxTasks=2, MaxCancels=1, MaxFails=1, MaxLate=1, MaxLosses=1, WTO=15, Eager=False)),
    "loss": (dict(Limit=2, WTO=15, MaxTasks=2, MaxTicks=2, MaxLosses=1, MaxLate=1),
             dict(Limit=2, WTO=15, MaxTasks=2, MaxTicks=2, MaxLosses=2, MaxLate=1, MaxCancels=1)),
    "balance": (dict(Limit=3, LB=True, MaxTasks=3, MaxTicks=3),
                dict(Limit=4, LB=True, MaxTasks=4, MaxTicks=3, MaxCancels=1)),
    "graph": (dict(MaxCancels=1, MaxLosses=1, MaxGraphs=1, MaxFails=1, MaxFnOps=0, Shapes="@Diamond"),
              dict(MaxCancels=1, MaxLosses=1, MaxGraphs=2, MaxFails=1, MaxFnOps=0, Shapes="@SomeShapes")),
    "graphlimit": (dict(NWorkers=1, MaxWait=0, MaxTasks=1, MaxCancels=1, MaxGraphs=1, MaxFails=1, MaxFnOps=1,
                        Shapes="@Fork"),
                   dict(NWorkers=2, MaxWait=0, MaxTasks=2, MaxCancels=2, MaxGraphs=1, MaxFails=1, MaxFnOps=1,
                        Shapes="@Fork")),
    "functions": (dict(NWorkers=1, NFns=2, Limit=2, FRET=15, MaxTasks=2, MaxTicks=3, MaxFnOps=3),
                  dict(NWorkers=2, NFns=2, Limit=2, FRET=15, MaxTasks=2, MaxTicks=3, MaxFnOps=5)),
}
SIM = dict(NClients=2, NWorkers=3, NFns=2, Limit=2, MaxWait=2, WTO=15, FRET=25, LB=True, Trig=2, MaxTasks=9, MaxTicks=5,
           MaxCancels=4, MaxLosses=3, MaxGraphs=2, MaxFails=2, MaxLate=2, MaxFnOps=6, Shapes="@SomeShapes", Eager=False,
           LogLen=35)


def model_cfg(name, tier):
    c = dict(BASE)
    c.update(MODELS[name][0 if tier == "quick" else 1])
    return tlc.cfg_text(c, invariants=INVS, properties=["Moves"], view="View")


def starts(*p):
    return lambda c: any(c == x or (x.endswith("*") and c.startswith(x[:-1])) for x in p)


def kinds(k):
    return [f"{x}.{k}" for x in ("wrong", "misdirected", "repeated", "unexpected", "missing")]


DISPATCH = ["task.notwaiting", "task.finished", "task.canceled", "task.aftergraph", "task.early", "task.unknown",
            "task.deadworker"]
LIVE = ["died", "stranded.*"]

# property -> (rules judged, profiles with shares, models)
CHECKS = {
    "C01": ([*kinds("TaskResult"), *LIVE, "garbled"], dict(tasks=3, mixed=3, cancel=1, loss=2, limit=1),
            ["tasks", "interleaved"]),
    "C02": ([*DISPATCH, *LIVE], dict(tasks=2, loss=2, balance=2, mixed=2, graphs=1, limit=1), ["tasks", "loss"]),
    "C03": (["task.deadworker", "task.notwaiting", "stranded.*", "died", "status.workers", *kinds("HeartbeatEcho"),
             *kinds("DisconnectResponse"), "task.unknown", "task.finished"], dict(loss=7, mixed=2, balance=1), ["loss"]),
    "C04": (["task.overlimit", "stranded.*", "status.workers", "died"], dict(limit=5, loss=2, cancel=2, balance=1),
            ["tasks", "loss", "balance"]),
    "C05": (["task.notleast"], dict(limit=3, loss=2, balance=3, tasks=2), ["loss", "balance"]),
    "C06": ([*kinds("BalanceRequest"), "stranded.balance", "task.notwaiting", "task.finished", "task.unknown", "died",
             "missing.TaskResult"], dict(balance=9, mixed=1), ["balance"]),
    "C07": ([*kinds("TaskEcho"), "result.beforeecho", "task.unknown", "unexpected.TaskResult", "died"],
            dict(admission=7, functions=1, mixed=2), ["tasks", "graphlimit"]),
    "C08": (["task.canceled", *kinds("TaskCancel"), *kinds("TaskResult"), *LIVE, "task.finished", "task.aftergraph",
             "task.unknown"], dict(cancel=7, mixed=2, teardown=1), ["tasks", "interleaved"]),
    "C09": ([*kinds("FunctionResponse"), *kinds("FunctionRequest"), *kinds("TaskEcho"), "died"],
            dict(functions=8, admission=1, teardown=1), ["functions"]),
    "C10": (["task.early", "task.nodebody", "task.body", "stranded.graph", "task.unknown", *kinds("GraphTaskResult"),
             "died"], dict(graphs=9, mixed=1), ["graph", "graphlimit"]),
    "C11": ([*kinds("GraphTaskResult"), "task.aftergraph", "task.canceled", *kinds("TaskCancel"), "stranded.*",
             "task.finished", "task.unknown", "died", "status.clients", "status.tasks"], dict(teardown=7, graphs=3),
            ["graph", "graphlimit"]),
    "C12": (["died", "garbled", "missing.*", "stranded.*"], dict(junk=3, mixed=2, teardown=2, cancel=1, loss=1, limit=1),
            ["interleaved"]),
    "C13": (["pub.*", "status.*", "garbled"], dict(monitor=5, graphs=1, cancel=1, loss=1, functions=1, balance=1),
            ["tasks"]),
}
# rules that can be broken without changing what the specification thinks happened
HARMLESS = ["pub.graph", "pub.task", "pub.missing", "status.tasks", "status.clients", "status.functions",
            "status.workers", "status.about", "status.silent", "status.received", "status.sent", "task.notleast"] + \
    [f"{x}.{k}" for k in ("FunctionResponse", "HeartbeatEcho", "DisconnectResponse", "FunctionRequest", "BalanceRequest")
     for x in ("wrong", "misdirected", "repeated", "unexpected", "missing")]

N = {"quick": (700, 120), "thorough": (40000, 4000)}


def check(prop, tier, seed):
    rules, profiles, models = CHECKS[prop]
    run = Run(prop, "model_checking", tier, seed)
    rng = random.Random(f"{prop}/{seed}/{tier}")
    pred = starts(*rules)
    n, nsim = N[tier]
    failure = []

    def spec_side():
        try:
            for m in models:
                run.model(m, "MCScheduler", model_cfg(m, tier), workers=3 if tier == "quick" else 8)
        except Exception as e:
            failure.append(e)

    th = threading.Thread(target=spec_side)
    th.start()
    simcfg = dict(SIM, WTO=rng.choice([15, 25]), Limit=rng.choice([1, 2, 3]), MaxWait=rng.choice([0, 1, 2, "@NoMax"]),
                  Trig=rng.choice([1, 2]))
    logs = tlc.simulate("MCScheduler", tlc.cfg_text(dict(BASE, **simcfg), spec="Spec", invariants=["Dump"]),
                        num=nsim, depth=150, seed=rng.randrange(1 << 30))
    cfg = dict(limit=simcfg["Limit"], maxwait=-1 if simcfg["MaxWait"] == "@NoMax" else simcfg["MaxWait"],
               wto=simcfg["WTO"], fret=simcfg["FRET"], lb=simcfg["LB"], trig=simcfg["Trig"])
    schedules = [gen_sched.from_model(x, cfg) for x in logs]
    run.notes["schedules generated by TLC"] = len(schedules)
    bag = [p for p, k in profiles.items() for _ in range(k)]
    for i in range(n):
        schedules.append(gen_sched.schedule(rng, bag[i % len(bag)]))
    run.notes["random schedules"] = n
    traces = run.judge("sched", "TraceScheduler", schedules, pred, ignored=[c for c in HARMLESS if not pred(c)])
    th.join()
    if failure:
        raise failure[0]
    run.samples = [{"schedule": schedules[-1]["steps"][:12], "first events": traces[-1]["ev"][:6]}]
    run.assumptions = ["peers only see and cause messages; message order per connection is preserved",
                       "loop cycles without messages mean idle; time advances in whole checks",
                       "bounds of the closed models are in coverage.models"]
    return run.finish()
