"""Checks C14-C19: the worker specification and its binding to the real worker."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_worker  # noqa: E402

INVS = ["NothingBad", "SameCache", "AtRest", "FinalOnce", "RunsOnce", "NeverUnasked", "SameHeld", "SameHeld2", "Alive"]
BASE = dict(NFns=1, MaxTasks=2, MaxCancels=0, MaxBalances=0, MaxDeletes=0, MaxExpires=0, MaxForgets=0, MaxRedeliver=0,
            MaxBad=0, MaxStray=0, MaxDies=0, LogLen=0)
MODELS = {
    "run": (dict(MaxTasks=4, MaxBad=1, MaxCancels=1), dict(MaxTasks=5, MaxBad=2, MaxCancels=2)),
    "cancel": (dict(MaxTasks=3, MaxCancels=2, MaxBad=1), dict(MaxTasks=4, MaxCancels=3, MaxBad=1)),
    "death": (dict(MaxTasks=2, MaxDies=1, MaxCancels=1, MaxBalances=1), dict(MaxTasks=3, MaxDies=2, MaxCancels=1, MaxBalances=1)),
    "balance": (dict(MaxTasks=4, MaxBalances=2, MaxRedeliver=1), dict(MaxTasks=4, MaxBalances=2, MaxRedeliver=1, MaxCancels=1)),
    "functions": (dict(NFns=2, MaxDeletes=1, MaxExpires=1, MaxStray=1, MaxCancels=1),
                  dict(NFns=2, MaxTasks=3, MaxDeletes=1, MaxExpires=1, MaxStray=1, MaxCancels=1)),
    "lost": (dict(NFns=1, MaxForgets=1, MaxRedeliver=2, MaxStray=1, MaxCancels=1),
             dict(NFns=2, MaxForgets=1, MaxRedeliver=2, MaxStray=1, MaxCancels=1)),
}
LIVE = {"run", "cancel", "functions", "death"}  # models small enough for the liveness property as well
SIM = dict(NFns=2, MaxTasks=8, MaxCancels=5, MaxBalances=2, MaxDeletes=3, MaxExpires=1, MaxForgets=1, MaxRedeliver=3,
           MaxBad=1, MaxStray=3, MaxDies=2, LogLen=30)

CRASH = ["crashed", "garbled", "stuck*", "livelock"]
CHECKS = {
    "C14": (["start.concurrent", "start.order", "start.repeated", "start.args", "start.unknown", "repeated.TaskResult",
             "wrong.*", "missing.TaskResult", "unexpected.TaskResult", *CRASH], dict(run=5, mixed=3, cancel=1, balance=1),
            ["run", "lost"]),
    "C15": (["start.canceled", "result.canceled", "missing.TaskResult", "kill.wrong", "cancel.running", "wrong.notfound",
             "unexpected.*", "repeated.TaskResult", *CRASH], dict(cancel=6, functions=2, mixed=2), ["cancel"]),
    "C16": (["balance.*", "start.returned", "result.returned", "missing.BalanceResponse", "unexpected.BalanceResponse",
             "missing.TaskResult", *CRASH], dict(balance=7, mixed=2, run=1), ["balance"]),
    "C17": (["start.function", "unexpected.FunctionRequest", "wrong.unstarted", "wrong.outcome", "missing.TaskResult", *CRASH],
            dict(functions=8, mixed=2), ["functions"]),
    "C18": (["hb.*", "exit.*", "missing.Heartbeat", "crashed", "garbled"], dict(heartbeat=8, mixed=1, cancel=1), ["run"]),
    "C31": (["cache.*"], dict(cache=8, functions=2), ["functions"]),
    "C19": (["died.*", "start.repeated", "wrong.outcome", "wrong.unstarted", "missing.TaskResult", *CRASH], dict(outcomes=6, death=4, mixed=1), ["death"]),
}
# rules that can be broken without changing what the specification thinks happened
HARMLESS = ["memory.late", "memory.early", "memory.kept", "memory.trim", "options.workers", "cache.stale", "cache.refetched", "hb.unanswered", "hb.early", "hb.queue", "hb.busy", "hb.free", "missing.Heartbeat", "start.function",
            "start.args", "balance.toofew", "balance.toomany", "unexpected.FunctionRequest", "exit.early", "exit.wrongid",
            "exit.silent", "exit.processor", "kill.wrong"]


def model(name, tier):
    c = dict(BASE, **MODELS[name][tier != "quick"])
    live = tier != "quick" and name in LIVE
    return (name, "MCWorker", tlc.cfg_text(c, spec="FairSpec" if live else "Spec", invariants=INVS,
                                           properties=["Answered"] if live else [], view="View"))


def simulate(rng, tier):
    logs = tlc.simulate("MCWorker", tlc.cfg_text(dict(BASE, **SIM), invariants=["Dump"]), num=150 if tier == "quick" else 3000,
                        depth=200, seed=rng.randrange(1 << 30))
    return [gen_worker.from_model(x, rng) for x in logs]


def check(prop, tier, seed):
    rules, profiles, models = CHECKS[prop]
    return generic.check(prop, tier, seed, component="worker", trace_module="TraceWorker", rules=rules, profiles=profiles,
                         gen=gen_worker.schedule, models=[model(m, tier) for m in models], simulate=simulate,
                         n=(900, 60000), harmless=HARMLESS, assumptions=[
                             "the scheduler's side is modelled; message order per connection is preserved",
                             "quiet loop cycles mean idle; time advances in whole seconds",
                             "a killed processor's last messages may or may not have left it",
                             "bounds of the closed models are in coverage.models"])
