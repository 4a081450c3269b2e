"""Checks C20-C23 and C25: the client specification and its binding to the real client."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_client  # noqa: E402

INVS = ["NothingBad", "AtRest", "JudgeAtRest", "Withdrawn"]
BASE = dict(NThreads=2, NFns=1, MaxSubs=0, MaxMaps=0, MaxGraphs=0, MaxDisc=0, MaxWd=0, MaxForgets=0, MaxRefuse=0, MaxBad=0,
            LogLen=0)
MODELS = {
    "submit": (dict(MaxSubs=2, MaxForgets=1, MaxBad=1, MaxRefuse=1, MaxWd=1),
               dict(NFns=2, MaxSubs=3, MaxForgets=1, MaxBad=1, MaxRefuse=1)),
    "bye": (dict(MaxSubs=2, MaxDisc=1, MaxWd=1), dict(MaxSubs=2, MaxDisc=1, MaxWd=1, MaxGraphs=1)),
    "graph": (dict(MaxSubs=1, MaxGraphs=1, MaxBad=1, MaxWd=1, MaxDisc=1), dict(MaxSubs=1, MaxGraphs=2, MaxBad=1, MaxWd=1)),
    "map": (dict(MaxSubs=1, MaxMaps=1, MaxBad=1), dict(MaxSubs=1, MaxMaps=2, MaxBad=1)),
}
SIM = dict(NFns=2, MaxSubs=8, MaxMaps=2, MaxGraphs=2, MaxDisc=0, MaxWd=2, MaxForgets=2, MaxRefuse=1, MaxBad=1, LogLen=30)

CRASH = ["crashed", "garbled", "stuck*", "livelock", "missing.done"]
CHECKS = {
    "C20": (["done.*", "call.*", "exit.early", *CRASH], dict(outcomes=6, race=3, mixed=2, graph=1, leave=1), ["submit"]),
    "C21": (["task.*", "upload.*", "missing.Task", "sent.late", "unexpected.*", *CRASH], dict(race=8, mixed=2), ["submit"]),
    "C22": (["late.*", "cancel.*", "missing.TaskCancel", "missing.GraphTaskCancel", "exit.*", "done.early", "done.lost",
             "task.late", "graph.late", "sent.late", *CRASH], dict(bye=6, leave=8, mixed=2, map=1), ["bye"]),
    "C23": (["graph.*", "missing.GraphTask", "done.unreported", *CRASH], dict(graph=9, mixed=1), ["graph"]),
    "C25": (["map.*", "missing.Task", *CRASH], dict(map=9, mixed=1), ["map"]),
}
HARMLESS = ["call.*", "late.accepted", "map.*", "graph.wrong", "graph.raised", "graph.accepted", "graph.keys", "done.*",
            "task.args", "task.function", "task.sameid", "task.unacked", "upload.wrong", "cancel.*", "graph.malformed"]


def model(name, tier):
    live = name == "submit"
    c = dict(BASE, **MODELS[name][tier != "quick"])
    return (name, "MCClient", tlc.cfg_text(c, spec="FairSpec" if live else "Spec", invariants=INVS,
                                           properties=["Stable"] + (["Answered"] if live else []), view="View"))


def simulate(rng, tier):
    logs = tlc.simulate("MCClient", tlc.cfg_text(dict(BASE, **SIM), invariants=["Dump"]), num=100 if tier == "quick" else 2000,
                        depth=250, seed=rng.randrange(1 << 30))
    return [gen_client.from_model(x, rng) for x in logs]


def check(prop, tier, seed):
    rules, profiles, models = CHECKS[prop]
    return generic.check(prop, tier, seed, component="client", trace_module="TraceClient", rules=rules, profiles=profiles,
                         gen=gen_client.schedule, models=[model(m, tier) for m in models], simulate=simulate,
                         n=(1100, 60000), harmless=HARMLESS, assumptions=[
                             "the scheduler's side is modelled; message order per connection is preserved",
                             "threads are interleaved at source lines of the client and its connector, at random points",
                             "bounds of the closed models are in coverage.models"])
