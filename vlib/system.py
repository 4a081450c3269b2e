"""Checks C26, C27 and C30: the whole system's specification and its binding to the real system."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_system  # noqa: E402

INVS = ["NothingBad", "AtRest", "SameHeld", "OverLimit"]
BASE = dict(NClients=1, NWorkers=2, Limit=2, MaxSubs=2, MaxCrash=0, MaxSilence=0, MaxLeave=0, MaxJoin=0, MaxBye=0, MaxLost=0,
            MaxBal=0, MaxRaise=0, LogLen=0)
MODELS = {
    "crash": (dict(MaxSubs=2, MaxCrash=1, MaxRaise=1), dict(MaxSubs=3, MaxCrash=1, MaxRaise=1, MaxJoin=1)),
    "silence": (dict(MaxSubs=2, MaxSilence=1), dict(MaxSubs=3, MaxSilence=1, MaxBal=1)),
    "leave": (dict(MaxSubs=2, MaxLeave=1, MaxBal=1), dict(NWorkers=3, MaxSubs=3, MaxLeave=1, MaxBal=1)),
    "bye": (dict(NClients=2, MaxSubs=2, MaxBye=1, MaxCrash=1), dict(NClients=2, MaxSubs=3, MaxBye=1, MaxCrash=1, MaxLost=1)),
    "calm": (dict(MaxSubs=3, MaxBal=2, MaxRaise=1, Limit=3), dict(MaxSubs=4, MaxBal=2, MaxRaise=1, Limit=3)),
}
SIM = dict(NClients=2, NWorkers=2, MaxSubs=6, MaxCrash=1, MaxSilence=1, MaxLeave=1, MaxJoin=2, MaxBye=1, MaxLost=1, MaxBal=2,
           MaxRaise=1, LogLen=24)
CRASH = ["crashed", "garbled", "livelock"]
CHECKS = {
    "C26": (["outcome.*", "stalled", "rest.waiting", "rest.call", "start.unknown", *CRASH],
            dict(faults=4, flaky=2, mixed=2, calm=1), ["crash", "silence", "leave"]),
    "C27": (["left.*", "rest.tasks", "rest.slots", "rest.workers", "rest.call", "outcome.*", *CRASH],
            dict(bye=5, mixed=3, faults=1), ["bye", "leave"]),
    "C30": (["start.*", *CRASH], dict(calm=4, bye=2, mixed=2, faults=1), ["calm", "leave"]),
}
HARMLESS = ["outcome.wrong", "outcome.raised", "start.concurrent", "start.gone", "start.again", "left.start", "left.running",
            "left.unresolved", "stalled", "rest.waiting", "rest.call", "rest.tasks", "rest.slots", "rest.workers"]


def model(name, tier, live):
    c = dict(BASE, **MODELS[name][tier != "quick" and not live])
    return (name + (" (liveness)" if live else ""), "MCSystem",
            tlc.cfg_text(c, spec="FairSpec" if live else "Spec", invariants=INVS, properties=["Finishes"] if live else [], view="View"))


def some(models, tier):
    if tier == "quick":
        return [model(m, tier, m in ("silence", "leave")) for m in models]
    return [model(m, tier, live) for m in models for live in (True, False)]


def simulate(rng, tier):
    logs = tlc.simulate("MCSystem", tlc.cfg_text(dict(BASE, **SIM), invariants=["Dump"]), num=50 if tier == "quick" else 1000,
                        depth=250, seed=rng.randrange(1 << 30))
    return [gen_system.from_model(x, rng) for x in logs]


def check(prop, tier, seed):
    rules, profiles, models = CHECKS[prop]
    return generic.check(prop, tier, seed, component="system", trace_module="TraceSystem", rules=rules, profiles=profiles,
                         gen=gen_system.schedule, models=some(models, tier), simulate=simulate,
                         n=(260, 9000), harmless=HARMLESS, assumptions=[
                             "user functions return or raise when told to; connections deliver in order, late, and to live peers",
                             "a worker that falls silent keeps running and may come back; at least one worker remains or joins",
                             "bounds of the closed models are in coverage.models"])
