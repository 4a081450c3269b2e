"""Check C32: the cluster specification and its binding to the real cluster process."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_cluster  # noqa: E402

INVS = ["NothingBad", "AtRest"]


def model(n, stops, strikes, live=True):
    return tlc.cfg_text(dict(N=n, MaxStops=stops, MaxStrikes=strikes, Careless=False, LogLen=0),
                        spec="FairSpec" if live else "Spec", invariants=INVS, properties=["Stops"] if live else [], view="View")


def simulate(rng, tier):
    out = []
    for n, num in [(2, 80), (3, 150)] if tier == "quick" else [(2, 500), (3, 3000), (4, 6000)]:
        logs = tlc.simulate("MCCluster", tlc.cfg_text(dict(N=n, MaxStops=2, MaxStrikes=1, Careless=False, LogLen=12),
                                                      invariants=["Dump"]),
                            num=num, depth=60, seed=rng.randrange(1 << 30))
        out += [gen_cluster.from_model(x, rng, n) for x in logs]
    return out


def check(prop, tier, seed):
    models = [("three", "MCCluster", model(3, 2, 1)), ("two", "MCCluster", model(2, 3, 2))]
    if tier != "quick":
        models += [("four", "MCCluster", model(4, 2, 2)), ("five", "MCCluster", model(5, 2, 2, live=False))]
    return generic.check(prop, tier, seed, component="cluster", trace_module="TraceCluster", rules=["cluster.*", "livelock"],
                         profiles={"late": 2, "early": 3, "mixed": 2}, gen=gen_cluster.schedule, models=models, simulate=simulate,
                         n=(1500, 40000), assumptions=[
                             "signals reach a process between two lines of code of the cluster, worker and processor manager",
                             "a process waits for its non-daemonic children before it ends, as multiprocessing does"],
                         batch=8000)
