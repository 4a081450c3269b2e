"""Check C28: the queue specification and its binding to the real queue."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_queue  # noqa: E402

INVS = ["NothingBad", "SameContent", "NotStarved"]


def items(n):
    return "CONSTANTS\n  Items = {%s}\n" % ", ".join('"%s"' % x for x in "abcde"[:n])


def cfg(n, readers, log, invs):
    return tlc.cfg_text({"LogLen": log}, invariants=invs, view=None if log else "View",
                        extra=items(n) + "  Readers = {%s}\n" % ", ".join(map(str, range(1, readers + 1))))


def simulate(rng, tier):
    # every sequence of operations up to a length, straight from the state graph
    out = []
    for n, readers, log in [(3, 0, 5), (2, 1, 4)] if tier == "quick" else [(3, 0, 6), (2, 1, 6), (2, 2, 5), (4, 0, 5)]:
        logs = tlc.paths("MCQueue", cfg(n, readers, log, ["Dump"]))
        out += [gen_queue.from_model(x, rng) for x in logs]
    return out


def check(prop, tier, seed):
    models = [("list", "MCQueue", cfg(4, 2, 0, INVS)), ("readers", "MCQueue", cfg(2, 3, 0, INVS))]
    if tier != "quick":
        models.append(("large", "MCQueue", cfg(5, 3, 0, INVS)))
    return generic.check(prop, tier, seed, component="queue", trace_module="TraceQueue", rules=["queue.*", "livelock"],
                         profiles={"plain": 1, "readers": 2}, gen=gen_queue.schedule, models=models, simulate=simulate,
                         n=(1500, 60000), assumptions=["the queue is unbounded, as everywhere in the system"],
                         batch=20000)
