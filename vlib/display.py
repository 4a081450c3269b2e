"""Check C35: the specification of the monitor's screen and its binding to the real program."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_display  # noqa: E402

INVS = ["EveryWorkerOnce", "LargestFirst", "LastKey"]


def cfg(names, shows, log, invs):
    return tlc.cfg_text({"MaxShows": shows, "LogLen": log}, invariants=invs, view=None if log else "View",
                        extra="CONSTANTS\n  Names = {%s}\n" % ", ".join('"w%d"' % (i + 1) for i in range(names)))


def simulate(rng, tier):
    shows = 3 if tier == "quick" else 6
    logs = tlc.simulate("MCDisplay", cfg(4, shows, 1, ["Dump"]), num=15 if tier == "quick" else 200, depth=shows + 1,
                        seed=rng.randrange(1 << 30))
    return [gen_display.from_model(x, rng) for x in rng.sample(logs, min(len(logs), 150 if tier == "quick" else 5000))]


def check(prop, tier, seed):
    models = [("screen", "MCDisplay", cfg(2, 1, 0, INVS))]
    if tier != "quick":
        models.append(("more workers", "MCDisplay", cfg(3, 1, 0, INVS)))
    return generic.check(prop, tier, seed, component="display", trace_module="TraceDisplay", rules=["top.*", "crashed", "livelock"],
                         profiles={"plain": 3, "small": 1}, gen=gen_display.schedule, models=models, simulate=simulate,
                         n=(900, 30000), batch=3000, assumptions=[
                             "the terminal behaves as curses does: text wraps at the right margin and writing beyond the last cell fails",
                             "memory sizes stay below 1000 terabytes; names contain no control characters",
                             "ties of half a tenth of a millisecond may be rounded either way"])
