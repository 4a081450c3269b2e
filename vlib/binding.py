"""Check C24: the argument binding specification and its binding to the real client."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_binding  # noqa: E402


def cfg(n, ko, show):
    return tlc.cfg_text({"NPos": n, "NKo": ko, "Printing": show}, invariants=["Same", "Dump"])


def simulate(rng, tier):
    calls = tlc.paths("MCBinding", cfg(2, 1, True) if tier == "quick" else cfg(3, 2, True))
    return gen_binding.from_model(calls, rng)


def check(prop, tier, seed):
    n = (2, 1) if tier == "quick" else (3, 2)
    return generic.check(prop, tier, seed, component="binding", trace_module="TraceBinding", rules=["bind.*", "livelock", "?*"],
                         profiles={"any": 1}, gen=gen_binding.schedule, models=[("calls", "MCBinding", cfg(*n, False))],
                         simulate=simulate, n=(40, 2500), assumptions=[
                             "defaults and arguments survive pickling unchanged",
                             "bounds of the enumeration: positional and keyword-only parameters %d, %d" % n])
