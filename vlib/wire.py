"""Check C29: the wire specification and its binding to the real connectors and messages."""
import sys

from . import generic, tlc
from .core import VERIF

sys.path.insert(0, VERIF)
from sim import gen_wire  # noqa: E402


def cfg(n, show):
    return tlc.cfg_text({"MaxLen": n, "Printing": show}, invariants=["BackAgain", "Dump"])


def simulate(rng, tier):
    return gen_wire.from_model(tlc.paths("MCWire", cfg(2 if tier == "quick" else 3, True)), rng)


def check(prop, tier, seed):
    return generic.check(prop, tier, seed, component="wirecheck", trace_module="TraceWire", rules=["wire.*", "livelock"],
                         profiles={"plain": 2, "big": 1}, gen=gen_wire.schedule,
                         models=[("messages", "MCWire", cfg(2 if tier == "quick" else 3, False))], simulate=simulate,
                         n=(120, 4000), batch=1500, assumptions=[
                             "processor loads travel with a precision of a thousandth, durations as 32 bit floats",
                             "a platform with little-endian numbers and natural alignment, as the protocol itself assumes"])
