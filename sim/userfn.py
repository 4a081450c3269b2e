"""Functions, arguments and results of modelled tasks.  They travel through the real (pickling) serializer of scaled;
running one hands control to the driver, which decides how it ends."""
import asyncio
import pickle
import queue
import zlib
from concurrent.futures import CancelledError

import zmq

from .kernel import World


class UserError(Exception):
    pass


class BadPickleError(Exception):
    """cannot be pickled"""

    def __reduce__(self):
        raise RuntimeError("this exception does not pickle")


class Weird(BaseException):
    """not an Exception"""


class Unserializable:
    def __reduce__(self):
        raise RuntimeError("this result does not pickle")


def _explode(what):
    raise UserError(f"cannot load {what}")


class BadLoad:
    """pickles, but raises when loaded (in the worker)"""

    def __init__(self, what):
        self.what = what

    def __reduce__(self):
        return _explode, (self.what,)


def literal(rng, name):
    """some literal with a name in it"""
    return rng.choice([name, name, (name,), [name], {"k": name}, ("n", (name, 1)), [F(name)]])


def text(v):
    """how expressions show an argument"""
    v = v if isinstance(v, str) else repr(v)
    return v if len(v) < 20000 else f"{v[:20]}..{len(v)}.{zlib.crc32(v.encode())}"


# values and exceptions that code may take for something else
VALUES = {
    "none": lambda v: None, "false": lambda v: False, "zero": lambda v: 0, "blank": lambda v: "", "list": lambda v: [],
    "bytes": lambda v: b"", "pair": lambda v: (v, None), "exc": lambda v: UserError(v), "class": lambda v: UserError,
    "fn": lambda v: F(v), "big": lambda v: (v + ".") * 40000, "notimpl": lambda v: NotImplemented,
}
ERRORS = {
    "key": KeyError, "assert": AssertionError, "eof": EOFError, "timeout": TimeoutError, "pipe": BrokenPipeError,
    "empty": queue.Empty, "full": queue.Full, "memory": MemoryError, "bare": lambda v: UserError(), "type": TypeError,
    "attr": AttributeError, "notimpl": NotImplementedError, "pickle": pickle.PicklingError, "ccancel": CancelledError,
    "value": ValueError, "runtime": RuntimeError, "os": OSError, "again": lambda v: zmq.Again(),
    "zmq": lambda v: zmq.ZMQError(zmq.ETERM),
}
BASES = {"cancel": asyncio.CancelledError, "stop": StopIteration, "astop": StopAsyncIteration, "genexit": GeneratorExit}


def value(what, val):
    return VALUES[what](val) if what else val


def error(what, val):
    return (ERRORS.get(what) or BASES[what])(val) if what else UserError(val)


def said(v):
    return "v:" + text(v)


def failed(e):
    return f"x:{type(e).__name__}:{e}"


class F:
    """function `name`"""

    def __init__(self, name):
        self.name = name
        if name in ("f2", "f3"):  # names need not be unique
            self.__name__ = "N\u00e4me 2"
            self.__qualname__ = "make.<locals>.N\u00e4me 2"
            self.__doc__ = None

    def __repr__(self):
        return "<" + self.name + ">"

    def __reduce__(self):
        return F, (self.name,)

    def __call__(self, *args, **kwargs):
        sim = World.current.fn_host
        me = World.current.me()
        call = sim.on_call(me, self.name, args, kwargs)
        while call.get("end") is None:
            me.yield_("user", info=call, pred=lambda: call.get("end") is not None)
        kind = call["end"]
        val = call.get("val")
        what = call.get("what")
        sim.on_return(me, call)
        if kind == "ret":
            return value(what, val)
        if kind == "badret":
            return Unserializable()
        if kind == "raise":
            raise error(what, val)
        if kind == "badexc":
            raise BadPickleError(val)
        if kind == "exit":
            raise SystemExit(val)
        if kind == "base":
            raise Weird(val)
        if kind == "kbd":
            raise KeyboardInterrupt(val)
        raise RuntimeError(kind)
