"""How much the code under test holds on to: the number of entries in all containers its running code can reach.

Starts from the frames of the running tasks and follows attributes, containers, closures and bound methods of the
library under test and of asyncio's queues and locks; nothing of the harness is entered or counted.
"""
import asyncio
import collections
import sys
import types
import weakref

CONTAINERS = (dict, list, set, frozenset, tuple, collections.deque)
LIBRARY = ("scaled.", "asyncio.queues", "asyncio.locks", "collections", "bidict", "_asyncio", "concurrent.", "queue")


def frames(coro):
    while coro is not None:
        f = getattr(coro, "cr_frame", None) or getattr(coro, "gi_frame", None)
        if f is not None:
            yield f
        coro = getattr(coro, "cr_await", None) or getattr(coro, "gi_yieldfrom", None)


def ours(cls):
    return any((cls.__module__ or "").startswith(p) for p in LIBRARY)


def children(o):
    if isinstance(o, dict):
        yield from o.keys()
        yield from o.values()
    elif isinstance(o, CONTAINERS):
        yield from o
    elif isinstance(o, types.MethodType):
        yield o.__self__
        yield o.__func__
    elif isinstance(o, types.FunctionType):
        for c in o.__closure__ or ():
            try:
                yield c.cell_contents
            except ValueError:
                pass
        yield from o.__defaults__ or ()
    elif isinstance(o, asyncio.Task):
        for f in frames(o.get_coro()):
            yield f.f_locals
    elif isinstance(o, type):
        if (o.__module__ or "").startswith("scaled."):
            for v in vars(o).values():
                if isinstance(v, CONTAINERS):
                    yield v
    if not isinstance(o, type) and ours(type(o)):
        yield getattr(o, "__dict__", None)
        for c in type(o).__mro__:
            s = c.__dict__.get("__slots__", ())
            for n in [s] if isinstance(s, str) else s:
                yield getattr(o, n, None)
        yield type(o)


def count(roots):
    seen = set()
    total = 0
    stack = list(roots)
    for name, m in list(sys.modules.items()):
        if name.startswith("scaled.") and m is not None:
            stack += [v for v in vars(m).values() if isinstance(v, CONTAINERS) and not isinstance(v, types.ModuleType)]
    keep = []  # temporaries such as f_locals must not be collected while their ids are in `seen`
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, (str, bytes, int, float, weakref.ref, types.ModuleType)) or id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, CONTAINERS):
            total += len(o)
        stack.extend(children(o))
    return total


def of_loop(loop):
    """what the coroutines running on a loop hold, and how many of them there are"""
    tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
    return len(tasks) + count([x for t in tasks for f in frames(t.get_coro()) for x in f.f_locals.values()])


def of_thread(ident):
    """what the functions running in a thread hold"""
    f = sys._current_frames().get(ident)
    out = []
    while f is not None:
        if f.f_globals.get("__name__", "").startswith("scaled."):
            out += list(f.f_locals.values())
        f = f.f_back
    return count(out)
