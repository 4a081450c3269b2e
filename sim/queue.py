"""Drives the real IndexedQueue: operations, waiting readers, items of all kinds."""
import asyncio

REAL = True


class Same:
    """items that all have the same hash"""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Same) and other.n == self.n


def maker(kind):
    """name -> a fresh object; objects of one name are equal, of different names are not"""
    if kind == "bytes":
        return lambda x: bytes(bytearray(x.encode()))
    if kind == "same":
        return lambda x: Same(x)
    if kind == "minus":  # hash(-1) == hash(-2)
        pool = {"a": [-1, -1.0], "b": [-2, -2.0], "c": [0, 0.0, False], "d": [2 ** 61 - 1], "e": [1, True, 1.0]}
        return lambda x, n=[0]: (n.__setitem__(0, n[0] + 1), pool[x][n[0] % len(pool[x])])[1]
    if kind == "tuple":
        pool = {"a": (), "b": (-1,), "c": (-2,), "d": ((-1, -2),), "e": ((-2, -2),)}
        return lambda x: tuple(list(pool[x]))
    if kind == "odd":
        pool = {"a": None, "b": "", "c": 0, "d": frozenset(), "e": b""}
        return lambda x: pool[x]
    raise ValueError(kind)


NAMES = "abcde"


async def drive(sch):
    from scaled.utility.queues.async_indexed_queue import IndexedQueue
    make = maker(sch["cfg"]["kind"])
    names = [(x, make(x)) for x in NAMES]

    def name(v):
        for n, o in names:
            if type(o) is type(v) and o == v:
                return n
        for n, o in names:
            if o == v and not isinstance(o, (bytes, str)):
                return n
        return "?"

    q = IndexedQueue()
    ev = []
    readers = {}

    def say(e, x="", r="", n=0):
        ev.append({"e": e, "x": x, "r": r, "n": n})

    def attempt(e, x, f):
        try:
            v = f()
        except Exception as ex:
            say(e, x, type(ex).__name__)
        else:
            say(e, name(v) if e == "take" else x, "ok")

    async def reader(r):
        try:
            v = await q.get()
        except asyncio.CancelledError:
            raise
        except Exception:
            say("failed", n=r)
        else:
            readers.pop(r, None)
            say("got", name(v), "ok", r)

    def look():
        try:
            for n, _ in names:
                say("has", n, "yes" if make(n) in q else "no")
            say("len", n=len(q))
            say("len", n=q.qsize())
        except Exception as ex:
            say("failed", r=type(ex).__name__)

    for s in sch["steps"]:
        k = s[0]
        if k == "put":
            item = make(s[1])
            if s[2:] and s[2]:
                try:
                    await q.put(item)
                except Exception as ex:
                    say("put", s[1], type(ex).__name__)
                else:
                    say("put", s[1], "ok")
            else:
                attempt("put", s[1], lambda: q.put_nowait(item))
        elif k == "take":
            attempt("take", "", q.get_nowait)
        elif k == "remove":
            attempt("remove", s[1], lambda: q.remove(make(s[1])))
        elif k == "read":
            if s[1] not in readers:
                say("read", n=s[1])
                readers[s[1]] = asyncio.ensure_future(reader(s[1]))
        elif k == "stop":
            t = readers.pop(s[1], None)
            if t is not None and not t.done():
                t.cancel()
                say("stop", n=s[1])
        elif k == "step":
            await asyncio.sleep(0)
        elif k == "spin":
            for _ in range(6):
                await asyncio.sleep(0)
            say("idle")
        elif k == "look":
            look()
    for _ in range(6):
        await asyncio.sleep(0)
    say("idle")
    look()
    for t in list(readers.values()):
        t.cancel()
    await asyncio.sleep(0)
    n = len(ev)
    while ev[n - 1]["e"] != "len" and n:
        n -= 1
    while True:  # empty it: the order of what is left
        attempt("take", "", q.get_nowait)
        if ev[-1]["r"] != "ok" or len(ev) > 5000:
            break
    # the readers were told to stop before
    at = n
    ev[at:at] = [{"e": "stop", "x": "", "r": "", "n": r} for r in list(readers)]
    return ev


def run_schedule(sch):
    return {"cfg": {"x": 0}, "ev": asyncio.run(drive(sch))}


def hung(sch):
    return {"cfg": {"x": 0}, "ev": [{"e": "livelock", "x": "", "r": "", "n": 0}]}
