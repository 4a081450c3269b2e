"""Submits calls through the real client and looks at what the function would receive at the other end."""
import functools
import os
import shutil
import tempfile

REAL = True


class Obj:
    pass


def define(sig, style):
    """a function with this signature that says what it received"""
    parts, names, star = [], [], False
    for i, p in enumerate(sig):
        d = f"='d.{p['name']}'" if p["def"] else ""
        if p["kind"] == "po":
            parts.append(p["name"] + d)
            if i + 1 == len(sig) or sig[i + 1]["kind"] != "po":
                parts.append("/")
        elif p["kind"] == "pk":
            parts.append(p["name"] + d)
        elif p["kind"] == "var":
            parts.append("*" + p["name"])
            star = True
        elif p["kind"] == "ko":
            if not star:
                parts.append("*")
                star = True
            parts.append(p["name"] + d)
        else:
            parts.append("**" + p["name"])
        names.append((p["kind"], p["name"]))
    got = []
    for k, n in names:
        got.append({"var": f"''.join(x + ',' for x in {n})", "kw": f"''.join(x + ',' for x in {n})"}.get(k, n))
    body = "[" + ", ".join(got) + "]"
    self = ", " if parts else ""
    if style == "lambda":
        src = f"f = lambda {', '.join(parts)}: {body}"
    elif style == "method":
        src = f"class C:\n    def m(self{self}{', '.join(parts)}):\n        return {body}\nf = C().m"
    elif style == "callable":
        src = f"class C:\n    def __call__(self{self}{', '.join(parts)}):\n        return {body}\nf = C()"
    elif style == "class":
        src = (f"class C:\n    def __new__(cls{self}{', '.join(parts)}):\n        return {body}\nf = C")
    elif style == "static":
        src = f"class C:\n    @staticmethod\n    def m({', '.join(parts)}):\n        return {body}\nf = C.m"
    else:
        src = f"def f({', '.join(parts)}):\n    return {body}"
    ns = {"__name__": "userland"}
    exec(src, ns)
    return ns["f"]


BUILTINS = {"max": max, "min": min, "getattr": getattr, "iter": lambda *a: None, "str": str, "dict": dict, "zip": zip,
            "print": print, "sum": sum, "sorted": sorted, "int": int, "range": range, "type": type, "divmod": divmod}


class Prepared:
    """one real client; messages are taken from its send queue before they travel"""

    def __init__(self):
        import zmq
        from scaled.client import Client
        self.dir = tempfile.mkdtemp(prefix="bind-")
        self.ctx = zmq.Context.instance()
        self.router = self.ctx.socket(zmq.ROUTER)
        self.router.setsockopt(zmq.RCVHWM, 0)
        self.router.bind("ipc://" + os.path.join(self.dir, "s"))
        self.client = Client("ipc://" + os.path.join(self.dir, "s"))
        self.ident = None

    def tasks(self, calls):
        """submit all calls; returns for each the (function bytes, argument bytes) that reached the scheduler, or the name of
        the exception"""
        import zmq
        out, want = [], 0
        for f, args, kwargs in calls:
            try:
                self.client.submit(f, *args, **kwargs)
            except Exception as e:
                out.append(type(e).__name__)
            else:
                out.append(None)
                want += 1
        fns, tasks = {}, []
        for _ in range(200):
            if len(tasks) >= want or not self.router.poll(5000, zmq.POLLIN):
                break
            fr = self.router.recv_multipart()
            if fr[1] == b"FR":
                fns[fr[3]] = fr[5]
                self.router.send_multipart([fr[0], b"FA", b"OK", fr[3], b"", b""])
            elif fr[1] == b"TK":
                tasks.append(fr)
        # tasks of one function arrive in order, tasks of different functions may overtake each other
        import cloudpickle
        by_fn = {}
        for fr in tasks:
            by_fn.setdefault(fr[3], []).append(fr)
        for i, (f, _, _) in enumerate(calls):
            if out[i] is None:
                import hashlib
                key = hashlib.md5(cloudpickle.dumps(f)).digest()
                rows = by_fn.get(key) or by_fn.get(self.only(by_fn))
                fr = rows.pop(0) if rows else None
                out[i] = (fns.get(fr[3]), fr[5::2]) if fr else "lost"
        return out

    @staticmethod
    def only(by_fn):
        live = [k for k, v in by_fn.items() if v]
        return live[0] if len(live) == 1 else None


def call(f, args, kwargs):
    try:
        return f(*args, **kwargs)
    except TypeError:
        return ["TypeError"]
    except Exception as e:
        return ["!" + type(e).__name__]


def text(v):
    return v if isinstance(v, list) and all(isinstance(x, str) for x in v) else [type(v).__name__ + ":" + repr(v)]


prepared = []


def run_schedule(sch):
    import cloudpickle
    import pickle
    if not prepared:
        prepared.append(Prepared())
    ev = []
    for c in sch["steps"]:
        e = {"e": "bind", "sig": c.get("sig", []), "n": c["n"], "kws": c["kws"], "fixed": [], "fixedkw": [], "rank": {"-": 0},
             "known": True, "st": "", "loc": [], "remote": [], "style": c["style"]}
        if c["style"] == "builtin":
            f = BUILTINS[c["fn"]]
            e["known"] = False
        else:
            f = define(c["sig"], c["style"])
        if c.get("fixed") or c.get("fixedkw"):
            e["fixed"] = [f"q{i}" for i in range(c["fixed"])]
            e["fixedkw"] = list(c["fixedkw"])
            f = functools.partial(f, *e["fixed"], **{k: "f." + k for k in c["fixedkw"]})
            # where **kwargs gets a keyword: those of the partial object first
            order = list(c["fixedkw"]) + [k for k in c["kws"] if k not in c["fixedkw"]]
            e["rank"] = {k: i for i, k in enumerate(order)} or {"-": 0}
        args = [f"p{i}" for i in range(c["n"])]
        kwargs = {k: "k." + k for k in c["kws"]}
        e["loc"] = text(call(f, args, kwargs))
        got = prepared[0].tasks([(f, args, kwargs)])[0]
        if isinstance(got, str):
            e["st"] = got
        else:
            e["st"] = "ok"
            try:
                g = cloudpickle.loads(got[0])
                e["remote"] = text(call(g, [pickle.loads(x) for x in got[1]], {}))
            except Exception as ex:
                e["remote"] = ["!!" + type(ex).__name__]
        ev.append(e)
    return {"cfg": {"x": 0}, "ev": ev}


def hung(sch):
    return {"cfg": {"x": 0}, "ev": [{"e": "livelock"}]}
