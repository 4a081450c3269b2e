"""The real client (user threads and its connector thread) against a modelled scheduler.

The API calls of user threads, the messages at the client's socket and the resolution of every future are recorded;
spec/TraceClient.tla judges the recording.
"""
import hashlib
import pickle
import random

import cloudpickle

from . import env, wire  # noqa
from .host import Host, SimProcess, step_ready
from .kernel import World
from .userfn import ERRORS, BadLoad, F, Unserializable, UserError, error, failed, literal, said, text, value

LOCKS = True
ADDR = "tcp://sched:1"
MISC = {"fn": "", "args": [], "keys": [], "nodes": [], "st": "", "n": 0, "val": "", "res": [], "tids": []}


REPORTED = tuple({type(error(k, "e")) for k in ERRORS})


def prepare():
    import scaled.client  # noqa


def outcome(fn):
    """what an API call or a future says"""
    try:
        v = fn()
    except BaseException as e:
        return raised(e)
    return said(v)


def raised(e):
    return failed(e) if isinstance(e, (UserError, *REPORTED)) else f"x:{type(e).__name__}"


class ClientSim(Host):
    def __init__(self, cfg):
        """cfg: seed, preempt, threads"""
        self.cfg = cfg
        self.rng = random.Random(cfg["seed"])
        world = World()
        World.current = world
        from .fakezmq import Net
        super().__init__(world)
        self.net = Net(world, auto=False)
        self.net.on_send = self._on_send
        self.net.on_recv = self._on_recv
        self.events = []
        self.trace_files = None
        self.fns = {}
        # calls of the user
        self.n = 0
        self.calls = {}  # name -> dict
        self.futures = {}  # name -> Future
        self.notes = {}  # name -> outcome
        # the modelled scheduler
        self.plain = {}  # function -> submission without arguments
        self.tid = {}  # task id -> submission
        self.gid = {}  # graph id -> call
        self.todo = []  # messages it has not looked at
        self.held = set()  # functions it has
        self.open = []  # accepted submissions without a result
        self.gopen = []
        self.past = []  # answered
        self.graphs = {}
        self.over = False
        from .worker import Peer
        self.net.bound[ADDR] = Peer(lambda fr: self.todo.append(fr[1:]))
        self.queues = {}
        self.proc = SimProcess(world, "user1", self, self, None)
        self.connector = None
        for i in range(1, cfg["threads"]):
            self.proc.spawn(f"user{i + 1}", self.loop)
        self.users = list(self.proc.threads)
        for t in self.users:
            self.queues[t.name] = []
        self.client = None
        self.settle(idle=False)
        for s in self.net.links.values():
            if s.name[0] == "up":
                s.auto = True

    def tracing(self, proc, name):
        if not self.cfg.get("preempt"):
            return (None, None)
        if self.trace_files is None:
            import scaled.client as a
            import scaled.io.sync_connector as b
            self.trace_files = {a.__file__, b.__file__}
        return (self.trace_files, lambda frame: not self.calm and self.rng.random() < self.cfg["preempt"])

    calm = False

    def thread_hook(self, thread):
        t = super().thread_hook(thread)
        self.connector = t
        return t

    # ------------------------------------------------------------ the user's threads
    def run(self):
        from scaled.client import Client
        self.client = Client(ADDR)
        self.loop()

    def loop(self):
        me = self.world.me()
        while self.client is None:
            me.yield_("wait", pred=lambda: self.client is not None)
        q = self.queues[me.name]
        while True:
            me.yield_("wait", pred=lambda: bool(q))
            q[0]()
            q.pop(0)
            self.world.touch()

    def call(self, i, fn):
        self.queues[self.users[i % len(self.users)].name].append(fn)
        self.world.touch()

    def ev(self, e, k="", id="", **kw):
        r = {"e": e, "k": k, "id": id}
        r.update(MISC)
        r.update(kw)
        self.events.append(r)
        self.world.touch()

    def watch(self, name, fut):
        def done(f):
            self.notes[name] = "cancelled" if f.cancelled() else outcome(lambda: f.result(0))
            self.ev("done", id=name, val=self.notes[name])
        self.futures[name] = fut
        fut.add_done_callback(done)

    def fn(self, name, fresh=False):
        if fresh or name not in self.fns:
            self.fns[name] = F(name)
        return self.fns[name]

    # ------------------------------------------------------------ recording
    def _on_send(self, sock, frames):
        import zmq
        if sock.type != zmq.DEALER:
            return
        try:
            m = wire.decode(frames)
        except wire.WireError:
            return self.ev("bad")
        k = m["k"]
        try:
            getattr(self, "_sent_" + k)(m)
        except Exception:
            self.ev("bad", k=k)

    def fname(self, body):
        return pickle.loads(body).name

    def _sent_FunctionRequest(self, m):
        f = self.fname(m["body"])
        ok = m["st"] == "Add" and m["name"] == getattr(F(f), "__name__", "<anonymous func>").encode()
        same = m["id"] == self.ids.setdefault(f, m["id"]) and self.fid.setdefault(m["id"], f) == f
        self.ev("send", m["k"], f, n=0 if ok and same else 1)

    ids, fid = None, None

    def _sent_Task(self, m):
        args = [pickle.loads(a) for t, a in m["args"]]
        sub = args[0].split(".a")[0] if args else self.plain[self.fid[m["fn"]]]
        clash = self.tid.setdefault(m["id"], sub) != sub or any(t != "D" for t, _ in m["args"])
        self.ev("send", "Task", sub, fn=self.fid.get(m["fn"], "?"), args=args, n=1 if clash else 0)

    def _sent_TaskCancel(self, m):
        self.ev("send", "TaskCancel", self.tid.get(m["id"], "") or self.unsent(m["id"]))

    def unsent(self, tid):
        return "?"  # never sent: nobody can tell which one it is

    def _sent_GraphTask(self, m):
        name, nodes = None, {}
        fns = {f[0]: self.fname(f[2]) for f in m["functions"]}
        self.fid.update(fns)
        for n in m["nodes"]:
            nodes[n["id"]] = (fns[n["fn"]], n["args"])

        def value(i, path=()):
            assert i not in path
            f, args = nodes[i]
            return f + "(" + ",".join(text(pickle.loads(a)) if t == "D" else value(a, path + (i,)) for t, a in args) + ")"

        assert len(nodes) == len(m["nodes"])
        vals = [value(t) for t in m["targets"]]
        # which call it is: graphs are sent in the order of their calls only within a thread; names tell
        for i in nodes:
            v = value(i)
            for c in self.calls:
                if self.calls[c]["k"] == "get" and (c + ".") in v:
                    name = c
        if name is None:  # nothing in it tells: an open call without data
            name = next(c for c in self.calls if self.calls[c]["k"] == "get" and c not in self.gid.values())
        clash = self.gid.setdefault(m["id"], name) != name or m["id"] in self.tid
        self.graphs[name] = dict(vals=vals, fns=[f[0] for f in m["functions"]], targets=m["targets"],
                                 nodes=[n["id"] for n in m["nodes"]], tid=m["id"])
        self.ev("send", "GraphTask", name, res=vals, n=1 if clash else 0)

    def _sent_GraphTaskCancel(self, m):
        self.ev("send", "GraphTaskCancel", self.gid.get(m["id"], "?"))

    def _on_recv(self, sock, frames):
        m = wire.decode(frames)
        k = m["k"]
        if k == "TaskEcho":
            self.ev("recv", k, self.tid.get(m["id"], "?"), st=m["st"])
        elif k == "FunctionResponse":
            self.ev("recv", k, self.fid.get(m["id"], "?"), st=m["st"])
        elif k == "TaskResult":
            st, val = self.said(m["st"], m["body"])
            self.ev("recv", k, self.tid.get(m["id"], "?"), st=st, val=val)
        elif k == "GraphTaskResult":
            vals = [self.said(m["st"], b) for b in m["results"]]
            st = m["st"] if all(v[0] == m["st"] for v in vals) else "Undecodable"
            self.ev("recv", k, self.gid.get(m["id"], "?"), st=st, res=[v[1] for v in vals])
        else:
            self.ev("recv", k)

    @staticmethod
    def said(st, body):
        if st not in ("Success", "Failed"):
            return st, ""
        try:
            v = pickle.loads(body)
        except BaseException:
            return "Undecodable", ""
        return st, said(v) if st == "Success" else raised(v) if isinstance(v, BaseException) else "?:" + repr(v)[:80]

    # ------------------------------------------------------------ driving
    def threads(self):
        return [t for t in self.proc.threads if not t.done]

    def step_thread(self, t):
        t.step()
        if t is self.connector and t.done and not self.over:
            self.over = True
            self.ev("exit", st="crash" if t.exc is not None else "ok", val=repr(t.exc)[:80] if t.exc is not None else "")

    def down(self):
        return [x for (a, i, d), x in self.net.links.items() if d == "down" and x.queue]

    def settle(self, idle=True):
        quiet = 0
        for _ in range(4000):
            a = self.world.activity
            self.calm = _ > 60
            for x in self.down():
                x.flush()
            lines = False
            ready = step_ready(self.world, self.threads())
            for t in ready:
                if not t.done:
                    self.step_thread(t)
                    lines = lines or t.reason == "line"
            if not ready:
                self.world.now += 0.05
            if a == self.world.activity and not lines:
                quiet += 1
                if quiet >= 6:
                    break
            else:
                quiet = 0
        else:
            self.ev("livelock")
            return
        self.calm = False
        if idle:
            self.ev("idle")

    def do_c(self, n):
        for _ in range(n):
            ready = step_ready(self.world, self.threads()) + self.down()
            if not ready or self.rng.random() < .08:
                self.world.now += 0.05
                continue
            x = self.choose(ready)
            if hasattr(x, "deliver"):
                x.deliver()
            else:
                self.step_thread(x)

    def do_settle(self):
        self.settle()

    def run_steps(self, steps):
        self.ids, self.fid = {}, {}
        for s in steps:
            getattr(self, "do_" + s[0])(*s[1:])
            if self.events and self.events[-1]["e"] == "livelock":
                break
        return self

    # ------------------------------------------------------------ what users do
    def name(self, k, **kw):
        self.n += 1
        c = f"{k[0]}{self.n}"
        self.calls[c] = dict(k=k, **kw)
        return c

    def do_submit(self, th, f, nargs=1, fresh=False, chain=0, bad=False):
        """chain: when resolved, the future's callback submits again, so many times; bad: cannot be serialized"""
        c = self.name("submit", f=f)
        args = [f"{c}.a{i}" for i in range(max(1, nargs))]

        def go():
            self.ev("call", "submit", c, fn=f, args=list(args), n=1 if bad else 0)
            if bad:
                args.append(Unserializable())
            try:
                fut = self.client.submit(self.fn(f, fresh), *args)
            except Exception as e:
                self.ev("ret", "submit", c, st="raised", val=type(e).__name__)
            else:
                self.ev("ret", "submit", c, st="ok")
                self.watch(c, fut)
                if chain:
                    fut.add_done_callback(lambda _: self.do_submit(None, f, nargs, False, chain - 1))
        if th is None:
            go()
        else:
            self.call(th, go)

    def do_map(self, th, f, n, kind="list", nargs=None):
        """kind: list, tuple, iter (one-shot), bad (one item is no tuple), badlast; nargs: numbers of arguments, in turn"""
        c = self.name("map", f=f)
        nargs = nargs or [1]
        items = [tuple(f"{c}.{i}.a{j}" for j in range(nargs[i % len(nargs)])) for i in range(n)]
        subs = [f"{c}.{i}" for i in range(n)]
        if () in items:  # only the function tells what it is about
            f += "." + c
            self.plain[f] = subs[items.index(())]
            items = [x or (f"{subs[i]}.a0",) if subs[i] != self.plain[f] else x for i, x in enumerate(items)]
        nodes = [{"name": x, "fn": "", "args": list(a)} for x, a in zip(subs, items)]
        items = [list(x) if self.rng.random() < .2 else x for x in items]
        if kind.startswith("bad"):
            items.insert(len(items) if kind == "badlast" else len(items) // 2, "nonsense")
        it = {"list": list, "tuple": tuple, "bad": list, "badlast": iter}.get(kind, iter)(items)
        if kind == "gen":
            it = (x for x in items)

        def go():
            self.ev("call", "map", c, fn=f, keys=subs, nodes=nodes, n=1 if kind.startswith("bad") else 0)
            try:
                r = self.client.map(self.fn(f), it)
            except Exception as e:
                self.ev("ret", "map", c, st="raised", val=outcome(self._raiser(e)))
            else:
                self.ev("ret", "map", c, st="ok", res=[said(x) for x in r])
        self.call(th, go)

    @staticmethod
    def _raiser(e):
        def f():
            raise e
        return f

    def do_get(self, th, shape, keys, block=False, bad=None):
        """shape: [[function, [argument...]]...]; an argument is a node number or a negative number (data)"""
        c = self.name("get")
        graph, nodes, data = {}, [], {}
        for i, (f, args) in enumerate(shape):
            names = []
            for a in args:
                if a < 0:
                    nm = f"d{-a}"
                    data.setdefault(nm, literal(self.rng, f"{c}.{nm}"))
                    names.append(nm)
                else:
                    names.append(f"n{a}")
            nodes.append({"name": f"n{i}", "fn": f, "args": names})
        if "d3" in data and len(data) > 1 and self.rng.random() < .3:
            data["d3"] = ()
        items = [(x["name"], (self.fn(x["fn"]), *x["args"])) for x in nodes] + list(data.items())
        self.rng.shuffle(items)
        graph = dict(items)
        nodes += [{"name": k, "fn": "", "args": [text(v)]} for k, v in data.items()]
        names = [f"n{k}" for k in keys]
        first = nodes[0]["name"]
        if bad == "undefined":
            graph[first] += ("nowhere",)
        elif bad == "cycle":
            to, k = self.rng.choice(nodes)["name"], self.rng.randint(1, len(graph[first]))
            if isinstance(graph.get(to), tuple) and to.startswith("n"):
                graph[first] = graph[first][:k] + (to,) + graph[first][k:]
                graph[to] += (first,)
            else:
                graph[first] = graph[first][:k] + (first,) + graph[first][k:]
        elif bad == "key":
            names.append("nowhere")
        elif bad == "data":
            graph["bad"] = Unserializable()

        def go():
            self.ev("call", "get", c, nodes=nodes, keys=names, n=1 if block else 0, st="invalid" if bad else "")
            try:
                r = self.client.get(graph, names, block=block)
            except Exception as e:
                self.calls[c]["k"] = "dead"
                self.ev("ret", "get", c, st="raised", val=outcome(self._raiser(e)))
                return
            if set(r) != set(names):
                self.ev("ret", "get", c, st="badkeys")
            elif block:
                self.ev("ret", "get", c, st="ok", res=[said(r[x]) for x in names])
            else:
                self.ev("ret", "get", c, st="ok")
                for x in dict.fromkeys(names):
                    self.watch(f"{c}/{x}", r[x])
        self.call(th, go)

    def do_fcancel(self, th, i):
        def go():
            names = [n for n, f in self.futures.items() if not f.done()] or list(self.futures)
            if not names:
                return
            n = names[i % len(names)]
            self.ev("ucancel", id=n)
            if not self.futures[n].cancel():
                self.ev("ucancel", id=n, n=1)
        self.call(th, go)

    def do_disconnect(self, th):
        def go():
            self.ev("call", "disconnect")
            self.client.disconnect()
            self.ev("ret", "disconnect")
        self.call(th, go)

    # ------------------------------------------------------------ what the scheduler does
    def say(self, m):
        for (a, i, d), x in self.net.links.items():
            if d == "down":
                x.put(wire.encode(m))

    def do_serve(self, n=1, how="SubmitOK"):
        """look at the next messages"""
        for _ in range(n):
            if not self.todo:
                return
            try:
                m = wire.decode(self.todo.pop(0))
            except wire.WireError:
                continue
            k = m["k"]
            if k == "FunctionRequest":
                st = "Duplicated" if m["id"] in self.held else "OK"
                self.held.add(m["id"])
                self.say({"k": "FunctionResponse", "st": st, "id": m["id"], "name": b"", "body": b""})
            elif k == "Task":
                st = how if m["fn"] in self.held else "FunctionNotExists"
                self.say({"k": "TaskEcho", "id": m["id"], "st": st})
                if st == "SubmitOK":
                    self.open.append(m["id"])
                elif st == "FunctionNotExists":
                    self.held.discard(m["fn"])
            elif k == "TaskCancel":
                if m["id"] in self.open:
                    self.open.remove(m["id"])
                    self.say({"k": "TaskResult", "id": m["id"], "st": "Canceled", "dur": 0.0, "body": b""})
            elif k == "GraphTask":
                g = self.graphs.get(self.gid.get(m["id"]))
                if g is None:
                    continue
                for f in g["fns"]:
                    st = "Duplicated" if f in self.held else "OK"
                    self.held.add(f)
                    self.say({"k": "FunctionResponse", "st": st, "id": f, "name": b"", "body": b""})
                for t in g["nodes"]:
                    self.say({"k": "TaskEcho", "id": t, "st": "SubmitOK"})
                self.gopen.append(m["id"])
            elif k == "GraphTaskCancel" and m["id"] in self.gopen:
                self.gopen.remove(m["id"])

    def do_forget(self, f=None):
        """the scheduler drops functions"""
        fs = [x for x in self.held if f is None or self.fid.get(x) == f]
        self.held.difference_update(fs)

    def payload(self, name, st, what=None):
        if st == "badret":
            return "Success", pickle.dumps(BadLoad(name))
        if st == "badexc":
            return "Failed", pickle.dumps(BadLoad(name))
        if st == "Failed":
            return st, pickle.dumps(error(what, "e." + name))
        if st == "Success":
            return st, pickle.dumps(value(what, "r." + name))
        return st, b""

    def do_result(self, i, st="Success", what=None):
        if self.open:
            t = self.open.pop(i % len(self.open))
            self.past.append(t)
            status, body = self.payload(self.tid[t], st, what)
            self.say({"k": "TaskResult", "id": t, "st": status, "dur": 0.5, "body": body})

    def do_gresult(self, i, st="Success", what=None):
        if self.gopen:
            g = self.gopen.pop(i % len(self.gopen))
            self.past.append(g)
            info = self.graphs[self.gid[g]]
            if st in ("Success", "badret"):
                res = [pickle.dumps(v) for v in info["vals"]]
                if st == "badret" and res:
                    res[self.rng.randrange(len(res))] = pickle.dumps(BadLoad("g"))
                st = "Success"
            else:
                st, body = self.payload(self.gid[g], st, what)
                res = [body]
            self.say({"k": "GraphTaskResult", "id": g, "st": st, "results": res})

    def do_stray(self, kind, i=0):
        """messages about nothing the client waits for"""
        t = self.past[i % len(self.past)] if self.past and i % 3 else b"nosuchid"
        g = t if t in self.gid else b"nosuchgraph"
        if t in self.gid:
            t = b"nosuchid"
        f = self.rng.choice(sorted(self.fid)) if self.fid and i % 2 else b"nosuchfn"
        if kind == "result":
            self.say({"k": "TaskResult", "id": t, "st": "Success", "dur": 0.0, "body": pickle.dumps("stray")})
        elif kind == "failed":
            self.say({"k": "TaskResult", "id": t, "st": "Failed", "dur": 0.0, "body": pickle.dumps(UserError("stray"))})
        elif kind == "echo":
            self.say({"k": "TaskEcho", "id": t, "st": self.rng.choice(["SubmitOK", "FunctionNotExists", "NoWorker", "Duplicated"])})
        elif kind == "graph":
            self.say({"k": "GraphTaskResult", "id": g, "st": "Success", "results": [pickle.dumps("stray")] * 2})
        elif kind == "fn" and f in self.held | {b"nosuchfn"}:
            self.say({"k": "FunctionResponse", "st": "OK", "id": f, "name": b"", "body": b""})

    def do_drain(self, n=0):
        """answer everything"""
        for _ in range(60):
            self.settle()
            if not (self.todo or self.open or self.gopen) or self.over:
                break
            self.do_serve(len(self.todo))
            while self.open:
                self.do_result(self.rng.randrange(9))
            while self.gopen:
                self.do_gresult(0)

    def close(self):
        for t in self.proc.threads:
            t.kill()
        self.world.close()


def run_schedule(sch):
    sim = ClientSim(sch["cfg"])
    try:
        sim.run_steps(sch["steps"])
        return {"cfg": {"threads": sch["cfg"]["threads"]}, "ev": list(sim.events)}
    finally:
        sim.close()


def hung(sch):
    r = {"e": "livelock", "k": "", "id": ""}
    r.update(MISC)
    return {"cfg": {"threads": 1}, "ev": [r]}
