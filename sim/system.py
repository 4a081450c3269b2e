"""Everything together: the real scheduler, several real workers and several real clients in one simulated world.

Users' calls, the resolution of their futures, the start and end of user functions and the end of components are
recorded; spec/TraceSystem.tla judges the recording.  Faults: workers crash, fall silent (and come back), leave, join;
clients disconnect, crash, join.  Components are scheduled unevenly; every connection delays its messages at will.
"""
import random
import signal
import tempfile

from . import client, env, wire, worker  # noqa
from .host import FakePopen, Host, SimProcess, agent_thread, kick, step_ready
from .kernel import World
from .userfn import F, literal, text

LOCKS = True
ADDR = "tcp://sched:1"
QUIET = 9
MISC = {"k": "", "id": "", "w": "", "c": "", "x": "", "st": "", "val": "", "n": 0, "futs": [], "need": [], "res": [],
        "ws": [], "tasks": []}


def prepare():
    worker.prepare()
    client.prepare()
    import scaled.scheduler.main  # noqa


class SchedulerProcess:
    def __init__(self, cfg):
        self.cfg = cfg

    def run(self):
        import asyncio
        from scaled.scheduler.main import scheduler_main
        from scaled.utility.zmq_config import ZMQConfig
        c = self.cfg
        asyncio.get_event_loop().run_until_complete(scheduler_main(
            address=ZMQConfig.from_string(ADDR), io_threads=1, max_number_of_tasks_waiting=-1,
            per_worker_queue_size=c["limit"], worker_timeout_seconds=c["wto"], function_retention_seconds=c["fret"],
            load_balance_seconds=1 if c["lb"] else 0, load_balance_trigger_times=c["trig"]))


class User:
    """a process that uses a client"""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.queue = []
        self.n = 0
        self.client = None
        self.gone = False
        self.fns = {}
        self.calm = False
        self.proc = SimProcess(sim.world, name, self, sim, None)
        self.thread = self.proc.threads[0]

    def run(self):
        from scaled.client import Client
        self.client = Client(ADDR)
        me = self.sim.world.me()
        while True:
            me.yield_("wait", pred=lambda: bool(self.queue))
            self.queue[0]()
            self.queue.pop(0)
            self.sim.world.touch()

    def fn(self, name):
        return self.fns.setdefault(name, F(name))


class SystemSim(Host):
    def __init__(self, cfg):
        self.cfg = cfg
        self.rng = random.Random(cfg["seed"])
        world = World()
        World.current = world
        from .fakezmq import Net
        super().__init__(world)
        world.fn_host = self
        self.net = Net(world, auto=False)
        self.net.pair_auto = not cfg.get("pipe")
        if cfg.get("pipe"):
            self.net.late_notice = lambda: self.rng.random() < .5
        self.net.scratch = worker.SCRATCH
        self.net.on_publish = self._on_publish
        self.events = []
        self.calls = []
        self.status = None
        self.trace_files = None
        self.calm = False
        self.weights = {}
        self.workers = {}  # name -> process
        self.names = {}  # process -> name of worker
        self.silent = set()
        self.users = {}
        self.futures = {}
        self.over = False
        self.ended = set()
        self.calls_open = set()
        self.crashing = set()
        self.sched = SimProcess(world, "Scheduler", SchedulerProcess(cfg), self, None)
        self.sched.threads[0].fn = agent_thread(world, self.sched.obj.run)
        self.settle(idle=False)
        for _ in range(cfg["workers"]):
            self.do_join()
        for _ in range(cfg["clients"]):
            self.do_user()
        self.settle()

    # ------------------------------------------------------------ set-up
    def tracing(self, proc, name):
        if not self.cfg.get("preempt") or name in ("Agent", "Scheduler"):
            return (None, None)
        if self.trace_files is None:
            import scaled.client as a
            import scaled.io.sync_connector as b
            import scaled.worker.agent.processor.processor as c
            self.trace_files = {a.__file__, b.__file__, c.__file__}
        return (self.trace_files, lambda frame: not self.calm and self.rng.random() < self.cfg["preempt"])

    def ev(self, e, **kw):
        r = {"e": e}
        r.update(MISC)
        r.update(kw)
        self.events.append(r)
        self.world.touch()

    def do_join(self):
        from scaled.protocol.python.serializer.default import DefaultSerializer
        from scaled.utility.zmq_config import ZMQConfig
        from scaled.worker.worker import Worker
        c = self.cfg
        if len(self.workers) >= 5:
            return
        w = Worker(event_loop="builtin", address=ZMQConfig.from_string(ADDR), heartbeat_interval_seconds=c["hb"],
                   garbage_collect_interval_seconds=1 << 20, trim_memory_threshold_bytes=1 << 40,
                   serializer=DefaultSerializer(), function_retention_seconds=c["wfret"], death_timeout_seconds=c["death"])
        name = f"w{len(self.workers) + 1}"
        p = SimProcess(self.world, "Agent", w, self, None)
        p.threads[0].fn = agent_thread(self.world, w.run)
        w._popen = FakePopen(p)
        self.workers[name] = p
        self.names[p] = name
        self.weigh(p)
        self.ev("join", w=name)

    def do_user(self):
        if len(self.users) >= 4:
            return
        name = f"c{len(self.users) + 1}"
        u = self.users[name] = User(self, name)
        self.weigh(u.proc)

    def weigh(self, p):
        self.weights[p] = self.rng.choice([1, 1, .2, .03]) if self.cfg.get("uneven") else 1

    # ------------------------------------------------------------ recording
    def _on_publish(self, sock, frames):
        import json
        try:
            m = wire.decode(frames)
            if m["k"] == "SchedulerState":
                self.status = json.loads(m["body"])
        except Exception:
            self.ev("bad")

    def worker_of(self, proc):
        return self.names.get(proc if proc in self.names else proc.parent, "?")

    def on_call(self, me, fn, args, kwargs):
        p = me.user["process"]
        x = fn + "(" + ",".join(map(text, args)) + ")"
        call = {"x": x, "proc": p, "fn": fn, "w": self.worker_of(p)}
        self.calls.append(call)
        self.ev("start", w=call["w"], x=x)
        return call

    def on_return(self, me, call):
        self.calls.remove(call)
        self.ev("end", w=call["w"], x=call["x"], st=call["end"])

    def on_kill(self, proc, sig):
        self.end_process(proc, -sig)

    def end_process(self, proc, code, keep=None):
        """a process ends; what it wrote last may or may not have left it"""
        if proc.exitcode is not None:
            return
        for c in [c for c in self.calls if c["proc"] is proc]:
            self.calls.remove(c)
            self.ev("killed", w=c["w"], x=c["x"])
        for s in proc.sockets():
            if s.up is not None and not s.up.auto:
                n = len(s.up.queue)
                n = self.rng.randint(0, n) if keep is None else n if keep else 0
                if s.type == 0:  # PAIR: goes now or never
                    for _ in range(n):
                        s.up.deliver()
                    s.up.queue.clear()
                else:
                    while len(s.up.queue) > n:
                        s.up.queue.pop()
        self.world.touch()
        proc.die(code)

    # ------------------------------------------------------------ driving
    def all_procs(self):
        return [self.sched, *self.workers.values(), *self.procs, *(u.proc for u in self.users.values())]

    def threads(self):
        return [t for p in self.all_procs() if p.exitcode is None for t in p.threads if not t.done]

    def step_thread(self, t):
        t.step()
        if not t.done:
            return
        p = t.user["process"]
        crash = "crash" if t.exc is not None else "ok"
        why = repr(t.exc)[:120] if t.exc is not None else ""
        if p is self.sched:
            self.over = True
            self.ev("exit", k="scheduler", st=crash, val=why)
        elif p in self.names:
            if t is p.threads[0] and p not in self.ended:
                self.ended.add(p)
                left = [q for q in self.procs if q.parent is p and q.alive]
                self.ev("exit", k="worker", w=self.names[p], st=crash, val=why, n=len(left))
                for q in left:  # orphans
                    self.end_process(q, -9)
                self.end_process(p, 0, keep=True)
        elif p.parent in self.names:
            if t is p.threads[0]:
                self.ev("exit", k="processor", w=self.worker_of(p), st=crash, val=why)
            else:
                self.world.touch()
        else:
            u = self.users[p.name]
            if t is u.thread:
                self.ev("exit", k="user", c=u.name, st=crash, val=why)
            else:
                self.ev("exit", k="client", c=u.name, st=crash, val=why)

    def owner(self, link_ident):
        for s in self.net.sockets:
            if s.ident == link_ident and s.owner is not None:
                return s.owner.user["process"]
        return None

    def links(self):
        """connections with messages on their way that may arrive now"""
        out = []
        for (a, ident, d), x in list(self.net.links.items()):
            if a == ADDR and x.queue and (not self.silent or self.names.get(self.proc_of(ident)) not in self.silent):
                out.append(x)
        return out

    idents = None

    def proc_of(self, ident):
        if self.idents is None:
            self.idents = {}
        if ident not in self.idents:
            self.idents[ident] = self.owner(ident)
        return self.idents[ident]

    def pipes(self):
        return [s.up for p in [*self.workers.values(), *self.procs] if p.alive for s in p.sockets()
                if s.type == 0 and s.up is not None and not s.up.auto and s.up.queue]

    def do_c(self, n):
        for _ in range(n):
            ready = step_ready(self.world, self.threads())
            w = [self.weights.get(self.root(t.user["process"]), 1) for t in ready]
            ready += self.links() + self.pipes() + self.net.zombies
            w += [1] * (len(ready) - len(w))
            if not ready:
                return
            x = self.rng.choices(ready, w)[0]
            if x in self.net.zombies:
                self.net.notice(x)
            elif hasattr(x, "deliver"):
                x.deliver()
            else:
                self.step_thread(x)

    def root(self, p):
        return p.parent if p.parent in self.names else p

    def settle(self, idle=True):
        quiet = nudges = 0
        for r in range(4000):
            a = self.world.activity
            self.calm = r > 80
            for link in self.links() + self.pipes():
                link.flush()
            for p in list(self.net.zombies):
                if self.rng.random() < .5:
                    self.net.notice(p)
                else:
                    self.world.touch()
            lines = False
            for t in step_ready(self.world, self.threads()):
                if not t.done and t.user["process"].alive:
                    self.step_thread(t)
                    lines = lines or t.reason == "line"
            if a != self.world.activity or lines:
                quiet = nudges = 0
                continue
            quiet += 1
            if quiet >= QUIET or quiet >= 3 and nudges:
                if nudges == 2:
                    break
                nudges += 1
                quiet = 0
                self.world.now += .06  # polls with short timeouts
        else:
            self.ev("livelock")
            self.over = True
            return
        self.calm = False
        if idle and not self.over:
            self.ev("idle", ws=sorted(self.silent))

    def do_settle(self):
        self.settle()

    def do_tick(self, n=1):
        for _ in range(n):
            self.settle()
            if self.over:
                return
            self.world.now += 1
        self.settle()

    def run_steps(self, steps):
        for s in steps:
            if self.over:
                break
            getattr(self, "do_" + s[0])(*s[1:])
        return self

    # ------------------------------------------------------------ faults
    def pick(self, i, among=None):
        lst = [w for w, p in self.workers.items() if p.alive and (among is None or w in among)]
        if isinstance(i, str):
            return i if i in lst else None
        return lst[i % len(lst)] if lst else None

    def do_crash(self, i):
        w = self.pick(i)
        if w is None:
            return
        p = self.workers[w]
        self.ended.add(p)
        self.silent.discard(w)
        self.ev("crash", w=w)
        for q in [q for q in self.procs if q.parent is p]:
            self.end_process(q, -9)
        self.end_process(p, -9)

    def do_silence(self, i):
        w = self.pick(i)
        if w is not None and w not in self.silent:
            self.silent.add(w)
            self.ev("silent", w=w)

    def do_heal(self, i):
        w = self.pick(i, self.silent)
        if w is not None:
            self.silent.discard(w)
            self.ev("heal", w=w)

    def do_leave(self, i):
        w = self.pick(i)
        if w is None:
            return
        t = self.workers[w].threads[0]
        loop = t.user.get("loop")
        cb = loop.sim_signals.get(signal.SIGINT) if loop else None
        self.ev("leave", w=w)
        if cb is not None:
            loop.call_soon(cb[0], *cb[1])
            kick(t)
        elif not t.started:  # a signal before the handler is there ends the process
            self.do_crash(list(self.workers).index(w))

    # ------------------------------------------------------------ users
    def user(self, i):
        lst = [u for u in self.users.values() if not u.gone]
        if isinstance(i, str):
            return next((u for u in lst if u.name == i), None)
        return lst[i % len(lst)] if lst else None

    def call(self, u, fn):
        u.queue.append(fn)
        self.world.touch()

    def watch(self, name, fut):
        self.futures[name] = fut
        fut.add_done_callback(lambda f: self.ev(
            "done", id=name, val="cancelled" if f.cancelled() else client.outcome(lambda: f.result(0))))

    def do_submit(self, i, f, nargs=1, times=1):
        u = self.user(i)
        for _ in range(times if u else 0):
            u.n += 1
            self._submit(u, f"{u.name}s{u.n}", f, nargs)

    def _submit(self, u, c, f, nargs):
        args = [f"{c}.a{j}" for j in range(max(1, nargs))]
        x = f + "(" + ",".join(args) + ")"

        def go():
            self.ev("call", k="submit", c=u.name, id=c, futs=[[c, x]], need=[x])
            try:
                fut = u.client.submit(u.fn(f), *args)
            except Exception as e:
                self.ev("ret", k="submit", c=u.name, id=c, st="raised", val=type(e).__name__)
            else:
                self.ev("ret", k="submit", c=u.name, id=c, st="ok")
                self.watch(c, fut)
        self.call(u, go)

    def do_map(self, i, f, n):
        u = self.user(i)
        if u is None:
            return
        u.n += 1
        c = f"{u.name}m{u.n}"
        xs = [f"{f}({c}.{j})" for j in range(n)]

        def go():
            self.ev("call", k="map", c=u.name, id=c, futs=[[f"{c}.{j}", x] for j, x in enumerate(xs)], need=xs)
            try:
                r = u.client.map(u.fn(f), [(f"{c}.{j}",) for j in range(n)])
            except Exception as e:
                self.ev("ret", k="map", c=u.name, id=c, st="raised", val=client.outcome(client.ClientSim._raiser(e)))
            else:
                self.ev("ret", k="map", c=u.name, id=c, st="ok", res=["v:" + v if isinstance(v, str) else "?" for v in r])
        self.call(u, go)

    def do_get(self, i, shape, keys, block=False):
        u = self.user(i)
        if u is None:
            return
        u.n += 1
        c = f"{u.name}g{u.n}"
        data, nodes = {}, {}
        for j, (f, args) in enumerate(shape):
            args = args or [-1]  # every node tells which graph it is of
            for a in args:
                if a < 0:
                    data.setdefault(f"d{-a}", literal(self.rng, f"{c}.d{-a}"))
            nodes[f"n{j}"] = (u.fn(f), *(f"d{-a}" if a < 0 else f"n{a}" for a in args))
        xs = {}

        def value(j):
            if j not in xs:
                f, args = shape[j]
                xs[j] = f + "(" + ",".join(text(data[f"d{-a}"]) if a < 0 else value(a) for a in args or [-1]) + ")"
            return xs[j]
        for j in range(len(shape)):
            value(j)
        items = [*data.items(), *nodes.items()]
        self.rng.shuffle(items)
        graph = dict(items)
        keys = list(dict.fromkeys(keys))
        names = [f"n{k}" for k in keys]

        def go():
            self.ev("call", k="get", c=u.name, id=c, futs=[[f"{c}/n{k}", xs[k]] for k in keys], need=list(xs.values()),
                    n=1 if block else 0)
            try:
                r = u.client.get(graph, names, block=block)
            except Exception as e:
                self.ev("ret", k="get", c=u.name, id=c, st="raised", val=client.outcome(client.ClientSim._raiser(e)))
                return
            if set(r) != set(names):
                self.ev("bad")
            elif block:
                self.ev("ret", k="get", c=u.name, id=c, st="ok",
                        res=["v:" + r[k] if isinstance(r[k], str) else "?" for k in names])
            else:
                self.ev("ret", k="get", c=u.name, id=c, st="ok")
                for k in names:
                    self.watch(f"{c}/{k}", r[k])
        self.call(u, go)

    def do_fcancel(self, i):
        names = [n for n, f in self.futures.items() if not f.done()]
        if names:
            n = names[i % len(names)]
            u = self.users[n.split("s")[0].split("g")[0]]
            if not u.gone:
                def go():
                    self.ev("ucancel", id=n)
                    self.futures[n].cancel()
                self.call(u, go)

    def do_disconnect(self, i):
        u = self.user(i)
        if u is None:
            return

        def go():
            self.ev("call", k="disconnect", c=u.name, id="")
            u.client.disconnect()
            self.ev("ret", k="disconnect", c=u.name, id="")
        self.call(u, go)
        if self.rng.random() < .8:
            u.gone = True

    def do_lose(self, i):
        """a client's process crashes"""
        u = self.user(i)
        if u is not None:
            u.gone = True
            self.ev("lost", c=u.name)
            self.end_process(u.proc, -9)

    # ------------------------------------------------------------ functions
    def do_finish(self, i, kind="ret"):
        if self.calls:
            c = self.calls[i % len(self.calls)]
            if c.get("end") is None:
                c["val"] = c["x"] if kind == "ret" else "e." + c["x"]
                c["end"] = kind
                self.world.touch()

    def do_finishall(self, kind="ret"):
        for i in range(len(self.calls)):
            self.do_finish(i, kind)

    def do_finishx(self, x, kind="ret"):
        """the invocation of x ends, as soon as it has started"""
        for _ in range(12):
            for i, c in enumerate(self.calls):
                if c["x"] == x and c.get("end") is None:
                    return self.do_finish(i, kind)
            self.do_c(20)

    def pending(self):
        """calls in progress and futures without an outcome, of users that are still there"""
        return any(u.queue for u in self.users.values() if u.proc.alive and not u.thread.done) or \
            any(not f.done() for n, f in self.futures.items() if self.users[n.split("s")[0].split("g")[0]].proc.alive)

    def do_drain(self):
        """everyone comes back, every function returns; then nothing may be left"""
        for w in list(self.silent):
            self.silent.discard(w)
            self.ev("heal", w=w)
        idle = 0
        for _ in range(80):
            self.settle()
            if self.over:
                return
            if self.calls:
                self.do_finishall()
                idle = 0
            elif not self.pending() and idle > self.cfg["wto"] + 2:
                break
            else:
                if not any(p.alive for p in self.workers.values()):
                    if len(self.workers) >= 5:
                        return
                    self.do_join()
                idle += 1
                if idle > 30:
                    break
                self.world.now += 1
        self.settle()
        if self.over:
            return
        self.status = None
        for _ in range(3):
            self.world.now += 1
            self.settle()
            if self.over:
                return
        try:
            s = self.status
            t = s["task_manager"]
            self.ev("rest", tasks=[int(t["unassigned"]), int(t["running"])],
                    res=[[int(x["free"]), int(x["sent"])] for x in s["worker_manager"]],
                    need=[int(n) for n in s["client_manager"].values()],
                    ws=[w for w, p in self.workers.items() if p.alive])
        except Exception:
            self.ev("bad")

    def close(self):
        for p in self.all_procs():
            for t in p.threads:
                t.kill()
        self.world.close()
        for p in self.all_procs():
            loop = p.threads[0].user.get("loop")
            if loop is not None and not loop.is_closed():
                try:
                    loop.close()
                except Exception:
                    pass


def run_schedule(sch):
    sim = SystemSim(sch["cfg"])
    try:
        sim.run_steps(sch["steps"])
        return {"cfg": {"limit": sch["cfg"]["limit"]}, "ev": list(sim.events)}
    finally:
        sim.close()


def hung(sch):
    r = {"e": "livelock"}
    r.update(MISC)
    return {"cfg": {"limit": 1}, "ev": [r]}
