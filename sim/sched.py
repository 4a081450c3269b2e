"""The real Scheduler under modelled clients and workers.

A schedule is a configuration plus a list of abstract steps; the interpreter resolves each step against what the
modelled peers currently know (so a schedule stays meaningful whatever the real scheduler decided) and records every
message exchanged.  The recording is judged by spec/TraceScheduler.tla.
"""
import asyncio
import json

from . import env, wire
from .kernel import SimLoop, World, _FakeSelector

ADDR = "tcp://sched:1"
QUIET = 14  # loop cycles without any message before the scheduler counts as idle


class Stepper:
    """drives an asyncio loop cycle by cycle in the calling thread"""

    def __init__(self, world):
        self.loop = SimLoop(world)
        self.loop.set_exception_handler(lambda loop, ctx: None)
        self.task = None

    def start(self, coro):
        asyncio.set_event_loop(self.loop)
        asyncio._set_running_loop(self.loop)
        try:
            self.task = self.loop.create_task(coro)
        finally:
            asyncio._set_running_loop(None)

    def cycle(self):
        asyncio._set_running_loop(self.loop)
        try:
            self.loop._run_once()
        finally:
            asyncio._set_running_loop(None)

    @property
    def died(self):
        return self.task.done()

    def close(self):
        asyncio._set_running_loop(self.loop)
        try:
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            for _ in range(4):
                self.loop._run_once()
            if self.task.done() and not self.task.cancelled():
                self.task.exception()
        except Exception:
            pass
        finally:
            asyncio._set_running_loop(None)
        self.loop.close()
        asyncio.set_event_loop(None)


def txt(b):
    if isinstance(b, str):
        return b
    return bytes(b).decode("latin1")


def event(e, p, m):
    """uniform event record for the specification"""
    k = m["k"]
    r = {"e": e, "p": p, "k": k, "id": "", "st": "", "n": 0, "body": "", "name": "", "xs": []}
    for f in ("id", "st", "body", "name"):
        if f in m:
            r[f] = txt(m[f])
    if k == "Heartbeat":
        r["info"] = beat(m["info"])
    if k == "Task":
        r["fn"] = txt(m["fn"])
        r["args"] = [[t, txt(v)] for t, v in m["args"]]
    elif k == "TaskResult":
        r["n"] = int(round(m["dur"] * 1000))
    elif k == "BalanceRequest":
        r["n"] = m["n"]
    elif k == "BalanceResponse":
        r["ids"] = [txt(i) for i in m["ids"]]
    elif k == "GraphTask":
        r["functions"] = [[txt(a), txt(b), txt(c)] for a, b, c in m["functions"]]
        r["targets"] = [txt(t) for t in m["targets"]]
        r["nodes"] = [[txt(n["id"]), txt(n["fn"]), [[t, txt(v)] for t, v in n["args"]]] for n in m["nodes"]]
    elif k == "GraphTaskResult":
        r["xs"] = [txt(x) for x in m["results"]]
    elif k == "GraphTaskState":
        r["g"] = txt(m["g"])
        r["xs"] = [txt(x) for x in m["parents"]]
    return r


def beat(i):
    """what a heartbeat says about its worker, as the status report shows it"""
    return [str(int(i[0])), str(int(i[1])), str(int(i[2])), str(int(i[3])), str(int(i[4])), str(int(i[5])),
            "".join(str(int(bool(x))) for x in i[6:9])]


def shown(x):
    return [str(round(x["agt_cpu"] * 1000)), str(int(x["agt_rss"])), str(round(x["cpu"] * 1000)), str(int(x["rss"])),
            str(int(x["queued"])), str(int(x["lag"])), str(x["ITL"])]


def status_event(body, scale=1):
    """the JSON status report as a record; anything unreadable becomes a value no correct report has"""
    bad = {"e": "stat", "tasks": [-1] * 6, "clients": [], "funcs": [], "workers": [], "about": [], "received": [], "sent": []}
    try:
        d = json.loads(body)
        t = d["task_manager"]
        return {
            "e": "stat",
            "tasks": [int(t[x]) for x in ("unassigned", "running", "success", "failed", "canceled", "not_found")],
            "clients": [[str(c), int(n)] for c, n in d["client_manager"].items()],
            "funcs": [[str(c), int(n)] for c, n in d["function_manager"].items()],
            "workers": [[str(x["worker"]), int(x["free"]), int(x["sent"])] for x in d["worker_manager"]],
            "about": [[str(x["worker"]), int(x["last"] * 10 / scale), shown(x)] for x in d["worker_manager"]],
            "received": [[str(c), int(n)] for c, n in d["binder"]["received"].items()],
            "sent": [[str(c), int(n)] for c, n in d["binder"]["sent"].items()],
        }
    except Exception:
        return bad


class WorkerModel:
    def __init__(self, name):
        self.name = name
        self.alive = True  # heartbeats on ticks
        self.held = []  # task ids received and not yet answered, in arrival order
        self.running = None
        self.cancels = []  # cancel requests not answered yet
        self.balance = []  # balance requests not answered yet
        self.past = []  # answered before (for late repeats)
        self.connected = False
        self.left = False


class SchedSim:
    scale = 1  # seconds of the scheduler per second of the schedule

    def __init__(self, cfg):
        """cfg: limit, maxwait, wto, fret (tenths of seconds), lb, trig"""
        self.cfg = cfg
        self.world = World()
        World.current = self.world
        from .fakezmq import Net
        self.net = Net(self.world)
        self.net.on_send = self._on_send
        self.net.on_recv = self._on_recv
        self.events = []
        self.t0 = self.world.now
        self.dead = False
        self.clients = {}
        self.workers = {}
        self.tasks = {}  # task id -> dict(client, fn, state)
        self.order = []  # submitted task ids
        self.graphs = {}
        self.gorder = []
        self.n = 0
        self.functions = {}
        self.step = Stepper(self.world)

        self.launch()
        self.settle()

    def launch(self):
        from scaled.scheduler.main import scheduler_main
        from scaled.utility.zmq_config import ZMQConfig
        self.step.start(self._main(scheduler_main, ZMQConfig.from_string(ADDR)))

    async def _main(self, scheduler_main, address):
        c = self.cfg
        await scheduler_main(
            address=address, io_threads=1, max_number_of_tasks_waiting=c["maxwait"], per_worker_queue_size=c["limit"],
            worker_timeout_seconds=c["wto"] / 10, function_retention_seconds=c["fret"] / 10,
            load_balance_seconds=1 if c["lb"] else 0, load_balance_trigger_times=c["trig"])

    # ------------------------------------------------------------ recording
    def _on_send(self, sock, frames):
        import zmq
        try:
            if sock.type == zmq.PUB:
                m = wire.decode(frames)
                if m["k"] == "SchedulerState":
                    self.events.append(status_event(m["body"], self.scale))
                else:
                    self.events.append(event("pub", "", m))
            else:
                m = wire.decode(frames[1:])
                self.events.append(event("send", txt(frames[0]), m))
        except wire.WireError:
            self.events.append({"e": "bad"})

    def _on_recv(self, sock, frames):
        try:
            self.events.append(event("recv", txt(frames[0]), wire.decode(frames[1:])))
        except wire.WireError:
            pass  # garbage from the harness: no effect in the specification

    # ------------------------------------------------------------ driving
    def cycles(self, n):
        for _ in range(n):
            if self.dead:
                return
            self.step.cycle()
            if self.step.died:
                self.dead = True
                self.events.append({"e": "died"})

    def settle(self):
        """run until idle; lets short timers fire as well"""
        for _ in range(400):
            quiet = 0
            while quiet < QUIET and not self.dead:
                a = self.world.activity
                self.cycles(1)
                quiet = quiet + 1 if a == self.world.activity else 0
            if self.dead:
                return
            # short timers: a fifth of a second may pass, as long as the next full second is not reached
            t = round((self.world.now - self.t0) * 10 / self.scale)
            if t % 10 >= 6:
                break
            a = self.world.activity
            self._clock(t + 2)
            self.cycles(4)
            if a == self.world.activity:
                break
        else:
            self.dead = True
            self.events.append({"e": "died"})
            return
        self.events.append({"e": "idle"})

    def _clock(self, t):
        self.world.now = self.t0 + t * self.scale / 10
        self.events.append({"e": "clock", "now": t})

    def tick(self):
        self.settle()
        if self.dead:
            return
        t = round((self.world.now - self.t0) * 10 / self.scale)
        t = (t // 10 + 1) * 10
        self.world.now = self.t0 + t * self.scale / 10
        self.events.append({"e": "adv", "now": t})
        self.settle()

    def say(self, who, m):
        if not self.dead:
            self.net.inject(ADDR, [who.encode("latin1"), *wire.encode(m)])

    def raw(self, who, frames):
        if not self.dead:
            self.net.inject(ADDR, [who.encode("latin1"), *frames])

    # ------------------------------------------------------------ peers
    def client(self, name):
        if name not in self.clients:
            self.clients[name] = {"acks": {}, "results": {}}
            self.net.add_peer(ADDR, name.encode("latin1"), lambda fr, name=name: self._client_msg(name, fr))
        return self.clients[name]

    def _client_msg(self, name, frames):
        try:
            m = wire.decode(frames)
        except wire.WireError:
            return
        if m["k"] == "TaskEcho":
            t = self.tasks.get(txt(m["id"]))
            if t is not None:
                t["echo"] = m["st"]
        elif m["k"] == "TaskResult":
            t = self.tasks.get(txt(m["id"]))
            if t is not None:
                t["done"] = True
        elif m["k"] == "GraphTaskResult":
            g = self.graphs.get(txt(m["id"]))
            if g is not None:
                g["done"] = True

    def worker(self, name):
        if name not in self.workers:
            self.workers[name] = WorkerModel(name)
            self.net.add_peer(ADDR, name.encode("latin1"), lambda fr, name=name: self._worker_msg(name, fr))
        return self.workers[name]

    def _worker_msg(self, name, frames):
        w = self.workers[name]
        try:
            m = wire.decode(frames)
        except wire.WireError:
            return
        k = m["k"]
        if k == "Task":
            t = txt(m["id"])
            if t not in w.held:
                w.held.append(t)
        elif k == "TaskCancel":
            w.cancels.append(txt(m["id"]))
        elif k == "BalanceRequest":
            w.balance.append(m["n"])

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def heartbeat(self, w, busy=False):
        w.connected = True
        self.say(w.name, {"k": "Heartbeat",
                          "info": (self.n % 251, self.n << 20, self.n % 7 * 100, (len(w.held) + 3) << 21,
                                   max(0, len(w.held) - 1), len(self.events) % 977, self.n % 5 > 0, bool(w.held),
                                   self.n % 3 == 0)})

    def finish_task(self, w, t, st, body=None):
        if t in w.held:
            w.held.remove(t)
        w.past.append((t, st))
        if body is None:  # mostly tell-tale, sometimes empty or the same for different tasks
            body = {4: "", 5: "same"}.get(sum(t.encode()) % 9 if self.cfg.get("odd") else 0, f"{st[0].lower()}:{t}")
        self.say(w.name, {"k": "TaskResult", "id": t.encode(), "st": st, "dur": (self.n % 7) / 8,
                          "body": body.encode() if st in ("Success", "Failed") else b""})

    # ------------------------------------------------------------ abstract steps
    def run(self, steps):
        for s in steps:
            if self.dead:
                break
            getattr(self, "do_" + s[0])(*s[1:])
        return self

    def do_c(self, n):  # some loop cycles
        self.cycles(n)

    def do_settle(self):
        self.settle()

    def do_tick(self, beat=True):
        """a second passes; live workers heartbeat first"""
        self.settle()
        if beat:
            for w in self.workers.values():
                if w.alive and w.connected:
                    self.heartbeat(w)
        self.tick()

    def do_hb(self, w):
        w = self.worker(w)
        w.alive = True
        w.left = False
        self.heartbeat(w)

    def do_mute(self, w):  # falls silent, keeps its tasks
        self.worker(w).alive = False

    def do_leave(self, w, other=False):
        w = self.worker(w)
        if not w.connected:
            return
        w.alive = False
        w.connected = False
        w.held.clear()
        w.cancels.clear()
        w.balance.clear()
        self.say(w.name if not other else "ctl", {"k": "DisconnectRequest", "id": w.name.encode("latin1")})

    def do_reset(self, w):  # the worker process restarted under the same name: it lost everything
        w = self.worker(w)
        w.held.clear()
        w.cancels.clear()
        w.balance.clear()

    def do_fn(self, c, f, what="Add", name=None):
        self.client(c)
        m = {"k": "FunctionRequest", "st": what, "id": f.encode(), "name": b"", "body": b""}
        if what == "Add":
            m["name"] = (name or f"name_{f}").encode()
            m["body"] = self.code(f)
        self.say(c, m)

    def code(self, f):
        return b"" if self.cfg.get("odd") and f == "f2" else f"code_{f}".encode()

    def data(self, x):
        return b"" if self.cfg.get("odd") and self.n % 5 == 3 else x.encode()

    def do_wfn(self, w, f):
        self.worker(w)
        self.say(w, {"k": "FunctionRequest", "st": "Request", "id": f.encode(), "name": b"", "body": b""})

    def do_submit(self, c, f, nargs=1):
        self.client(c)
        t = self.fresh("t")
        self.tasks[t] = {"c": c, "fn": f}
        self.order.append(t)
        self.say(c, {"k": "Task", "id": t.encode(), "fn": f.encode(),
                     "args": [("D", self.data(f"{t}.a{i}")) for i in range(nargs)]})

    def _pick(self, lst, i):
        return lst[i % len(lst)] if lst else None

    def do_cancel(self, i, who=None, state=None):
        """cancel the i-th submitted task (state: None any, 'open' not answered, 'done' answered)"""
        lst = [t for t in self.order if state is None or bool(self.tasks[t].get("done")) == (state == "done")]
        t = self._pick(lst, i)
        if t is None:
            return
        c = who or self.tasks[t]["c"]
        self.client(c)
        self.say(c, {"k": "TaskCancel", "id": t.encode()})

    def do_cancel_unknown(self, c):
        self.client(c)
        self.say(c, {"k": "TaskCancel", "id": b"nosuchtask"})
        self.say(c, {"k": "GraphTaskCancel", "id": b"nosuchgraph"})

    def do_result(self, w, i=0, st="Success"):
        w = self.worker(w)
        t = self._pick(w.held, i)
        if t is not None:
            self.finish_task(w, t, st)

    def do_late(self, w, i=0, st="Success"):
        """repeat an old answer, or answer a task this worker does not hold"""
        w = self.worker(w)
        if w.past:
            t = w.past[i % len(w.past)][0]
        else:
            t = self._pick(self.order, i)
        if t is None:
            return
        self.say(w.name, {"k": "TaskResult", "id": t.encode(), "st": st, "dur": 0.5, "body": f"late:{t}".encode()})

    def do_stray(self, w):
        self.worker(w)
        self.say(w, {"k": "TaskResult", "id": b"nosuchtask", "st": "Success", "dur": 0.5, "body": b"x"})

    def do_ackcancel(self, w):
        """answer one pending cancel request"""
        w = self.worker(w)
        if not w.cancels:
            return
        t = w.cancels.pop(0)
        self.finish_task(w, t, "Canceled" if t in w.held else "NotFound")

    def do_giveback(self, w, k=None, extra=False):
        """answer one pending balance request with up to k of the youngest held tasks"""
        w = self.worker(w)
        if not w.balance:
            return
        n = w.balance.pop(0)
        n = n if k is None else min(n, k)
        give = w.held[1:][:n] if len(w.held) > 1 else []
        for t in give:
            w.held.remove(t)
        ids = list(give)
        if extra:
            # ids the scheduler does not take for this worker's (any more), and repetitions
            for x in ["nosuchtask"] + ids[:1] + [t for t, _ in w.past[:1]]:
                ids.insert(len(ids) * int(extra) // 3 if extra < 3 else 0, x)
        self.say(w.name, {"k": "BalanceResponse", "ids": [t.encode() for t in ids]})

    def do_balanceany(self, w, k):
        """an unsolicited (stale) balance answer with k held tasks"""
        w = self.worker(w)
        give = w.held[-k:]
        for t in give:
            w.held.remove(t)
        self.say(w.name, {"k": "BalanceResponse", "ids": [t.encode() for t in give]})

    def do_graph(self, c, shape, fns, targets):
        """shape: list of argument lists; an argument is an int (node index) or 'd' (data)"""
        self.client(c)
        g = self.fresh("g")
        ids = [self.fresh("n") for _ in shape]
        nodes = []
        for i, args in enumerate(shape):
            nodes.append({"id": ids[i].encode(), "fn": fns[i % len(fns)].encode(),
                          "args": [("D", self.data(f"{ids[i]}.d{j}")) if a == "d" else ("T", ids[a].encode())
                                   for j, a in enumerate(args)]})
        used = sorted({n["fn"] for n in nodes})
        self.graphs[g] = {"c": c, "ids": ids}
        self.gorder.append(g)
        self.say(c, {"k": "GraphTask", "id": g.encode(),
                     "functions": [(f, b"name_" + f, self.code(f.decode())) for f in used],
                     "targets": [ids[i].encode() for i in targets], "nodes": nodes})

    def do_gcancel(self, i, state=None):
        lst = [g for g in self.gorder if state is None or bool(self.graphs[g].get("done")) == (state == "done")]
        g = self._pick(lst, i)
        if g is not None:
            self.say(self.graphs[g]["c"], {"k": "GraphTaskCancel", "id": g.encode()})

    def do_disconnect_client(self, c):
        """what a disconnecting client sends: cancel everything not answered yet"""
        for t in self.order:
            if self.tasks[t]["c"] == c and not self.tasks[t].get("done"):
                self.say(c, {"k": "TaskCancel", "id": t.encode()})
        for g in self.gorder:
            if self.graphs[g]["c"] == c and not self.graphs[g].get("done"):
                self.say(c, {"k": "GraphTaskCancel", "id": g.encode()})

    def do_junk(self, who, kind):
        self.client(who)
        if kind == 0:
            self.raw(who, [])
        elif kind == 1:
            self.raw(who, [b"TK"])
        elif kind == 2:
            self.raw(who, [b"ZZ", b"abc"])
        elif kind == 3:
            self.raw(who, [b"", b"", b""])
        elif kind == 4:
            self.say(who, {"k": "TaskEcho", "id": b"x", "st": "SubmitOK"})
        elif kind == 5:
            self.say(who, {"k": "HeartbeatEcho"})
        elif kind == 6:
            self.raw(who, [b"TK", b"only-an-id"])
        elif kind == 7:
            self.raw(who, [b"TR", b"x", b"S"])
        elif kind == 8:
            self.raw(who, [b"FR", b"?", b"f", b"", b""])

    def do_drain(self, w="w1"):
        """everything in flight gets answered, so that nothing may remain"""
        for _ in range(60):
            self.settle()
            if self.dead:
                return
            some = False
            for w in self.workers.values():
                if not w.connected or not w.alive:
                    continue
                while w.cancels:
                    self.do_ackcancel(w.name)
                    some = True
                while w.balance:
                    self.do_giveback(w.name)
                    some = True
                if w.held:
                    self.finish_task(w, w.held[0], "Success")
                    some = True
            if not some:
                break
        self.settle()

    def do_probe(self, c="cp", f="f1"):
        """after draining, the whole configured capacity must be usable again"""
        self.do_fn(c, f)
        self.settle()
        live = [w for w in self.workers.values() if w.connected and w.alive]
        for _ in range(min(40, self.cfg["limit"] * len(live))):
            self.do_submit(c, f)
        self.settle()
        self.do_drain()

    def close(self):
        self.step.close()
        self.world.close()


def run_schedule(sch, make=SchedSim):
    """sch: {"cfg":…, "steps":[…]} -> trace record for the specification"""
    sim = make(sch["cfg"])
    try:
        sim.run(sch["steps"])
        return {"cfg": sch["cfg"], "ev": list(sim.events)}
    finally:
        sim.close()


def _do_resubmit(self, i):
    """a client told that its function does not exist uploads it and submits again"""
    lst = [t for t in self.order if self.tasks[t].get("echo") == "FunctionNotExists"]
    t = self._pick(lst, i)
    if t is None:
        return
    k = self.tasks[t]
    k["echo"] = None
    self.do_fn(k["c"], k["fn"])
    self.say(k["c"], {"k": "Task", "id": t.encode(), "fn": k["fn"].encode(), "args": [("D", f"{t}.a0".encode())]})


SchedSim.do_resubmit = _do_resubmit


# ---------------------------------------------------------------- steps that come from TLC behaviours (module MCScheduler)
def _num(name):
    return int(name.lstrip("tgn")) - 1


def _do_cancelname(self, t):
    i = _num(t)
    if i < len(self.order):
        self.do_cancel(i)


def _do_gcancelname(self, g):
    i = _num(g)
    if i < len(self.gorder):
        self.do_gcancel(i)


def _do_latename(self, w, t):
    i = _num(t)
    if i < len(self.order):
        self.worker(w)
        t = self.order[i]
        self.say(w, {"k": "TaskResult", "id": t.encode(), "st": "Success", "dur": 0.5, "body": f"late:{t}".encode()})


SchedSim.do_cancelname = _do_cancelname
SchedSim.do_gcancelname = _do_gcancelname
SchedSim.do_latename = _do_latename


def hung(sch):
    return {"cfg": sch["cfg"], "ev": [{"e": "died"}]}
