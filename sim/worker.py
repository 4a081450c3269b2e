"""The real worker (agent and processor) under a modelled scheduler.

Schedules are lists of abstract steps.  Messages at the agent's outer socket, the start and end of user functions, and
processor and agent exits are recorded; spec/TraceWorker.tla judges the recording.
"""
import pickle
import random
import shutil
import signal
import tempfile

import cloudpickle

from . import env, wire  # noqa
from .host import Host, SimProcess, agent_thread, install as install_host, step_ready
from .kernel import World, kick
from .userfn import BadLoad, BadPickleError, F, UserError, Weird, error, failed, said, value

LOCKS = True
ADDR = "tcp://sched:1"
QUIET = 5
TRIM = 1 << 30  # memory is given back from here on
SCRATCH = None


def prepare():
    global SCRATCH
    install_host()
    SCRATCH = tempfile.mkdtemp(prefix="verif-worker-")
    tempfile.tempdir = SCRATCH
    import scaled.worker.worker  # noqa
    import scaled.worker.agent.processor_manager as pm
    pm.setup_logger = lambda *a, **k: None
    watch_memory()
    import atexit
    atexit.register(shutil.rmtree, SCRATCH, True)


class Libc:
    """the C library as far as giving memory back is concerned"""

    def __init__(self, real):
        self.__dict__["real"] = real

    def __getattr__(self, name):
        return (lambda *a: seen("trim") or 1) if name == "malloc_trim" else getattr(self.real, name)


def seen(what):
    """a processor does something about its memory"""
    w = World.current
    me = w.me() if w is not None else None
    host = getattr(w, "fn_host", None)
    if me is not None and hasattr(host, "on_memory") and me.user.get("process") is not host.proc:
        host.on_memory(what)


def watch_memory():
    import ctypes
    import gc
    collect, load = gc.collect, ctypes.cdll.LoadLibrary
    gc.collect = lambda *a, **k: seen("collect") or 0
    ctypes.cdll.LoadLibrary = lambda name: Libc(load(name)) if name and "libc" in name else load(name)
    env.FakeMem.rss = property(lambda self: getattr(getattr(World.current, "fn_host", None), "rss", 1 << 20))


def txt(b):
    return b if isinstance(b, str) else bytes(b).decode("latin1")


def outcome(st, body):
    """what a result payload says"""
    try:
        v = pickle.loads(bytes(body))
    except BaseException:
        return "garbled"
    if st == "Success":
        return said(v)
    return failed(v) if isinstance(v, BaseException) else "?:" + type(v).__name__


class Peer:
    """the scheduler's end of the agent's connection (a ROUTER socket as far as the fabric is concerned)"""
    import zmq
    type = zmq.ROUTER
    closed = False
    bound = True

    def __init__(self, push):
        self.push = push


def bad_function(f):
    return f.startswith("bad")


def function_payload(f):
    return cloudpickle.dumps(BadLoad(f) if bad_function(f) else F(f))


class WorkerSim(Host):
    keeps_zombies = True

    def __init__(self, cfg):
        """cfg: hb, death (tenths of seconds), fret, seed, preempt"""
        self.cfg = cfg
        self.rng = random.Random(cfg["seed"])
        world = World()
        World.current = world
        from .fakezmq import Net
        super().__init__(world)
        world.fn_host = self
        self.net = Net(world)
        self.net.scratch = SCRATCH
        self.net.pair_auto = not cfg.get("pipe")
        if cfg.get("pipe"):
            self.net.late_notice = lambda: self.rng.random() < .5
        self.net.on_send = self._on_send
        self.net.on_recv = self._on_recv
        self.net.bound[ADDR] = Peer(lambda fr: self._from_agent(fr))
        self.events = []
        self.t0 = world.now
        self.trace_files = None
        self.dead = False
        # the modelled scheduler
        self.n = 0
        self.tasks = {}  # id -> dict(fn, bad)
        self.sent = []
        self.held = []  # what the scheduler believes the worker holds
        self.fetches = []
        self.flags = []  # for function responses on their way: is it an extra copy?
        self.echoes = 0
        self.dropped = set()  # functions the scheduler does not hold now
        self.ident = None
        self.calls = []
        self.told = False
        self.rss = cfg.get("trim", TRIM) - (not cfg["full"])
        self.start()

    # ------------------------------------------------------------ set-up
    def tracing(self, proc, name):
        if not self.cfg.get("preempt") or name == "Agent":
            return (None, None)
        if self.trace_files is None:
            import scaled.worker.agent.processor.cache_cleaner as a
            import scaled.worker.agent.processor.processor as b
            self.trace_files = {a.__file__, b.__file__}
        return (self.trace_files, lambda frame: self.rng.random() < self.cfg["preempt"])

    def make(self):
        from scaled.protocol.python.serializer.default import DefaultSerializer
        from scaled.utility.zmq_config import ZMQConfig
        from scaled.worker.worker import Worker
        return Worker(
            event_loop="builtin", address=ZMQConfig.from_string(ADDR),
            heartbeat_interval_seconds=self.cfg["hb"] // 10, garbage_collect_interval_seconds=self.cfg["gc"] // 10,
            trim_memory_threshold_bytes=TRIM, serializer=DefaultSerializer(),
            function_retention_seconds=self.cfg["fret"] // 10, death_timeout_seconds=self.cfg["death"] // 10)

    def start(self):
        self.worker = self.make()
        self.proc = SimProcess(self.world, "Agent", self.worker, self, None)
        self.proc.threads[0].fn = agent_thread(self.world, self.worker.run)
        from .host import FakePopen
        self.worker._popen = FakePopen(self.proc)
        self.agent = self.proc.threads[0]
        self.settle(idle=False)

    def ev(self, e, **kw):
        r = {"e": e, "k": "", "id": "", "st": "", "n": 0, "body": "", "fn": "", "args": [], "ids": []}
        r.update(kw)
        self.events.append(r)

    # ------------------------------------------------------------ recording
    def _message(self, e, m):
        k = m["k"]
        r = {"k": k}
        if k == "Task":
            t = txt(m["id"])
            r.update(id=t, fn=txt(m["fn"]), args=self.tasks[t]["args"], n=1 if self.tasks[t]["bad"] else 0)
        elif k == "TaskResult":
            r.update(id=txt(m["id"]), st=m["st"])
            r["body"] = outcome(m["st"], m["body"]) if m["st"] in ("Success", "Failed") else ""
            r["n"] = 1 if r["body"].startswith("x:") else 0
        elif k == "BalanceRequest":
            r["n"] = m["n"]
        elif k == "BalanceResponse":
            r["ids"] = [txt(i) for i in m["ids"]]
        elif k == "FunctionRequest":
            r.update(id=txt(m["id"]), st=m["st"])
        elif k == "FunctionResponse":
            r.update(id=txt(m["id"]), st=m["st"])
        elif k == "Heartbeat":
            i = m["info"]
            r.update(n=int(i[4]), st="busy" if i[7] else "free")
        elif k in ("TaskCancel", "DisconnectRequest"):
            r["id"] = "self" if k == "DisconnectRequest" and m["id"] == self.ident else txt(m["id"])
        self.ev(e, **r)

    def _on_send(self, sock, frames):
        import zmq
        if sock.type != zmq.DEALER:
            return
        if self.ident is None:
            self.ident = sock.ident
        try:
            self._message("send", wire.decode(frames))
        except wire.WireError:
            self.ev("bad")

    def _on_recv(self, sock, frames):
        import zmq
        if sock.type != zmq.DEALER:
            return
        m = wire.decode(frames)
        extra = 0
        if m["k"] == "FunctionResponse":
            extra = self.flags.pop(0)
        self._message("recv", m)
        if extra:
            self.events[-1]["n"] = 1

    def on_call(self, me, fn, args, kwargs):
        p = me.user["process"]
        a = [x if isinstance(x, str) else repr(x) for x in args]
        t = a[0].split(".")[0] if a else "?"
        call = {"id": t, "proc": p.pid, "fn": fn}
        self.calls.append(call)
        self.world.touch()
        self.ev("start", id=t, fn=fn, args=a + [f"{k}={v}" for k, v in kwargs.items()])
        return call

    def on_return(self, me, call):
        self.calls.remove(call)
        self.world.touch()
        k, val = call["end"], call.get("val") or ""
        if k == "ret":
            val = said(value(call.get("what"), val))
        elif k == "raise":
            val = failed(error(call.get("what"), val))
        self.ev("end", id=call["id"], st=k, body=val)

    def on_kill(self, proc, sig):
        if proc.parent is not self.proc:
            return
        self.world.touch()
        self.die_with_pipe(proc, -sig)

    def die_with_pipe(self, proc, code, how="kill"):
        """a process ends: what it wrote to the pipe last may or may not have left it"""
        if proc.exitcode is not None:
            return
        ran = [c for c in self.calls if c["proc"] == proc.pid]
        for c in ran:
            self.calls.remove(c)
        self.ev(how, id=ran[0]["id"] if ran else "", n=1)
        for s in proc.sockets():
            if s.up is not None and not s.up.auto:
                keep = self.rng.randint(0, len(s.up.queue))
                for _ in range(keep):
                    s.up.deliver()
                s.up.queue.clear()
        proc.die(code)

    def on_started(self, proc):
        self.ev("spawn")

    def on_memory(self, what):
        self.ev(what)

    # ------------------------------------------------------------ the modelled scheduler
    def _from_agent(self, frames):
        try:
            m = wire.decode(frames[1:])
        except wire.WireError:
            return
        k = m["k"]
        if k == "Heartbeat":
            self.echoes += 1
        elif k == "FunctionRequest":
            self.fetches.append(txt(m["id"]))
        elif k == "TaskResult":
            t = txt(m["id"])
            if t in self.held:
                self.held.remove(t)
        elif k == "BalanceResponse":
            for t in m["ids"]:
                if txt(t) in self.held:
                    self.held.remove(txt(t))

    def say(self, m):
        if self.dead or self.ident_link() is None:
            return
        self.ident_link().put(wire.encode(m))

    def ident_link(self):
        for (a, i, d), link in self.net.links.items():
            if a == ADDR and d == "down":
                return link
        return None

    # ------------------------------------------------------------ driving
    def threads(self):
        return [t for p in [self.proc, *self.procs] if p.exitcode is None for t in p.threads if not t.done]

    def step_thread(self, t):
        t.step()
        if t is self.agent and t.done and not self.dead:
            self.dead = True
            crash = t.exc is not None
            alive = [p for p in self.procs if p.alive]
            self.ev("exit", st="crash" if crash else "ok", n=len(alive), body=repr(t.exc)[:80] if crash else "")
        elif t.done and t.user["process"] is not self.proc:
            p = t.user["process"]
            if t is p.threads[0]:
                # the main thread of a processor ended on its own; the process lives until its other threads end
                # (none is a daemon), which is never: for the agent it is simply gone silent
                self.world.touch()
                p.silent = True

    def cycles(self, n):
        for _ in range(n):
            ready = step_ready(self.world, self.threads()) + self.pipes() + self.net.zombies
            if not ready:
                return
            x = self.choose(ready)
            if x in self.net.zombies:
                self.net.notice(x)
            elif hasattr(x, "deliver"):
                x.deliver()
            else:
                self.step_thread(x)

    def pipes(self):
        return [s.up for p in [self.proc, *self.procs] if p.alive for s in p.sockets()
                if s.up is not None and not s.up.auto and s.up.queue]

    def settle(self, idle=True):
        quiet = 0
        for _ in range(3000):
            a = self.world.activity
            for link in self.pipes():
                link.flush()
            for p in list(self.net.zombies):
                if self.rng.random() < .5:
                    self.net.notice(p)
                else:
                    self.world.touch()
            lines = False
            for t in step_ready(self.world, self.threads()):
                if not t.done:
                    self.step_thread(t)
                    lines = lines or t.reason == "line"
            quiet = quiet + 1 if a == self.world.activity and not lines else 0
            if quiet >= QUIET:
                break
        else:
            self.ev("livelock")
            self.dead = True
            return
        if idle and not self.dead:
            self.ev("idle", n=len(self.fetches))
        elif idle and self.dead and self.events[-1]["e"] != "gone":
            self.ev("gone", n=len([p for p in self.procs if p.alive]))

    def run(self, steps):
        for s in steps:
            if self.dead:
                break
            getattr(self, "do_" + s[0])(*s[1:])
        if self.dead:
            self.settle()
        return self

    # ------------------------------------------------------------ steps
    def do_c(self, n):
        self.cycles(n)

    def do_settle(self):
        self.settle()

    def do_tick(self, n=10):
        self.settle()
        if self.dead:
            return
        self.world.now += n / 10
        self.ev("clock", n=round((self.world.now - self.t0) * 10))
        self.settle()

    def do_die(self):
        """the processor ends by itself (a crash, not enough memory)"""
        lst = [p for p in self.procs if p.alive]
        if lst and not self.dead and not self.announcing(lst[-1]):
            self.world.touch()
            self.die_with_pipe(lst[-1], -11, "died")

    @staticmethod
    def announcing(proc):
        """is the word that it has started on its way? it is not told apart from that of the next processor"""
        said = [fr for s in proc.sockets() if s.up is not None for fr in [*s.up.queue, *(s.pair.inbox if s.pair else ())]]
        return any(m["k"] == "TaskResult" and not m["id"] for m in map(wire.decode, said))

    def do_putback(self, n):
        """somebody puts the wall clock back"""
        self.settle()
        if self.dead:
            return
        self.world.wall -= n / 10
        self.ev("putback", n=n)

    def do_task(self, f, nargs=1, bad=False):
        self.n += 1
        t = f"t{self.n}"
        self.dropped.discard(f)
        args = [f"{t}.a{i}" for i in range(max(1, nargs))]
        self.tasks[t] = {"fn": f, "args": args, "bad": bad or bad_function(f), "badarg": bad}
        self.sent.append(t)
        self._send_task(t)

    def _send_task(self, t):
        k = self.tasks[t]
        args = [("D", pickle.dumps(a)) for a in k["args"]]
        if k["badarg"]:
            args[-1] = ("D", pickle.dumps(BadLoad(t)))
        if t not in self.held:
            self.held.append(t)
        self.say({"k": "Task", "id": t.encode(), "fn": k["fn"].encode(), "args": args})

    def do_redeliver(self, i):
        """the scheduler thought the worker lost and now sends the same task again"""
        lst = [t for t in self.sent]
        if not lst:
            return
        t = lst[i % len(lst)]
        self.dropped.discard(self.tasks[t]["fn"])
        self._send_task(t)

    def do_redeliverheld(self, i):
        if self.held:
            t = self.held[i % len(self.held)]
            self.dropped.discard(self.tasks[t]["fn"])
            self._send_task(t)

    def do_cancel(self, i, state=None):
        lst = [t for t in self.sent if state is None or (t in self.held) == (state == "held")]
        if lst:
            self.say({"k": "TaskCancel", "id": lst[i % len(lst)].encode()})

    def do_cancelname(self, t):
        if t in self.tasks:
            self.say({"k": "TaskCancel", "id": t.encode()})

    def do_redelivername(self, t):
        if t in self.tasks:
            self.dropped.discard(self.tasks[t]["fn"])
            self._send_task(t)

    def do_cancelcur(self):
        """cancel what runs now"""
        if self.calls:
            self.say({"k": "TaskCancel", "id": self.calls[0]["id"].encode()})
        elif self.held:
            self.say({"k": "TaskCancel", "id": self.held[0].encode()})

    def do_cancelunknown(self):
        self.say({"k": "TaskCancel", "id": b"nosuchtask"})

    def do_balance(self, n):
        self.say({"k": "BalanceRequest", "n": n})

    def do_echo(self):
        if self.echoes:
            self.echoes -= 1
            self.say({"k": "HeartbeatEcho"})

    def _reply(self, f, extra=0):
        ok = f not in self.dropped
        self.flags.append(extra)
        self.say({"k": "FunctionResponse", "st": "OK" if ok else "NotExists", "id": f.encode(),
                  "name": b"name" if ok else b"", "body": function_payload(f) if ok else b""})

    def do_answerfn(self, i=0, copies=1):
        if self.fetches and not self.dead:
            f = self.fetches.pop(i % len(self.fetches))
            self._reply(f)
            for _ in range(copies - 1):
                self._reply(f, 1)

    def do_strayfn(self, f):
        """an answer to a fetch nobody waits for any more"""
        if not self.dead:
            self._reply(f, 1)

    def do_delete(self, f):
        self.say({"k": "FunctionRequest", "st": "Delete", "id": f.encode(), "name": b"", "body": b""})

    def do_forget(self):
        """the scheduler lost this worker: its tasks are done elsewhere; functions nobody uses are dropped"""
        self.held.clear()

    def do_drop(self, f):
        """the scheduler discards a function (only one no task it knows of uses)"""
        if not any(self.tasks[t]["fn"] == f for t in self.held):
            self.dropped.add(f)

    def do_finish(self, kind="ret", what=None):
        if self.calls:
            c = self.calls[0]
            c["what"] = what
            c.setdefault("val", {"ret": f"r.{c['id']}"}.get(kind, f"e.{c['id']}"))
            c["end"] = kind
            self.world.touch()

    def do_told(self):
        if not self.dead and not self.told:
            self.told = True
            self.ev("told")
            loop = self.agent.user.get("loop")
            cb = loop.sim_signals.get(signal.SIGINT) if loop else None
            if cb is None:
                return
            loop.call_soon(cb[0], *cb[1])
            kick(self.agent)

    def do_drain(self, kind="ret"):
        """answer and finish everything"""
        for _ in range(120):
            self.settle()
            if self.dead:
                return
            some = False
            while self.fetches:
                self.do_answerfn()
                some = True
            if self.calls:
                self.do_finish(kind)
                some = True
            if not some:
                break
        self.settle()

    def close(self):
        for p in self.procs:
            for t in p.threads:
                t.kill()
        self.world.close()
        loop = self.agent.user.get("loop")
        if loop is not None and not loop.is_closed():
            try:
                loop.close()
            except Exception:
                pass


def run_schedule(sch, make=WorkerSim):
    sim = make(sch["cfg"])
    try:
        sim.run(sch["steps"])
        return {"cfg": sch["cfg"], "ev": list(sim.events)}
    finally:
        sim.close()


def hung(sch):
    return {"cfg": sch["cfg"], "ev": [{"e": "livelock"}]}
