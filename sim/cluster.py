"""The real cluster process with its real workers and processors, under a modelled scheduler and operating system.

Signals reach a process as they do in reality: a handler of the process runs in its main thread between two lines of
code, a handler of an event loop runs as one of its callbacks, and without handler the default action is taken.  What is
recorded: workers' first and last words to the scheduler, processes that end, and what is left when all is quiet;
spec/TraceCluster.tla judges it.
"""
import os
import pickle
import random
import signal

from . import env, wire, worker  # noqa
from .host import Host, SimProcess, agent_thread, step_ready
from .kernel import World, kick
from .worker import ADDR, QUIET, Peer, function_payload, txt

LOCKS = True
INT, TERM, KILL = int(signal.SIGINT), int(signal.SIGTERM), int(signal.SIGKILL)
FILES = None
_real_signal = signal.signal
_real_getpid = os.getpid


def me():
    w = World.current
    return w.me() if w is not None else None


def sim_signal(sig, handler):
    t = me()
    if t is None:
        return _real_signal(sig, handler)
    p = t.user["process"]
    old = p.handlers.get(int(sig), signal.SIG_DFL)
    p.handlers[int(sig)] = handler
    loop = p.threads[0].user.get("loop")
    if loop is not None:
        loop.sim_signals.pop(sig, None)
    return old


def sim_getpid():
    t = me()
    return _real_getpid() if t is None else t.user["process"].pid


def prepare():
    global FILES
    signal.signal = sim_signal
    os.getpid = sim_getpid
    worker.prepare()
    import scaled.cluster.cluster as a
    import scaled.worker.agent.processor_manager as c
    import scaled.worker.worker as b
    a.setup_logger = lambda *x, **k: None
    FILES = {a.__file__, b.__file__, c.__file__}


class ClusterSim(Host):
    keeps_zombies = True

    def __init__(self, cfg):
        """cfg: n (workers), hb, death (tenths of seconds), seed, preempt"""
        self.cfg = cfg
        self.rng = random.Random(cfg["seed"])
        world = World()
        World.current = world
        from .fakezmq import Net
        super().__init__(world)
        world.fn_host = self
        self.net = Net(world)
        self.net.scratch = worker.SCRATCH
        self.net.on_send = self._on_send
        self.net.bound[ADDR] = Peer(self._from_worker)
        self.events = []
        self.calls = []
        self.names = {}  # worker's process -> name
        self.idents = {}  # name -> identity
        self.struck = set()
        self.stopped = False
        self.livelock = False
        self.ntasks = 0
        self.marks = {}
        self.started = False
        self.start()

    def tracing(self, proc, name):
        proc.handlers = {}
        if name == "Processor":
            return (None, None)
        return (FILES, lambda frame: self.rng.random() < self.cfg["preempt"])

    def ev(self, e, w="", n=0, st=""):
        self.events.append({"e": e, "w": w, "n": n, "st": st})
        self.world.touch()

    def start(self):
        from scaled.cluster.cluster import Cluster
        from scaled.protocol.python.serializer.default import DefaultSerializer
        from scaled.utility.zmq_config import ZMQConfig
        c = self.cfg
        self.obj = Cluster(
            address=ZMQConfig.from_string(ADDR), n_workers=c["n"], heartbeat_interval_seconds=c["hb"] // 10,
            function_retention_seconds=20, death_timeout_seconds=c["death"] // 10,
            garbage_collect_interval_seconds=1 << 20, trim_memory_threshold_bytes=1 << 40, event_loop="builtin",
            serializer=DefaultSerializer())
        self.proc = SimProcess(self.world, "WorkerMaster", self.obj, self, None)
        self.main(self.proc)

    def main(self, proc):
        """what the main thread of a process does: run, then wait for the processes it started"""
        def body():
            try:
                proc.obj.run()
            finally:
                t = self.world.me()
                if not t.killed:
                    for p in self.procs:
                        while p.parent is proc and p.exitcode is None and not t.killed:
                            t.yield_("wait", info=("waitpid", p.pid), pred=lambda p=p: p.exitcode is not None)
        proc.threads[0].fn = agent_thread(self.world, body)

    def on_started(self, proc):
        from scaled.worker.worker import Worker
        if isinstance(proc.obj, Worker):
            self.main(proc)
            self.name(proc)
            self.mark("begin")

    def name(self, proc):
        if proc not in self.names:
            self.names[proc] = f"w{len(self.names) + 1}"
        return self.names[proc]

    def mark(self, what):
        self.marks[what] = self.marks.get(what, 0) + 1

    # ------------------------------------------------------------ signals
    def on_signal(self, proc, sig):
        if sig == KILL:
            return False
        t = proc.threads[0]
        loop = t.user.get("loop")
        if loop is not None and sig in loop.sim_signals:
            loop.sim_pending.append(loop.sim_signals[sig])
            kick(t)
            return True
        h = proc.handlers.get(sig, signal.SIG_DFL)
        if h == signal.SIG_IGN:
            return True
        if callable(h) and h is not signal.default_int_handler:
            t.signals.append(lambda: h(sig, None))
            return True
        if sig == INT and t.started:
            t.signals.append(self.interrupt)
            return True
        self.on_kill(proc, sig)
        return True

    @staticmethod
    def interrupt():
        raise KeyboardInterrupt()

    def on_kill(self, proc, sig):
        proc.die(-sig)

    def on_exit(self, proc):
        for c in [c for c in self.calls if c["proc"] is proc]:
            self.calls.remove(c)
        if proc in self.names and proc not in self.struck:
            self.ev("ended", self.names[proc])
            self.mark("ended")
        if proc is self.proc:
            self.ev("over")

    # ------------------------------------------------------------ the scheduler
    def _on_send(self, sock, frames):
        import zmq
        if sock.type != zmq.DEALER or sock.owner is None:
            return
        w = self.name(sock.owner.user["process"])
        try:
            m = wire.decode(frames)
        except wire.WireError:
            return
        if m["k"] == "Heartbeat":
            if w not in self.idents:
                self.idents[w] = sock.ident
                self.ev("hello", w)
                self.mark("hello")
            self.say(w, {"k": "HeartbeatEcho"})
        elif m["k"] == "DisconnectRequest":
            self.ev("bye", w, st="self" if m["id"] == sock.ident else "other")
        elif m["k"] == "FunctionRequest":
            self.say(w, {"k": "FunctionResponse", "st": "OK", "id": m["id"], "name": b"name",
                         "body": function_payload(txt(m["id"]))})

    def _from_worker(self, frames):
        pass

    def say(self, w, m):
        link = self.net.links.get((ADDR, self.idents.get(w), "down"))
        if link is not None:
            link.put(wire.encode(m))

    def on_call(self, t, fn, args, kwargs):
        c = {"proc": t.user["process"]}
        self.calls.append(c)
        self.world.touch()
        return c

    def on_return(self, t, call):
        if call in self.calls:
            self.calls.remove(call)
        self.world.touch()

    # ------------------------------------------------------------ driving
    def alive(self):
        return [p for p in [self.proc, *self.procs] if p.exitcode is None]

    def threads(self):
        return [t for p in self.alive() for t in p.threads if not t.done]

    def step_thread(self, t):
        t.step()
        p = t.user["process"]
        if t.done and t is p.threads[0] and p.exitcode is None:
            if p is self.proc or p in self.names:
                p.die(1 if t.exc is not None else 0)
            else:
                self.world.touch()  # a processor lives on in its other threads

    def cycles(self, n):
        for _ in range(n):
            ready = step_ready(self.world, self.threads())
            if not ready:
                return
            self.step_thread(self.rng.choice(ready))

    def settle(self, idle=True):
        quiet = 0
        for _ in range(4000):
            a = self.world.activity
            lines = False
            for t in step_ready(self.world, self.threads()):
                if not t.done:
                    self.step_thread(t)
                    lines = lines or t.reason in ("line", "new") or t.signals
            quiet = quiet + 1 if a == self.world.activity and not lines else 0
            if quiet >= QUIET:
                break
        else:
            self.ev("livelock")
            self.livelock = True
            return
        if idle:
            self.ev("idle", n=len([p for p in self.alive() if p.parent not in self.struck]))

    def run(self, steps):
        for s in steps:
            if self.livelock:
                return self
            getattr(self, "do_" + s[0])(*s[1:])
        if not self.livelock:
            self.settle()
        return self

    # ------------------------------------------------------------ steps
    def do_c(self, n):
        self.cycles(n)

    def do_until(self, what, n):
        """go on until something has happened so many times"""
        for _ in range(3000):
            if self.marks.get(what, 0) >= n or not step_ready(self.world, self.threads()):
                return
            self.cycles(1)

    def do_settle(self):
        self.settle()

    def do_tick(self, n=10):
        self.settle()
        self.world.now += n / 10
        self.settle()

    def do_stop(self, sig):
        if self.proc.exitcode is None:
            self.ev("stop", st=sig)
            # ^C at the terminal reaches all processes
            lst = self.alive() if sig == "ALL" else [self.proc]
            self.rng.shuffle(lst)
            for p in lst:
                p.sim_signal(TERM if sig == "TERM" else INT)

    def do_strike(self, i):
        """something outside kills a worker"""
        lst = [p for p in self.names if p.exitcode is None and p is not self.proc]
        if lst:
            p = lst[i % len(lst)]
            self.struck.add(p)
            self.ev("strike", self.names[p])
            p.die(-KILL)
            self.mark("strike")

    def do_task(self, i, f="f1"):
        lst = sorted(self.idents)
        if lst:
            self.ntasks += 1
            t = f"t{self.ntasks}"
            self.say(lst[i % len(lst)], {"k": "Task", "id": t.encode(), "fn": f.encode(), "args": [("D", pickle.dumps(t))]})

    def do_finish(self, i):
        lst = [c for c in self.calls if not c.get("end")]
        if lst:
            c = lst[i % len(lst)]
            c.update(what=None, val="v", end="ret")
            self.world.touch()

    def close(self):
        for p in [self.proc, *self.procs]:
            for t in p.threads:
                t.kill()
        self.world.close()


def run_schedule(sch):
    sim = ClusterSim(sch["cfg"])
    try:
        sim.run(sch["steps"])
        return {"cfg": sch["cfg"], "ev": list(sim.events)}
    finally:
        sim.close()


def hung(sch):
    return {"cfg": sch["cfg"], "ev": [{"e": "livelock"}]}
