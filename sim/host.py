"""Running the processes and threads of scaled as simulated components."""
import multiprocessing.process
import os
import signal

from .kernel import SimLoop, SimThread, World, kick  # noqa


class FakePopen:
    """stands in for the handle of a spawned process"""

    def __init__(self, proc):
        self.proc = proc
        self.pid = proc.pid
        self.sentinel = -1

    def poll(self, flag=0):
        if self.proc.exitcode is not None:
            self.proc.reaped()
        return self.proc.exitcode

    def wait(self, timeout=None):
        w = World.current
        me = w.me()
        end = None if timeout is None else w.now + timeout
        try:
            while self.proc.exitcode is None and me is not None and (end is None or w.now < end):
                me.yield_("wait", info=("waitpid", self.pid), pred=lambda: self.proc.exitcode is not None, wake_at=end)
        except OSError:  # out of a signal handler; the real thing takes it for an error of waitpid
            return None
        return self.poll()

    def _send(self, sig):
        if self.proc.exitcode is None:
            self.proc.sim_signal(sig)

    def terminate(self):
        self._send(int(signal.SIGTERM))

    def kill(self):
        self._send(int(signal.SIGKILL))

    def close(self):
        pass


class SimProcess:
    """an operating system process: its threads and sockets live and die together"""

    def __init__(self, world, name, obj, host, parent):
        self.world, self.name, self.obj, self.host, self.parent = world, name, obj, host, parent
        world.pid_counter += 1
        self.pid = world.pid_counter
        world.processes[self.pid] = self
        self.threads = []
        self.exitcode = None
        self.spawn(name, self._main)

    def spawn(self, name, fn):
        t = self.world.spawn(name, fn, *self.host.tracing(self, name))
        t.user["process"] = self
        self.threads.append(t)
        return t

    def _main(self):
        self.obj.run()

    def sockets(self):
        ts = set(self.threads)
        return [s for s in self.world.net.sockets if s.owner in ts]

    def sim_signal(self, sig):
        if self.exitcode is not None:
            return  # not yet waited for: nothing happens
        if self.host.on_signal(self, sig):
            return
        if sig in (int(signal.SIGTERM), int(signal.SIGKILL)):
            self.host.on_kill(self, sig)
        # other signals are delivered by the harness

    def die(self, code=-15):
        """ends now: sockets close, threads never run again"""
        if self.exitcode is not None:
            return
        self.exitcode = code
        self.host.on_exit(self)
        for s in self.sockets():
            s.close()
        me = self.world.me()
        for t in self.threads:
            if t is not me:
                t.park()
        if not self.host.keeps_zombies:
            self.reaped()

    def reaped(self):
        self.world.processes.pop(self.pid, None)

    @property
    def alive(self):
        return self.exitcode is None


class Host:
    """owner of simulated processes; subclasses observe them"""

    keeps_zombies = False  # are processes that have ended there until somebody waits for them?

    def __init__(self, world):
        self.world = world
        self.procs = []
        self.order = {}
        world.proc_host = self
        world.thread_hook = self.thread_hook

    def choose(self, ready):
        """some thread goes ahead of the others, now and then another one"""
        if not self.cfg.get("uneven") or self.rng.random() < .03:
            return self.rng.choice(ready)
        if self.rng.random() < .03:
            self.order.clear()
        x = max(ready, key=lambda x: self.order.setdefault(x, self.rng.random()))
        if len(ready) > 1 and self.rng.random() < .06:
            self.order[x] = -self.rng.random()  # now the last one to go on
        return x

    def tracing(self, proc, name):
        return (None, None)

    def on_kill(self, proc, sig):
        proc.die(-sig)

    def on_signal(self, proc, sig):
        return False

    def on_exit(self, proc):
        pass

    def start_process(self, obj):
        """a scaled component called Process.start()"""
        me = self.world.me()
        parent = me.user.get("process") if me is not None else None
        p = SimProcess(self.world, obj.name, obj, self, parent)
        obj._popen = FakePopen(p)
        p.obj = obj
        self.procs.append(p)
        self.on_started(p)
        return p

    def on_started(self, proc):
        pass

    def thread_hook(self, thread):
        me = self.world.me()
        proc = me.user.get("process") if me is not None else None
        if proc is None:
            return None
        return proc.spawn(thread.name, thread.run)


def install():
    """Process.start() of scaled's processes creates simulated processes"""
    real_start = multiprocessing.process.BaseProcess.start

    def start(self):
        w = World.current
        if w is None or getattr(w, "proc_host", None) is None:
            return real_start(self)
        w.proc_host.start_process(self)

    multiprocessing.process.BaseProcess.start = start


def step_ready(world, threads):
    """threads that could do something now (a zmq poll or an event loop counts only if there is something for it)"""
    out = []
    for t in threads:
        if t.done:
            continue
        r = t.reason
        if t.signals:
            out.append(t)
        elif r in ("poll", "wait", "user"):
            if (t.wait_pred is not None and t.wait_pred()) or (t.wake_at is not None and world.now >= t.wake_at):
                out.append(t)
        else:
            out.append(t)
    return out


def agent_thread(world, run):
    """body of a thread that runs a component with its own event loop"""
    import asyncio

    def body():
        loop = SimLoop(world)
        loop.set_exception_handler(lambda loop, ctx: None)
        world.me().user["loop"] = loop
        asyncio.set_event_loop(loop)
        try:
            run()
        finally:
            asyncio.set_event_loop(None)
    return body
