"""Deterministic simulation kernel.

The real scaled code runs unmodified in threads of which exactly one runs at a time: a component runs until it reaches
a *yield point* (its event loop polls for I/O, a zmq poll, a sleep, a contended lock, an instrumented source line, a user
function) and hands the baton back to the driver, which decides what happens next.  Time is virtual.

Only outer interfaces are replaced: zmq contexts/sockets, clocks, thread/process start and kill, lock primitives.
"""
import _thread
import asyncio
import collections
import os
import selectors
import sys
import threading
import time as _time_mod
import uuid as _uuid_mod

_real_allocate = _thread.allocate_lock
_real_thread_start = threading.Thread.start
_real_sleep = _time_mod.sleep
_real_time = _time_mod.time
_real_monotonic = _time_mod.monotonic
_real_kill = os.kill
_real_getpid = os.getpid


class SimKilled(BaseException):
    """raised inside a component thread that the simulated world has killed"""


class SimDeadlock(Exception):
    pass


class SimTimeout(Exception):
    """the code under test did not come to rest within the step budget"""


class World:
    current = None  # the active world

    def __init__(self, t0=1_000_000.0):
        self.now = t0
        self.wall = 0  # how far the wall clock was put back (negative)
        self.threads = []
        self.log = []  # recorded events (dicts)
        self.activity = 0
        self.by_ident = {}
        self.net = None
        self.uuid_counter = 0
        self.pid_counter = 50_000
        self.processes = {}  # fake pid -> object with .sim_kill(sig)
        self.kills = []
        self.steps = 0
        self.max_steps = 2_000_000
        self.thread_hook = None  # called for threads started by scaled code: hook(thread) -> SimThread | None
        self.closed = False

    # -- threads
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def spawn(self, name, fn, trace_files=None, preempt=None):
        t = SimThread(self, name, fn, trace_files, preempt)
        self.threads.append(t)
        return t

    def record(self, **kw):
        self.log.append(kw)

    def touch(self):
        self.activity += 1

    def close(self):
        """kill whatever still runs"""
        self.closed = True
        for t in list(self.threads):
            t.kill()
        self.by_ident.clear()
        if World.current is self:
            World.current = None


class SimThread:
    def __init__(self, world, name, fn, trace_files=None, preempt=None):
        self.world = world
        self.name = name
        self.fn = fn
        self.go = _real_allocate()
        self.go.acquire()
        self.back = _real_allocate()
        self.back.acquire()
        self.started = False
        self.done = False
        self.killed = False
        self.parked = False
        self.exc = None
        self.reason = "new"  # why it yielded
        self.info = None
        self.wait_pred = None  # for reason 'wait': callable -> bool, True when it may continue
        self.wake_at = None
        self.trace_files = trace_files
        self.preempt = preempt  # callable(frame) -> bool, whether to yield at this line
        self.user = {}
        self.signals = []  # handlers to run as soon as the thread goes on

    # called by the driver
    def step(self):
        """let the component run to its next yield point; returns the reason"""
        assert not self.done
        w = self.world
        w.steps += 1
        if w.steps > w.max_steps:
            raise SimTimeout("step budget exhausted")
        self.reason = "running"
        self.wait_pred = None
        self.wake_at = None
        if not self.started:
            self.started = True
            _thread.start_new_thread(self._main, ())
        else:
            self.go.release()
        self.back.acquire()
        return self.reason

    def park(self):
        """its process is gone: it never runs again (and, unlike an exception, no handler of its code runs either)"""
        if not self.done:
            self.done = True
            self.parked = True

    def kill(self):
        """get rid of the operating system's thread"""
        if self.parked:
            self.done = self.parked = False
        if self.done:
            return
        self.killed = True
        if not self.started:
            self.done = True
            return
        for _ in range(20):
            if self.done:
                return
            self.go.release()
            if not self.back.acquire(timeout=1):
                break
        self.done = True  # caught whatever was thrown at it; leave it alone

    def _main(self):
        w = self.world
        w.by_ident[_thread.get_ident()] = self
        if self.trace_files:
            sys.settrace(self._trace)
        try:
            self.fn()
        except SimKilled:
            pass
        except BaseException as e:  # noqa
            if not self.killed:
                self.exc = e
        finally:
            sys.settrace(None)
            self.done = True
            self.reason = "done"
            w.by_ident.pop(_thread.get_ident(), None)
            self.back.release()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.trace_files:
            return None
        return self._trace_line

    def _trace_line(self, frame, event, arg):
        if event == "line" and not self.killed and self.preempt is not None and self.preempt(frame):
            self.yield_("line", info=(frame.f_code.co_name, frame.f_lineno))
        return self._trace_line

    # called inside the component
    def yield_(self, reason, info=None, pred=None, wake_at=None):
        if self.killed:
            raise SimKilled()
        self.reason = reason
        self.info = info
        self.wait_pred = pred
        self.wake_at = wake_at
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise SimKilled()
        while self.signals:
            self.signals.pop(0)()

    def runnable(self):
        """may this component make progress if stepped now?"""
        if self.done:
            return False
        r = self.reason
        if r in ("new", "line", "running"):
            return True
        if r == "loop":
            timeout = self.info
            return timeout is not None and timeout <= 0 or (self.wake_at is not None and self.world.now >= self.wake_at) \
                or self.user.get("kick", False)
        if r == "wait":
            if self.wait_pred is not None and self.wait_pred():
                return True
            return self.wake_at is not None and self.world.now >= self.wake_at
        if r == "poll":
            return True
        return True


# ---------------------------------------------------------------- event loop

class _FakeSelector(selectors.BaseSelector):
    def __init__(self, world):
        self._world = world
        self._map = {}

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, fileobj if isinstance(fileobj, int) else fileobj.fileno(), events, data)
        self._map[key.fd] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj if isinstance(fileobj, int) else fileobj.fileno())

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def get_key(self, fileobj):
        return self._map[fileobj if isinstance(fileobj, int) else fileobj.fileno()]

    def get_map(self):
        return self._map

    def close(self):
        self._map.clear()

    def select(self, timeout=None):
        me = self._world.me()
        if me is None:  # driver-side loop (not simulated)
            return []
        me.user["kick"] = False
        wake = None if timeout is None else self._world.now + max(timeout, 0)
        me.yield_("loop", info=timeout, wake_at=wake)
        loop = me.user.get("loop")
        while loop is not None and loop.sim_pending:  # signals noticed now: their handlers come after what is due already
            cb, args = loop.sim_pending.pop(0)
            loop.call_soon(cb, *args)
        return []


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, world):
        self.sim_world = world
        self.sim_signals = {}
        self.sim_pending = []
        super().__init__(_FakeSelector(world))
        # timers that are due "now" must run now: virtual time is exact
        self._clock_resolution = 1e-9

    def time(self):
        return self.sim_world.now

    def add_signal_handler(self, sig, callback, *args):
        self.sim_signals[sig] = (callback, args)

    def remove_signal_handler(self, sig):
        return self.sim_signals.pop(sig, None) is not None


def kick(thread):
    """an I/O event became available for the thread's event loop"""
    if thread is not None:
        thread.user["kick"] = True


# ---------------------------------------------------------------- locks

class SimLock:
    """drop-in for threading.Lock; a simulated thread that would block yields to the driver instead"""

    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        w = World.current
        me = w.me() if w is not None else None
        if self._held:
            if not blocking:
                return False
            if me is None:
                if w is None:
                    # outside any simulation: behave, but never hang
                    raise SimDeadlock("lock held outside simulation")
                raise SimDeadlock("driver would block on a lock")
            deadline = w.now + timeout if timeout is not None and timeout >= 0 else None
            while self._held:
                me.yield_("wait", info=("lock", id(self)), pred=lambda: not self._held, wake_at=deadline)
                if self._held and deadline is not None and w.now >= deadline:
                    return False
        self._held = True
        return True

    __enter__ = acquire

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self):
        return self._held

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        pass

    def locked(self):
        return self._lock.locked()


# ---------------------------------------------------------------- global patches

def _sim_time():
    w = World.current
    return w.now + w.wall if w is not None else _real_time()


def _sim_monotonic():
    w = World.current
    return w.now if w is not None else _real_monotonic()


def _sim_sleep(seconds):
    w = World.current
    me = w.me() if w is not None else None
    if me is None:
        _real_sleep(seconds)
        return
    wake = w.now + seconds
    while True:
        me.yield_("wait", info=("sleep", seconds), wake_at=wake)
        if w.now >= wake:
            return


def _sim_uuid1(node=None, clock_seq=None):
    w = World.current
    if w is None:
        return _uuid_mod.UUID(bytes=os.urandom(16))
    w.uuid_counter += 1
    return _uuid_mod.UUID(int=(0xA1 << 120) + w.uuid_counter)


def _sim_uuid4():
    w = World.current
    if w is None:
        return _uuid_mod.UUID(bytes=os.urandom(16))
    w.uuid_counter += 1
    return _uuid_mod.UUID(int=(0xB4 << 120) + w.uuid_counter)


def _sim_thread_start(self):
    """threads started by the code under test become simulated components"""
    w = World.current
    if w is None or w.thread_hook is None:
        return _real_thread_start(self)
    st = w.thread_hook(self)
    if st is None:
        return _real_thread_start(self)
    self._started.set()
    self.sim_thread = st


def _sim_kill(pid, sig):
    w = World.current
    if w is None:
        raise RuntimeError("os.kill outside a simulation")
    w.kills.append((pid, int(sig)))
    p = w.processes.get(pid)
    if p is None:
        raise ProcessLookupError(pid)
    p.sim_signal(int(sig))


_installed = False


def install(locks=True):
    """replace clocks, thread primitives and os.kill in this process (call before importing scaled)"""
    global _installed
    if _installed:
        return
    _installed = True
    _time_mod.time = _sim_time
    _time_mod.time_ns = lambda: int(round(_sim_time() * 1e9))
    _time_mod.monotonic = _sim_monotonic
    _time_mod.perf_counter = _sim_monotonic
    _time_mod.monotonic_ns = _time_mod.perf_counter_ns = lambda: int(round(_sim_monotonic() * 1e9))
    _time_mod.sleep = _sim_sleep
    _uuid_mod.uuid1 = _sim_uuid1
    _uuid_mod.uuid4 = _sim_uuid4
    os.kill = _sim_kill
    if locks:
        threading.Lock = SimLock
        threading.RLock = SimRLock
        threading._allocate_lock = SimLock
        threading.Thread.start = _sim_thread_start
        threading.Thread.join = _sim_thread_join


_real_join = threading.Thread.join


def _sim_thread_join(self, timeout=None):
    st = getattr(self, "sim_thread", None)
    if st is None:
        return _real_join(self, timeout)
    w = World.current
    me = w.me()
    if me is None:
        raise SimDeadlock("driver would block on join")
    me.yield_("wait", info=("join", self.name), pred=lambda: st.done)
    while not st.done:
        me.yield_("wait", info=("join", self.name), pred=lambda: st.done)
