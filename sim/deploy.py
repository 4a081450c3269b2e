"""Starting schedulers and workers the way users do: SchedulerClusterCombo, the process classes, the command lines.

What is created for real is captured instead of started, so that the harnesses of the scheduler and of the worker can run
it; the schedules and the judgement are theirs.
"""
import asyncio
import contextlib
import importlib
import signal
import sys

from .kernel import World


class Popen:
    """a process that was captured instead of started: it is over at once"""
    pid = 4_000_000
    sentinel = -1
    returncode = 0

    def poll(self, flag=0):
        return 0

    def wait(self, timeout=None):
        return 0

    def terminate(self):
        pass

    kill = close = terminate


class Catch:
    """in place of the operating system: takes note of every process that would be started"""

    def __init__(self):
        self.got = []

    def start_process(self, obj):
        obj._popen = Popen()
        self.got.append(obj)


@contextlib.contextmanager
def catching(run_too=()):
    """run_too: classes whose run() is caught as well (a cluster runs its only worker itself)"""
    w = World.current
    c = Catch()
    old, w.proc_host = getattr(w, "proc_host", None), c
    real_signal = signal.signal
    signal.signal = lambda *a: signal.SIG_DFL
    runs = [(k, k.run) for k in run_too]
    for k in run_too:
        k.run = lambda self: c.got.append(self)
    try:
        yield c
    finally:
        for k, r in runs:
            k.run = r
        signal.signal = real_signal
        w.proc_host = old


def command_line(module, args):
    argv = sys.argv
    sys.argv = ["scaled_x", *args]
    try:
        importlib.import_module(module).main()
    finally:
        sys.argv = argv


def quiet():
    for m in [m for n, m in sys.modules.items() if n.startswith("scaled.")]:
        if hasattr(m, "setup_logger"):
            m.setup_logger = lambda *a, **k: None


def of_class(objs, name):
    return [o for o in objs if any(k.__name__ == name for k in type(o).__mro__)]


# ---------------------------------------------------------------- options

def scheduler_options(cfg, scale):
    """name -> value; options that have the default value may be left out"""
    o = dict(io_threads=2, max_number_of_tasks_waiting=cfg["maxwait"], per_worker_queue_size=cfg["limit"],
             worker_timeout_seconds=cfg["wto"] * scale // 10, function_retention_seconds=cfg["fret"] * scale // 10,
             load_balance_seconds=scale if cfg["lb"] else 0, load_balance_trigger_times=cfg["trig"])
    return {k: v for k, v in o.items() if k not in cfg["omit"]}


def cli(options):
    out = []
    for k, v in options.items():
        out += ["--" + k.replace("_", "-"), str(v)]
    return out


def workers(objs):
    """the workers a captured cluster starts"""
    from scaled.worker.worker import Worker
    with catching([Worker]) as c:
        for cl in of_class(objs, "Cluster"):
            cl.run()
        return of_class(c.got, "Worker")


def make_worker(address, cfg):
    """the last worker of a cluster"""
    from scaled.cluster.cluster import Cluster
    from scaled.cluster.combo import SchedulerClusterCombo
    from scaled.protocol.python.serializer.default import DefaultSerializer
    from scaled.utility.zmq_config import ZMQConfig
    from scaled.worker.worker import Worker
    o = dict(n_workers=cfg["n"], heartbeat_interval_seconds=cfg["hb"] // 10, function_retention_seconds=cfg["fret"] // 10,
             death_timeout_seconds=cfg["death"] // 10, garbage_collect_interval_seconds=cfg["gc"] // 10,
             trim_memory_threshold_bytes=cfg["trim"])
    o = {k: v for k, v in o.items() if k not in cfg["omit"]}
    if cfg["via"] == "cluster":
        return workers([Cluster(address=ZMQConfig.from_string(address), event_loop="builtin", serializer=DefaultSerializer(), **o)])
    if cfg["via"] == "combo":
        with catching() as c:
            combo = SchedulerClusterCombo(address, o.pop("n_workers"), event_loop="builtin", **o,
                                          worker_timeout_seconds=77, per_worker_queue_size=3)
            got = list(c.got)
            combo.shutdown()
        return workers(got)
    names = {"n_workers": "num_of_workers", "heartbeat_interval_seconds": "heartbeat_interval"}
    with catching([Worker]) as c:
        command_line("scaled.entry_points.cluster", cli({names.get(k, k): v for k, v in o.items()}) + [address])
    return of_class(c.got, "Worker")


def launch_scheduler(stepper, address, cfg, scale):
    """lets the real start-up code put its main task onto the loop of the harness"""
    from scaled.cluster.combo import SchedulerClusterCombo
    from scaled.cluster.scheduler import SchedulerProcess
    from scaled.utility.zmq_config import ZMQConfig
    o = scheduler_options(cfg, scale)
    loop = stepper.loop

    def take(main, *a, **k):
        stepper.task = main if isinstance(main, asyncio.Future) else loop.create_task(main)

    loop.run_until_complete = take
    saved = asyncio.run, asyncio.new_event_loop, asyncio.get_event_loop
    asyncio.run, asyncio.new_event_loop, asyncio.get_event_loop = take, lambda: loop, lambda: loop
    asyncio.set_event_loop(loop)
    asyncio._set_running_loop(None)
    try:
        if cfg["via"] == "cli":
            with catching():
                command_line("scaled.entry_points.scheduler", cli(o) + [address])
        else:
            if cfg["via"] == "process":
                p = SchedulerProcess(address=ZMQConfig.from_string(address), **o)
            else:
                with catching() as c:
                    combo = SchedulerClusterCombo(address, 2, heartbeat_interval_seconds=3, death_timeout_seconds=44, **o)
                    p = of_class(c.got, "SchedulerProcess")[0]
                    combo.shutdown()
            with catching():
                p.run()
    finally:
        asyncio.run, asyncio.new_event_loop, asyncio.get_event_loop = saved
        del loop.run_until_complete
    assert stepper.task is not None
