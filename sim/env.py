"""Set up a process for simulated runs: must be imported before scaled."""
import logging
import os
import sys
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

REPO = os.environ.get("SCALED_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import psutil  # noqa: E402


class FakeMem:
    rss = 1 << 20
    vms = 1 << 20


class FakePsProcess:
    cpu = 0.25  # per mille resolution survives the wire

    def __init__(self, pid=None):
        self.pid = pid

    def cpu_percent(self, interval=None):
        return 25.0

    def memory_info(self):
        return FakeMem()

    def is_running(self):
        return True


def install(locks):
    from . import fakezmq, kernel
    import multiprocessing  # noqa  (bind real primitives first)
    import multiprocessing.connection  # noqa
    import multiprocessing.queues  # noqa
    import concurrent.futures  # noqa
    import queue  # noqa
    import cloudpickle  # noqa
    import tblib.pickling_support  # noqa
    psutil.Process = FakePsProcess
    fakezmq.install()
    kernel.install(locks=locks)
    # logging keeps its own locks: nothing may block there
    logging.raiseExceptions = False
    sys.unraisablehook = lambda *a: None
    import scaled
    assert os.path.realpath(scaled.__file__).startswith(os.path.realpath(REPO) + os.sep), scaled.__file__
