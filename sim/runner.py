"""Executes schedules of one component against the real code, in this process.

usage: python -m sim.runner COMPONENT IN.ndjson OUT.ndjson   (started by vlib.core in several processes)
"""
import importlib
import json
import os
import signal
import sys

PER_SCHEDULE = 30  # seconds; the code under test hangs if a schedule takes this long


class Hang(BaseException):
    pass


def main():
    comp, src, dst = sys.argv[1:4]
    from . import env
    mod = importlib.import_module("sim." + comp)
    if hasattr(mod, "early"):
        mod.early()
    if not getattr(mod, "REAL", False):
        env.install(locks=getattr(mod, "LOCKS", False))
    if hasattr(mod, "prepare"):
        mod.prepare()
    devnull = os.open(os.devnull, os.O_WRONLY)
    out = open(dst, "w")
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)

    def alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, alarm)
    with open(src) as f:
        for line in f:
            sch = json.loads(line)
            signal.setitimer(signal.ITIMER_REAL, PER_SCHEDULE, 1)
            try:
                tr = mod.run_schedule(sch)
            except Hang:
                tr = mod.hung(sch)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out.write(json.dumps(tr) + "\n")
            out.flush()
    out.close()
    os._exit(0)


if __name__ == "__main__":
    main()
