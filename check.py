#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  |  check.py replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402


def checks(prop, tier, seed):
    n = int(prop[1:])
    if n <= 13:
        from vlib import scheduler
        return scheduler.check(prop, tier, seed)
    if n <= 19 or n == 31:
        from vlib import worker
        return worker.check(prop, tier, seed)
    if n in (20, 21, 22, 23, 25):
        from vlib import client
        return client.check(prop, tier, seed)
    if n == 24:
        from vlib import binding
        return binding.check(prop, tier, seed)
    if n == 28:
        from vlib import queue
        return queue.check(prop, tier, seed)
    if n == 29:
        from vlib import wire
        return wire.check(prop, tier, seed)
    if n == 35:
        from vlib import display
        return display.check(prop, tier, seed)
    if n == 34:
        from vlib import soak
        return soak.check(prop, tier, seed)
    if n == 33:
        from vlib import deploy
        return deploy.check(prop, tier, seed)
    if n == 32:
        from vlib import cluster
        return cluster.check(prop, tier, seed)
    if n in (26, 27, 30):
        from vlib import system
        return system.check(prop, tier, seed)
    raise SystemExit(f"no check for {prop}")


if __name__ == "__main__":
    sys.exit(core.main(checks))
