"""The scheduler harness on schedulers started as users start them.

The options are whole seconds there, so time passes ten times as fast: the intervals in scaled's configuration that are
not options are stretched to match.
"""
from . import deploy, env, sched  # noqa
from .sched import ADDR, SchedSim, hung  # noqa

LOCKS = getattr(sched, "LOCKS", False)
SCALE = 10


class DeploySim(SchedSim):
    scale = SCALE

    def launch(self):
        deploy.launch_scheduler(self.step, ADDR, self.cfg, SCALE)


def early():
    """before anything of scaled is there"""
    import importlib.util
    import os
    import sys
    name = "scaled.io.config"
    spec = importlib.util.spec_from_file_location(name, os.path.join(env.REPO, "scaled", "io", "config.py"))
    c = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(c)
    for k in ("CLEANUP_INTERVAL_SECONDS", "STATUS_REPORT_INTERVAL_SECONDS", "DEFAULT_WORKER_TIMEOUT_SECONDS",
              "DEFAULT_LOAD_BALANCE_SECONDS", "DEFAULT_FUNCTION_RETENTION_SECONDS"):
        setattr(c, k, getattr(c, k) * SCALE)
    sys.modules[name] = c


def prepare():
    import scaled.cluster.combo  # noqa
    import scaled.entry_points.scheduler  # noqa
    deploy.quiet()
    if hasattr(sched, "prepare"):
        sched.prepare()
    from .host import install
    install()


def run_schedule(sch):
    return sched.run_schedule(sch, DeploySim)
