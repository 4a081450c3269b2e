"""The worker harness on workers of clusters started as users start them."""
from . import deploy, env, worker  # noqa
from .worker import ADDR, WorkerSim, hung  # noqa

LOCKS = True


class DeploySim(WorkerSim):
    def make(self):
        lst = deploy.make_worker(ADDR, self.cfg)
        self.count = len(lst)
        if not lst:
            lst = [super().make()]
        return lst[self.cfg["pick"] % len(lst)]

    def start(self):
        super().start()
        self.events.insert(0, {"e": "workers", "n": self.count})


def prepare():
    import scaled.cluster.combo  # noqa
    import scaled.entry_points.cluster  # noqa
    deploy.quiet()
    worker.prepare()


def run_schedule(sch):
    return worker.run_schedule(sch, DeploySim)
