"""The worker over a long time: the same story told again and again."""
from . import held, worker

LOCKS = True
early = getattr(worker, "early", lambda: None)
prepare = getattr(worker, "prepare", lambda: None)


class SoakSim(worker.WorkerSim):
    def rounds(self, steps, n):
        for _ in range(n):
            self.run(steps)
            self.do_drain()
            for _ in range(self.cfg["fret"] // 10 + 3):  # caches age out
                self.do_echo()
                self.do_tick()
                self.do_drain()
            if self.dead:
                return self
            self.echoes = 0
            self.sent.clear()
            self.ev("held", n=held.of_loop(self.agent.user["loop"]), st="agent")
            p = [p for p in self.procs if p.alive and not getattr(p, "silent", False)]
            if len(p) == 1:
                mine = [i for i, t in self.world.by_ident.items() if t in p[0].threads]
                self.ev("held", n=sum(held.of_thread(i) for i in mine), st="processor")
        return self


def run_schedule(sch):
    sim = SoakSim(sch["cfg"])
    try:
        sim.rounds(sch["steps"], sch["rounds"])
        return {"cfg": sch["cfg"], "ev": list(sim.events)}
    finally:
        sim.close()


hung = worker.hung
