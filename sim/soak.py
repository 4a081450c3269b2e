"""The scheduler over a long time: the same story told again and again with fresh names.

After each telling nothing is left to do, and the amount of data the scheduler holds is recorded ("held").
"""
import re

from . import held, sched

NAME = re.compile(r"^([cwf])(\d+)$")


class SoakSim(sched.SchedSim):
    def rename(self, x, r):
        if isinstance(x, str):
            return NAME.sub(lambda m: f"{m.group(0)}r{r}", x)
        if isinstance(x, list):
            return [self.rename(y, r) for y in x]
        return x

    def story(self, steps, r, stay):
        self.tasks, self.order, self.graphs, self.gorder = {}, [], {}, []
        if not stay:
            self.workers = {}
            steps = self.rename(steps, r)
        self.run(steps)
        # nobody is interested in the rest; whoever is silent is noticed
        for c in list(self.clients):
            self.do_disconnect_client(c)
        helper = self.worker("wz" if stay else f"wzr{r}").name
        self.do_hb(helper)
        for _ in range(self.cfg["wto"] // 10 + 2):
            self.do_drain()
            self.do_tick()
        self.do_drain()
        for c in list(self.clients):
            self.do_disconnect_client(c)
        self.do_drain()
        if not stay:
            for i, w in enumerate(list(self.workers)):
                if i % 2:
                    self.do_mute(w)
                else:
                    self.do_leave(w)
            for _ in range(max(self.cfg["wto"], self.cfg["fret"]) // 10 + 2):
                self.do_tick()
        if not self.dead:
            self.events.append({"e": "held", "n": held.of_loop(self.step.loop)})


def run_schedule(sch):
    sim = SoakSim(sch["cfg"])
    try:
        for r in range(sch["rounds"]):
            sim.story(sch["steps"], r + 1, sch["stay"])
        return {"cfg": sch["cfg"], "ev": list(sim.events)}
    finally:
        sim.close()


def hung(sch):
    return {"cfg": sch["cfg"], "ev": [{"e": "died"}]}
