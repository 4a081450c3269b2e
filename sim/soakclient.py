"""The client over a long time: the same story told again and again by one program."""
from . import client, held

LOCKS = True
prepare = client.prepare


class SoakSim(client.ClientSim):
    def rounds(self, steps, n):
        self.ids, self.fid = {}, {}
        for _ in range(n):
            for s in steps:
                getattr(self, "do_" + s[0])(*s[1:])
            self.do_drain()
            self.settle()
            if self.over or self.events[-1]["e"] == "livelock":
                return self
            self.past.clear()
            self.graphs.clear()
            self.calls.clear()
            self.futures.clear()
            self.ev("held", n=held.count([self.client]))
        return self


def run_schedule(sch):
    sim = SoakSim(sch["cfg"])
    try:
        sim.rounds(sch["steps"], sch["rounds"])
        return {"cfg": {"threads": sch["cfg"]["threads"]}, "ev": list(sim.events)}
    finally:
        sim.close()


hung = client.hung
