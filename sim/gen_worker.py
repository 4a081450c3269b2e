"""Random schedules for the worker harness."""

BASE = dict(c=26, settle=7, tick=6, task=22, finish=16, answerfn=16, dupfn=2, cancel=4, cancelcur=4, balance=4, echo=8,
            redeliver=.7, redeliverheld=1.5, delete=2, drop=1, forget=.6, strayfn=1, cancelunknown=.4, told=.1, burst=3, silence=0, use=0, putback=.3, die=.3)
VALUES = "none false zero blank list bytes pair exc class fn big notimpl".split()
ERRORS = ("key assert eof timeout pipe empty full memory bare type attr notimpl pickle ccancel value runtime os again again zmq zmq zmq "
          "cancel stop astop genexit").split()
KINDS = dict(ret=10, raise_=2, badret=.5, badexc=.5, exit=.5, base=.5)

PROFILES = {
    "mixed": {},
    "run": dict(cancel=1, cancelcur=1, balance=1, delete=.5, redeliverheld=5, burst=6),
    "cancel": dict(cancel=12, cancelcur=14, balance=1, burst=5),
    "balance": dict(balance=16, burst=10, cancel=2, cancelcur=1),
    "functions": dict(delete=10, drop=6, forget=3, strayfn=5, dupfn=6, cancelcur=6, tick=10),
    "cache": dict(use=50, delete=2, answerfn=24, finish=24, settle=10, drop=.3, forget=.1, strayfn=1, cancel=1, cancelcur=1, balance=.5, tick=12, told=0),
    "heartbeat": dict(tick=22, echo=14, told=1, silence=3, putback=4),
    "outcomes": dict(cancelcur=1, cancel=1, balance=.5),
    "death": dict(die=7, tick=12, cancelcur=1, cancel=2, balance=2, delete=1, echo=10),
}


def schedule(rng, profile, length=None):
    w = dict(BASE)
    w.update(PROFILES[profile])
    kinds = dict(KINDS)
    if profile == "outcomes":
        kinds.update(ret=5, raise_=3, badret=2, badexc=2, exit=2, base=2)
    elif rng.random() < .5:
        kinds = dict(ret=8, raise_=2)
    nf = rng.choice([1, 2, 2, 3] if profile != "cache" else [1, 2, 3, 4, 6])
    fs = [f"f{i + 1}" for i in range(nf)]
    if profile == "outcomes":
        fs.append("bad1")
    elif profile == "mixed" and rng.random() < .2:
        fs.append("bad1")
    badargs = profile == "outcomes" or profile == "mixed"
    cfg = dict(hb=rng.choice([10, 20, 20, 30]), death=rng.choice([30, 50, 50, 100]), seed=rng.randrange(1 << 30),
               fret=rng.choice([10, 20, 30, 50]) if profile in ("functions", "cache") else rng.choice([20, 50, 200]),
               preempt=rng.choice([0, 0, .05, .2]), pipe=rng.random() < .5, uneven=rng.random() < .3)
    cfg["gc"] = rng.choice([10, 20, 50, 300, 300])
    cfg["full"] = rng.random() < .5
    slow = rng.random() < .2
    if profile != "heartbeat" or slow:
        cfg["death"] = 6000
    if slow and rng.random() < .3:
        cfg["death"] = 500000
    names = list(w)
    weights = [w[k] for k in names]
    knames = list(kinds)
    kweights = [kinds[k] for k in knames]
    steps = []
    if rng.random() < .6:
        steps.append(["settle"])
    for _ in range(length or rng.choice([25, 40, 60, 90])):
        k = rng.choices(names, weights)[0]
        f = rng.choice(fs)
        i = rng.randrange(10)
        if k == "c":
            steps.append(["c", rng.choice([1, 2, 3, 6])])
        elif k == "settle":
            steps.append(["settle"])
        elif k == "tick":
            for _ in range(rng.choice([1, 1, 2, 4])):
                if rng.random() < .85:
                    steps.append(["echo"])
                steps.append(["tick"] + ([rng.choice([30, 100, 650, 30, 100, 650, 90000])] if slow and rng.random() < .3 else []))
                if profile == "cache" and rng.random() < .4:
                    steps[-1] = ["tick", cfg["fret"] + rng.choice([-10, 0, 10, 20, 30])]
        elif k == "silence":
            for _ in range(rng.choice([2, 4, cfg["death"] // 10 + 2 if cfg["death"] <= 100 else 6])):
                steps.append(["tick"])
        elif k == "task":
            steps.append(["task", f, rng.choice([1, 1, 2, 3, 8]), badargs and rng.random() < .12])
        elif k == "use":
            steps += [["task", f], ["settle"], ["answerfn", 0, 1], ["settle"], ["finish", "ret"], ["settle"]]
        elif k == "burst":
            steps += [["task", rng.choice(fs)] for _ in range(rng.choice([3, 4, 7, 15]))]
        elif k == "finish":
            kind = rng.choices(knames, kweights)[0].rstrip("_")
            steps.append(["finish", kind])
            if rng.random() < (.5 if profile == "outcomes" else .1):
                steps[-1].append(rng.choice(VALUES if kind == "ret" else ERRORS) if kind in ("ret", "raise") else None)
        elif k == "answerfn":
            steps.append(["answerfn", rng.choice([0, 0, 1]), 1])
        elif k == "dupfn":
            steps.append(["answerfn", 0, 2])
        elif k == "cancel":
            steps.append(["cancel", i, rng.choice(["held", "held", None])])
        elif k == "balance":
            steps.append(["balance", rng.choice([1, 1, 2, 3, 5, 9])])
        elif k == "redeliver" or k == "redeliverheld":
            steps.append([k, i])
        elif k in ("delete", "drop", "strayfn"):
            steps.append([k, f])
        elif k == "putback":
            steps.append(["putback", rng.choice([1, 1, 5, 20, 200])])
        elif k == "told":
            if rng.random() < .5:
                steps.append(["told"])
        else:
            steps.append([k])
    steps += [["drain"], ["task", "f1"], ["drain"], ["echo"], ["tick"], ["settle"]]
    if rng.random() < .2:
        steps += [["told"], ["settle"]]
    return {"cfg": cfg, "steps": steps, "profile": profile}


def from_model(log, rng):
    """a schedule printed by TLC"""
    steps = [list(s) for s in log]
    cfg = dict(hb=20, death=6000, gc=rng.choice([20, 300]), full=rng.random() < .5, seed=rng.randrange(1 << 30), fret=rng.choice([20, 200]), preempt=rng.choice([0, .1]),
               pipe=rng.random() < .7)
    steps += [["drain"], ["task", "f1"], ["drain"], ["echo"], ["tick"], ["settle"]]
    return {"cfg": cfg, "steps": steps, "profile": "model"}
