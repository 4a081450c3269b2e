"""Random schedules for the whole system."""
from .gen_client import shape

BASE = dict(c=34, settle=5, submit=14, burst=4, get=5, getb=.7, map=1, finish=20, finishall=4, tick=6, crash=0, silence=0,
            heal=0, leave=0, join=0, disconnect=0, lose=0, user=0, fcancel=.5, wait=.3)
PROFILES = {
    "calm": {},
    "faults": dict(crash=1.2, silence=1.5, heal=2, leave=.7, join=2.2, tick=9, wait=1.5),
    "flaky": dict(silence=4, heal=5, tick=12, join=1, wait=2),
    "bye": dict(disconnect=3, lose=.5, user=3, getb=1, map=1.5),
    "mixed": dict(crash=.7, silence=1, heal=1.5, leave=.5, join=1.5, disconnect=1, lose=.3, user=1, tick=8, wait=1),
}


def schedule(rng, profile, length=None):
    w = dict(BASE)
    w.update(PROFILES[profile])
    names = list(w)
    weights = [w[k] for k in names]
    cfg = dict(seed=rng.randrange(1 << 30), workers=rng.choice([1, 2, 2, 3]), clients=rng.choice([1, 2, 2, 3]),
               limit=rng.choice([1, 2, 3, 8]), wto=rng.choice([3, 4, 6]), fret=rng.choice([2, 5, 20]),
               wfret=rng.choice([2, 5, 20]), lb=rng.choice([0, 1, 1]), trig=rng.choice([1, 2]), hb=rng.choice([1, 1, 2]),
               death=rng.choice([5, 8, 30]), preempt=rng.choice([0, 0, .1, .3]), pipe=rng.choice([0, 1]),
               uneven=rng.choice([0, 1]))
    fs = ["f1", "f2", "f3"][:rng.choice([1, 2, 3])]
    fail = 0 if rng.random() < .5 else rng.choice([.1, .3])
    steps = [["settle"]] if rng.random() < .5 else []
    for _ in range(length or rng.choice([15, 30, 50])):
        k = rng.choices(names, weights)[0]
        i = rng.randrange(12)
        f = rng.choice(fs)
        if k == "c":
            steps.append(["c", rng.choice([5, 20, 60, 150])])
        elif k == "submit":
            steps.append(["submit", i, f, rng.choice([1, 1, 2])])
        elif k == "burst":
            steps.append(["submit", i, f, 1, rng.choice([3, 5, 8])])
        elif k in ("get", "getb"):
            sh, keys = shape(rng)
            steps.append(["get", i, sh, keys or [0], k == "getb"])
        elif k == "map":
            steps.append(["map", i, f, rng.choice([1, 2, 4])])
        elif k in ("finish", "finishall"):
            kind = "ret" if rng.random() >= fail else rng.choice(["raise", "raise", "raise", "badret", "badexc"])
            steps.append([k] + ([i] if k == "finish" else []) + [kind])
        elif k == "tick":
            steps.append(["tick", 1])
        elif k == "wait":
            steps.append(["tick", rng.choice([3, 5, 8])])
        elif k in ("crash", "silence", "heal", "leave", "disconnect", "lose", "fcancel"):
            steps.append([k, i])
        else:
            steps.append([k])
    steps += [["drain"], ["submit", 0, "f1", 1, 3], ["submit", 1, "f2", 1, 2], ["drain"]]
    return {"cfg": cfg, "steps": steps, "profile": profile}


def from_model(log, rng):
    """a schedule printed by TLC"""
    steps = []
    for s in log:
        s = list(s)
        if s[0] == "c":
            s[1] = rng.choice([0, 10, 40, 100, 200])
        elif s[0] == "tick":
            s[1] = rng.choice([1, 4, 8])
        steps.append(s)
    cfg = dict(seed=rng.randrange(1 << 30), workers=2, clients=2, limit=rng.choice([1, 2, 2, 3]), wto=rng.choice([3, 4, 6]),
               fret=20, wfret=20, lb=1, trig=rng.choice([1, 2]), hb=1, death=30, preempt=rng.choice([0, 0, .2]),
               pipe=rng.choice([0, 1]), uneven=rng.choice([0, 1]))
    return {"cfg": cfg, "steps": steps + [["drain"], ["submit", 0, "f1", 1, 2], ["drain"]], "profile": "model"}
