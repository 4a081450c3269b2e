"""Random schedules for the client harness."""

VALUES = "none false zero blank list bytes pair exc class fn big notimpl".split()
ERRORS = ("key assert eof timeout pipe empty full memory bare type attr notimpl pickle ccancel value runtime os again zmq").split()
BASE = dict(c=30, settle=6, submit=20, burst=3, map=2, get=3, getb=1, fcancel=1.5, disconnect=.1, serve=22, serveall=5,
            refuse=.3, forget=1.5, result=14, gresult=4, stray=3)
PROFILES = {
    "mixed": {},
    "race": dict(submit=30, burst=6, map=1, get=1, getb=0, forget=4, serve=30, c=50, settle=1),
    "graph": dict(get=14, getb=3, gresult=14, submit=6, map=.5),
    "map": dict(map=10, submit=6, get=1, result=20),
    "bye": dict(disconnect=2.5, get=5),
    "leave": {},
    "outcomes": dict(stray=12, fcancel=8, refuse=2, forget=3),
}


def shape(rng, nt=1):
    n = rng.choice([1, 2, 3, 3, 4, 5] * 4 + [9])
    nodes = []
    for i in range(n):
        args = [rng.choice(list(range(i)) + [-1, -2, -3]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        nodes.append([rng.choice(["f1", "f2", "f3"]), args])
    if nt > 1 and not any(a < 0 for _, args in nodes for a in args):
        nodes[0][1].append(-1)  # tells the graph of one thread from another's
    # names need not be in dependency order
    perm = list(range(n))
    rng.shuffle(perm)
    out = [None] * n
    for i, (f, args) in enumerate(nodes):
        out[perm[i]] = [f, [a if a < 0 else perm[a] for a in args]]
    k = rng.choice([0, 1, 1, 2, 2, 3])
    return out, [rng.randrange(n) for _ in range(k)] if rng.random() < .9 else []


def leaving(rng):
    """one thread disconnects while others are in the middle of calls"""
    nt = rng.choice([2, 3])
    cfg = dict(threads=nt, seed=rng.randrange(1 << 30), preempt=rng.choice([.3, .6, .9]), uneven=rng.random() < .8)
    steps = []
    if rng.random() < .5:
        steps += [["submit", 0, "f1"], ["submit", 1, "f2"], ["c", 40], ["serve", 20], ["c", rng.choice([0, 10, 40])]]
    for _ in range(rng.choice([1, 2, 4])):
        th, k = rng.randrange(nt - 1), rng.choice(["submit", "submit", "submit", "get", "getb", "map"])
        if k == "submit":
            steps.append(["submit", th, rng.choice(["f1", "f2"]), rng.choice([1, 2]), rng.random() < .2, rng.choice([0, 0, 1])])
        elif k == "map":
            steps.append(["map", th, "f1", rng.choice([1, 2, 5])])
        else:
            sh, keys = shape(rng, nt)
            steps.append(["get", th, sh, keys, k == "getb"])
    steps.append(["c", rng.randrange(30)])
    if rng.random() < .3:
        steps += [["serve", 20], ["result", 0], ["gresult", 0], ["result", 1, rng.choice(["Success", "Failed"])]]
    steps += [["disconnect", nt - 1], ["c", rng.choice([60, 120, 300])]]
    if rng.random() < .3:
        steps += [["serve", 20], ["c", 40], ["submit", 0, "f1"], ["c", 60], ["disconnect", 0]]
    return {"cfg": cfg, "steps": steps + [["settle"]], "profile": "leave"}


def schedule(rng, profile, length=None):
    if profile == "leave":
        return leaving(rng)
    w = dict(BASE)
    w.update(PROFILES[profile])
    names = list(w)
    weights = [w[k] for k in names]
    nt = rng.choice([1, 2, 2, 3])
    cfg = dict(threads=nt, seed=rng.randrange(1 << 30), preempt=rng.choice([0, .1, .3, .6]), uneven=rng.random() < .4)
    fs = [f"f{i + 1}" for i in range(rng.choice([1, 2, 3]))]
    bad = .25 if profile == "outcomes" else .04
    steps = []

    def status():
        if rng.random() < bad:
            return rng.choice(["badret", "badexc"])
        if profile in ("mixed", "outcomes", "graph") and rng.random() < .03:
            return rng.choice(["Canceled", "NotFound"])
        return "Failed" if rng.random() < (.05 if profile in ("map", "graph") else .2) else "Success"

    for _ in range(length or rng.choice([20, 35, 60])):
        k = rng.choices(names, weights)[0]
        th = rng.randrange(nt)
        f = rng.choice(fs)
        i = rng.randrange(12)
        if k == "c":
            steps.append(["c", rng.choice([1, 3, 6, 12])])
        elif k == "submit":
            steps.append(["submit", th, f, rng.choice([1, 1, 2, 6]), rng.random() < .2,
                          rng.choice([0, 0, 0, 1, 2]), rng.random() < .03])
        elif k == "burst":
            steps += [["submit", rng.randrange(nt), rng.choice(fs)] for _ in range(rng.choice([2, 4]))]
        elif k == "map":
            steps.append(["map", th, f, rng.choice([0, 1, 2, 3, 4, 12]),
                          rng.choice(["list", "list", "tuple", "iter", "gen", "bad", "badlast"]),
                          rng.choice([[1], [1], [2, 1], [1, 0, 1], [0, 1, 1, 3]])])
            if profile == "map" and rng.random() < .4:  # answers while it submits
                for _ in range(rng.choice([4, 10])):
                    steps += [["c", rng.choice([2, 6, 10])], ["serve", 20], ["result", rng.randrange(12)]]
        elif k in ("get", "getb"):
            sh, keys = shape(rng, nt)
            steps.append(["get", th, sh, keys, k == "getb",
                          rng.choice(["undefined", "cycle", "key", "data"]) if rng.random() < .1 else None])
        elif k == "serve":
            steps.append(["serve", rng.choice([1, 1, 2])])
        elif k == "serveall":
            steps.append(["serve", 20])
        elif k == "refuse":
            steps.append(["serve", 1, "NoWorker"])
        elif k == "forget":
            steps.append(["forget", rng.choice([None, f])])
        elif k in ("result", "gresult"):
            for _ in range(rng.choice([1, 1, 3])):
                st = status()
                steps.append([k, i, st])
                if rng.random() < (.3 if profile in ("outcomes", "map") else .1):
                    steps[-1].append(rng.choice(VALUES if st == "Success" else ERRORS) if st in ("Success", "Failed") else None)
        elif k == "stray":
            steps.append(["stray", rng.choice(["result", "failed", "echo", "graph", "fn"]), i])
        elif k == "fcancel":
            steps.append(["fcancel", th, i])
        else:
            steps.append([k] + ([th] if k == "disconnect" else []))
    steps += [["drain"], ["submit", 0, "f1"], ["drain"]]
    if rng.random() < .5:
        if rng.random() < .5:
            steps += [["submit", 0, "f2"], ["get", nt - 1, [["f1", [-1]]], [0], False]]
        for _ in range(rng.choice([0, 1, 4])):
            steps.append(["submit", rng.randrange(nt), rng.choice(fs)])
        steps += [["c", rng.choice([0, 5, 20, 60])], ["disconnect", nt - 1], ["c", rng.choice([0, 5, 20, 60])],
                  ["submit", 0, "f1"], ["get", 0, [["f1", [-1]]], [0], False], ["settle"],
                  ["submit", 0, "f1"], ["get", nt - 1, [["f1", [-1]]], [0], rng.random() < .5], ["settle"]]
    return {"cfg": cfg, "steps": steps, "profile": profile}


def from_model(log, rng):
    """a schedule printed by TLC"""
    steps = []
    for s in log:
        s = list(s)
        if s[0] == "c":
            s[1] = rng.choice([0, 1, 1, 2, 4])
        elif s[0] in ("result", "gresult", "fcancel"):
            s[2 if s[0] == "fcancel" else 1] = rng.randrange(8)
        steps.append(s)
    cfg = dict(threads=2, seed=rng.randrange(1 << 30), preempt=rng.choice([0, .1, .3, .6]))
    steps += [["drain"], ["submit", 0, "f1"], ["drain"], ["disconnect", 1], ["settle"], ["submit", 0, "f1"], ["settle"]]
    return {"cfg": cfg, "steps": steps, "profile": "model"}
