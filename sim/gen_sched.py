"""Random schedules for the scheduler harness: one weighting of steps per property profile."""

BASE = dict(c=14, settle=6, tick=5, hb=6, submit=24, result=20, cancel=4, fn=2, ackcancel=5, giveback=5, mute=1.5,
            leave=1.5, late=1, stray=.5, graph=2, gcancel=1, wfn=1, junk=0, resubmit=1, balanceany=.5, reset=.3,
            drop=.5, cancel_unknown=.3, discclient=.3, burst=3)

PROFILES = {
    "mixed": {},
    "tasks": dict(graph=0, gcancel=0, late=4, stray=1),
    "loss": dict(graph=.5, mute=5, leave=5, hb=10, tick=8, reset=2, late=2),
    "limit": dict(graph=.3, giveback=8, cancel=8, mute=2, leave=2, hb=8, late=3),
    "balance": dict(graph=0, gcancel=0, hb=8, tick=14, giveback=12, submit=30, result=8, cancel=1, mute=.3, leave=.5),
    "admission": dict(graph=3, submit=40, fn=4, hb=3, resubmit=4, result=16, drop=2),
    "cancel": dict(cancel=18, ackcancel=10, graph=1, mute=2, giveback=6, discclient=1.5, hb=8),
    "functions": dict(fn=10, wfn=6, tick=16, drop=6, submit=12, graph=3, cancel=2, resubmit=3),
    "graphs": dict(graph=14, gcancel=1.5, submit=4, result=34, cancel=.3, mute=.7, leave=.7, ackcancel=8),
    "teardown": dict(graph=14, gcancel=6, submit=3, result=24, ackcancel=8, mute=1, leave=1, discclient=1),
    "junk": dict(junk=8, stray=4, late=4, cancel_unknown=4, leave=3),
    "monitor": dict(tick=10, graph=4, gcancel=2, giveback=6),
}


def shapes(rng, large=False):
    """a graph shape: list of argument lists (int = earlier or later node, 'd' = literal)"""
    n = rng.choice([8, 12, 16]) if large else rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    out = []
    for i in range(n):
        args = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3] + [8] * large)):
            if i and rng.random() < .75:
                args.append(rng.randrange(i))
            else:
                args.append("d")
        if args and rng.random() < .15:
            args.append(args[0])
        out.append(args)
    # nodes need not be listed in dependency order
    if rng.random() < .4:
        perm = list(range(n))
        rng.shuffle(perm)
        pos = {old: new for new, old in enumerate(perm)}
        out = [[a if a == "d" else pos[a] for a in out[old]] for old in perm]
    k = rng.randint(1, n)
    targets = rng.sample(range(n), k)
    return out, targets


def schedule(rng, profile, length=None):
    w = dict(BASE)
    w.update(PROFILES[profile])
    if profile != "junk":
        w["junk"] = 0
    nw = rng.choice([1, 2, 2, 3, 3, 4])
    nc = rng.choice([1, 2, 2, 3])
    nf = rng.choice([1, 2, 3])
    limit = rng.choice([1, 1, 2, 2, 3, 4]) if profile != "balance" else rng.choice([2, 4, 5, 8])
    cfg = dict(limit=limit, maxwait=rng.choice([-1, -1, -1, 0, 1, 2, 4]) if profile != "admission"
               else rng.choice([-1, 0, 0, 1, 2, 3]),
               wto=rng.choice([15, 25, 35, 65]), fret=rng.choice([5, 15, 25, 45, 205]) if profile == "functions"
               else rng.choice([25, 45, 205]),
               lb=rng.random() < (.85 if profile == "balance" else .6), trig=rng.choice([1, 2, 2, 3]))
    # sometimes many of everything
    crowd = rng.random() < .08
    if crowd:
        nw, nc, nf = rng.choice([6, 9]), rng.choice([2, 5]), rng.choice([2, 6])
        cfg["limit"] = rng.choice([1, 2, 5, 1000])
        if cfg["maxwait"] > 0:
            cfg["maxwait"] = rng.choice([1, 5, 12])
    cfg["odd"] = rng.random() < .3
    cs = [f"c{i + 1}" for i in range(nc)]
    ws = [f"w{i + 1}" for i in range(nw)]
    fs = [f"f{i + 1}" for i in range(nf)]
    samename = rng.random() < .25
    steps = []

    def fname():
        return "samename" if samename else None

    for f in fs:
        if rng.random() < .8:
            steps.append(["fn", rng.choice(cs), f, "Add", fname()])
    early = rng.random() < .8
    if early:
        for x in ws[:rng.randint(1, nw)]:
            steps.append(["hb", x])
    if rng.random() < .7:
        steps.append(["settle"])
    kinds = list(w)
    weights = [w[k] for k in kinds]
    n = length or rng.choice([25, 40, 60, 90])
    for _ in range(n):
        k = rng.choices(kinds, weights)[0]
        wk, c, f = rng.choice(ws), rng.choice(cs), rng.choice(fs)
        if crowd and k == "result":  # many at once
            for x in ws:
                steps.append(["result", x, rng.choice([0, 1, 5]), rng.choices(["Success", "Failed"], [6, 1])[0]])
        i = rng.randrange(12)
        if k == "c":
            steps.append(["c", rng.choice([1, 1, 2, 3])])
        elif k == "settle":
            steps.append(["settle"])
        elif k == "tick":
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                steps.append(["tick"])
        elif k == "hb":
            steps.append(["hb", wk])
        elif k == "submit":
            steps.append(["submit", c, f, rng.choice([0, 1, 1, 2])])
        elif k == "burst":
            steps += [["submit", c, f] for _ in range(rng.choice([12, 25] if crowd else [3, 5, 9]))]
        elif k == "result":
            steps.append(["result", wk, rng.choice([0, 0, 0, 1, 2]),
                          rng.choices(["Success", "Failed"], [6, 1])[0]])
        elif k == "cancel":
            steps.append(["cancel", i, None, rng.choice(["open", "open", "open", None, "done"])])
        elif k == "cancel_unknown":
            steps.append(["cancel_unknown", c])
        elif k == "fn":
            steps.append(["fn", c, f, rng.choice(["Add", "Add", "Check"]), fname()])
        elif k == "drop":
            steps.append(["fn", c, f, "Delete"])
        elif k == "ackcancel":
            steps.append(["ackcancel", wk])
        elif k == "giveback":
            steps.append(["giveback", wk, rng.choice([None, None, 1]), rng.choice([0, 0, 1, 2, 3])])
        elif k == "balanceany":
            steps.append(["balanceany", wk, rng.choice([0, 1, 2])])
        elif k == "mute":
            steps.append(["mute", wk])
        elif k == "leave":
            steps.append(["leave", wk, rng.random() < .15])
        elif k == "reset":
            steps.append(["reset", wk])
        elif k == "late":
            steps.append(["late", wk, i, rng.choice(["Success", "Failed", "Canceled"])])
        elif k == "stray":
            steps.append(["stray", wk])
        elif k == "wfn":
            steps.append(["wfn", wk, f])
        elif k == "resubmit":
            steps.append(["resubmit", i])
        elif k == "graph":
            sh, tg = shapes(rng, crowd)
            steps.append(["graph", c, sh, [rng.choice(fs) for _ in range(len(sh))], tg])
        elif k == "gcancel":
            steps.append(["gcancel", i, rng.choice(["open", "open", None, "done"])])
        elif k == "discclient":
            steps.append(["disconnect_client", c])
        elif k == "junk":
            steps.append(["junk", c, rng.randrange(9)])
    steps.append(["hb", ws[0]])
    steps += [["drain"], ["tick"], ["drain"], ["probe"], ["tick"]]
    return {"cfg": cfg, "steps": steps, "profile": profile}


def from_model(log, cfg):
    """a schedule printed by TLC -> a schedule of the interpreter (graph shapes: 1-based node numbers, 0 is data)"""
    steps = []
    for s in log:
        if s[0] == "graph":
            _, c, shape, fns, targets = s
            steps.append(["graph", c, [[a - 1 if a else "d" for a in args] for args in shape], fns,
                          [t - 1 for t in targets]])
        elif s[0] == "submit":
            steps.append(["submit", s[1], s[2], 1])
        else:
            steps.append(list(s))
    steps += [["hb", "w1"], ["drain"], ["tick"], ["drain"], ["probe"], ["tick"]]
    return {"cfg": cfg, "steps": steps, "profile": "model"}
