"""Random schedules for the cluster harness, and schedules from behaviours of MCCluster."""

SIGS = ["INT", "TERM", "TERM", "ALL"]


def config(rng, n=None):
    return dict(n=rng.choice([1, 1, 2, 2, 3, 3, 4, 0]) if n is None else n, hb=20, death=600, seed=rng.randrange(1 << 30),
                preempt=rng.choice([.02, .1, .3, .6, 1]))


def schedule(rng, profile):
    cfg = config(rng)
    steps = []
    if profile == "late":
        steps.append(["settle"])
        for _ in range(rng.randrange(4)):
            steps.append(rng.choice([["tick", 10], ["strike", rng.randrange(4)], ["task", rng.randrange(4)], ["finish", 0],
                                     ["c", rng.choice([1, 3, 10])], ["settle"]]))
    elif profile == "early":
        x = rng.random()
        if x < .4:
            steps.append(["c", rng.randrange(1, 12)])
        elif x < .7:
            steps.append(["c", rng.randrange(1, 120)])
        else:
            steps += [["until", rng.choice(["begin", "begin", "hello"]), rng.randrange(1, 5)], ["c", rng.choice([0, 0, 1, 2, 3, 5, 8])]]
    else:
        for _ in range(rng.randrange(1, 8)):
            steps.append(rng.choice([["c", rng.choice([1, 2, 4, 8, 20])], ["c", rng.choice([1, 2, 4, 8, 20])], ["settle"],
                                     ["tick", 10], ["strike", rng.randrange(4)], ["task", rng.randrange(4)], ["finish", 0],
                                     ["until", "hello", rng.randrange(1, 5)], ["until", "begin", rng.randrange(1, 5)]]))
    if rng.random() < .9:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            steps.append(["stop", rng.choice(SIGS)])
            if rng.random() < .5:
                steps.append(["c", rng.choice([1, 2, 4, 10, 30])])
            if rng.random() < .2:
                steps.append(["strike", rng.randrange(4)])
            if rng.random() < .2:
                steps.append(["settle"])
    steps.append(["settle"])
    if rng.random() < .3:
        steps += [["tick", 20], ["settle"]]
    return {"cfg": cfg, "steps": steps}


def from_model(log, rng, n):
    steps, cnt = [], {"begin": 0, "hello": 0, "ended": 0}
    for x in log:
        if x[0] in cnt:
            cnt[x[0]] += 1
            steps.append(["until", x[0], cnt[x[0]]])
        elif x[0] == "stop":
            steps.append(["stop", x[1]])
        elif x[0] == "strike":
            steps.append(["strike", x[1] - 1])
    steps.append(["settle"])
    return {"cfg": config(rng, n), "steps": steps}
