"""Random schedules for the queue harness."""
KINDS = ["bytes", "same", "minus", "tuple", "odd"]


def schedule(rng, profile, length=None):
    names = "abcde"[:rng.choice([2, 3, 5])]
    w = {"put": 10, "take": 4, "remove": 6, "read": 0, "stop": 0, "step": 0, "spin": 1, "look": 2}
    if profile == "readers":
        w.update(read=6, stop=2, step=8, spin=3, take=2, put=12)
    keys = list(w)
    ws = list(w.values())
    steps = []
    for _ in range(length or rng.choice([10, 25, 60])):
        k = rng.choices(keys, ws)[0]
        if k == "put":
            steps.append([k, rng.choice(names), rng.random() < .3])
        elif k == "remove":
            steps.append([k, rng.choice(names)])
        elif k in ("read", "stop"):
            steps.append([k, rng.randrange(1, 4)])
        else:
            steps.append([k])
    return {"cfg": {"kind": rng.choice(KINDS)}, "steps": steps, "profile": profile}


def from_model(log, rng):
    steps = []
    for s in log:
        steps.append(list(s))
        if rng.random() < .2:
            steps.append(["step"])
    return {"cfg": {"kind": rng.choice(KINDS)}, "steps": steps, "profile": "model"}
