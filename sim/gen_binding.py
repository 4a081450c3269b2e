"""Calls for the binding harness."""
STYLES = ["def", "def", "def", "lambda", "method", "callable", "class", "static"]
BUILTINS = ["max", "min", "getattr", "str", "dict", "print", "sum", "sorted", "int", "range", "type", "divmod"]


def signature(rng, most=5):
    np = rng.randrange(most + 1)
    po = rng.choice([0, 0, rng.randrange(np + 1)])
    nd = rng.randrange(np + 1)
    sig = [{"kind": "po" if i < po else "pk", "name": "abcdefgh"[i], "def": i >= np - nd} for i in range(np)]
    if rng.random() < .3:
        sig.append({"kind": "var", "name": "args", "def": False})
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        sig.append({"kind": "ko", "name": "xyz"[i], "def": rng.random() < .6})
    if rng.random() < .3:
        sig.append({"kind": "kw", "name": "kwargs", "def": False})
    return sig


def one(rng):
    if rng.random() < .08:
        return {"style": "builtin", "fn": rng.choice(BUILTINS), "n": rng.randrange(4),
                "kws": rng.choice([[], [], [], ["key"], ["default"], ["a"]])}
    sig = signature(rng)
    names = [p["name"] for p in sig if p["kind"] in ("po", "pk", "ko")]
    npos = sum(p["kind"] in ("po", "pk") for p in sig)
    n = rng.randrange(npos + 2)
    rest = names[n:] if rng.random() < .7 else names
    kws = [k for k in rest if rng.random() < .6]
    rng.shuffle(kws)
    if rng.random() < .1:
        kws.append("zz")
    c = {"sig": sig, "n": n, "kws": kws, "style": rng.choice(STYLES)}
    if rng.random() < .2:
        c["fixed"] = rng.randrange(min(npos, 2) + 1)
        c["n"] = rng.randrange(max(npos - c["fixed"], 0) + 2)
        c["fixedkw"] = [k for k in names[c["fixed"]:] if rng.random() < .3]
    return c


def schedule(rng, profile, length=None):
    return {"cfg": {}, "steps": [one(rng) for _ in range(length or 40)], "profile": profile}


def from_model(calls, rng):
    rng.shuffle(calls)
    for c in calls:
        c["style"] = rng.choice(STYLES)
        if c["kws"] and rng.random() < .5:
            c["kws"] = c["kws"][::-1]
    return [{"cfg": {}, "steps": calls[i:i + 60], "profile": "model"} for i in range(0, len(calls), 60)]
