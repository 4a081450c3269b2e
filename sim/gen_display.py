"""Random schedules for the monitor harness."""
KEYS = "nCMcmfwdl"
KINDS = ["Heartbeat", "HeartbeatEcho", "FunctionRequest", "FunctionResponse", "Task", "TaskEcho", "TaskResult", "TaskCancel",
         "BalanceRequest", "BalanceResponse", "DisconnectRequest", "DisconnectResponse", "GraphTask", "GraphTaskResult",
         "GraphTaskCancel"]
TASKS = ["unassigned", "running", "success", "failed", "canceled", "not_found"]
OTHERS = [["5453", "7431", "66", "52"], ["5453", "", "", "49"], ["4753", "6731", "7431", "4e"], ["4753", "67", "74", "54", "6131", "6232"],
          ["5353"]]


def digits(n):
    out = []
    while n:
        out.append(n & 1023)
        n >>= 10
    return out


def size(rng):
    k = rng.randrange(8)
    if k == 0:
        return digits(rng.choice([0, 1, 1023, 1024, 1025, (1 << 20) - 1, 1 << 20, (1 << 30) - 1, 1 << 30, 1 << 40, (1 << 40) - 1]))
    if k == 1:  # halves of a tenth
        unit = 1 << rng.choice([20, 30])
        return digits(unit * rng.randrange(1, 900) + unit * rng.choice([1, 3, 5, 7]) // 4)
    return digits(rng.randrange(1 << rng.choice([10, 20, 25, 30, 34, 41])))


def count(rng):
    return rng.choice([0, 1, rng.randrange(10), rng.randrange(1000), rng.randrange(10 ** 6), rng.randrange(2 * 10 ** 9), 999, 1000, 1000000])


def name(rng, i):
    return f"{rng.randrange(10 ** rng.choice([2, 6]))}|{rng.choice(['h', 'desk-manjaro', 'a.very-long-host-name'])}|{rng.randrange(16 ** 6):06x}{i}"


def worker(rng, i):
    few = rng.random() < .4   # many equal values

    def some(*a):
        return rng.randrange(3) if few else rng.choice(a)
    return dict(name=name(rng, i), rank=0, ac=some(0, rng.randrange(1000), rng.randrange(70000)), ar=size(rng),
                cpu=some(0, 5, 50, 95, rng.randrange(1000), rng.randrange(20000)), rss=size(rng), free=some(0, 9, 10, 100, rng.randrange(2000)),
                sent=some(0, 9, 10, 100, rng.randrange(2000)), queued=some(0, 9, 10, 100, rng.randrange(2000)),
                lag=some(0, 50, 90, 950, 999, 1000, rng.randrange(1000), rng.randrange(10 ** 6), rng.randrange(2 * 10 ** 9)),
                last=rng.choice([0, 0, 0, 1, 5, 6, 59, 60, 61, 400]), itl=rng.choice(["100", "111", "000", "101"]))


def status(rng, n=None, far=False):
    n = rng.choice([0, 1, 2, 3, 5, 12]) if n is None else n
    ws = [worker(rng, i) for i in range(n)]
    if not far:
        for w in ws:
            w["lag"] %= 10 ** 9
    for i, x in enumerate(sorted({w["name"] for w in ws})):
        for w in ws:
            if w["name"] == x:
                w["rank"] = i
    kinds = rng.sample(KINDS, rng.randrange(len(KINDS)))
    kinds2 = rng.sample(KINDS, rng.randrange(len(KINDS)))
    fn = dict.fromkeys(rng.choice(["f", "add", "<lambda>", "a_function_with_a_long_name", "<anonymous func>", "x" * 18, "y" * 19])
                       for _ in range(rng.randrange(4)))
    return dict(cpu=rng.choice([0, 5, rng.randrange(1000), rng.randrange(9000)]), rss=size(rng), tasks=[[t, count(rng)] for t in TASKS],
                sent=[[k, count(rng)] for k in kinds], received=[[k, count(rng)] for k in kinds2],
                clients=[[name(rng, i), rng.randrange(10 ** rng.choice([1, 5]))] for i in range(rng.choice([0, 1, 2, 4]))],
                funcs=[[f, rng.randrange(10 ** rng.choice([1, 5]))] for f in fn], workers=ws)


def change(rng, st):
    """the same components a moment later"""
    import copy
    st = copy.deepcopy(st)
    for w in st["workers"]:
        x = worker(rng, 0)
        for k in rng.sample(["ac", "ar", "cpu", "rss", "free", "sent", "queued", "last"], 3):
            w[k] = x[k]
    rng.shuffle(st["workers"])
    return st


def schedule(rng, profile):
    rows, cols = rng.choice([(60, 240), (60, 240), (45, 300), (30, 240), (26, 220)])
    if profile == "small":
        rows, cols = rng.choice([1, 2, 5, 10, 24, 60]), rng.choice([1, 10, 33, 40, 80, 100, 150, 240])
    steps, st = [], None
    for _ in range(rng.choice([2, 4, 8])):
        while rng.random() < .3:
            o = rng.choice(OTHERS[:-1])
            steps.append(["other", o])
        st = change(rng, st) if st and rng.random() < .6 else status(rng, far=True)
        key = "".join(rng.choice(KEYS + "xN") for _ in range(rng.choice([0, 0, 1, 1, 1])))
        steps.append(["show", key, st])
        if profile == "small" and rng.random() < .3:
            steps.append(["resize", rng.choice([1, 5, 24, 60]), rng.choice([5, 40, 80, 240])])
    if rng.random() < .02:
        steps.append(["silence"])
    return {"cfg": {"rows": rows, "cols": cols, "timeout": 1}, "steps": steps, "profile": profile}


def from_model(log, rng):
    """[(key, {name: values})]"""
    steps = []
    for key, ws in log:
        st = status(rng, 0)
        for i, (n, v) in enumerate(sorted(ws.items())):
            if not v:
                continue
            w = worker(rng, i)
            w.update(name=f"{n}|host", rank=i, cpu=v[0], free=v[1], sent=2 - v[1], lag=v[2])
            st["workers"].append(w)
        rng.shuffle(st["workers"])
        steps.append(["show", key, st])
    return {"cfg": {"rows": 60, "cols": 240, "timeout": 1}, "steps": steps, "profile": "model"}
