"""Random messages for the wire harness."""
BLANK = dict(k="", id="", fn="", name="", body="", st="", n=[], dur="", args=[], fns=[], list=[], nodes=[], hb=[])
TS = ["Inactive", "Running", "Canceling", "Success", "Failed", "Canceled", "NotFound"]
ES = ["SubmitOK", "CancelOK", "CancelFailed", "Duplicated", "NoWorker", "FunctionNotExists"]
KINDS = ["Task", "GraphTask", "TaskResult", "GraphTaskResult", "BalanceResponse", "BalanceRequest", "Heartbeat", "FunctionRequest",
         "FunctionResponse", "TaskEcho", "TaskState", "GraphTaskState", "SchedulerState", "TaskCancel", "DisconnectRequest",
         "HeartbeatEcho", "GraphTaskEcho", "GraphTaskCancel", "DisconnectResponse", "WorkerTaskRequest"]
SEEN = "544b 5445 44 54 00 01000000 00000000 02000000 53 2d2d 7c ff".split()


def digits(n):
    out = []
    while n > 0:
        out.append(n & 255)
        n >>= 8
    return out


def message(rng, big=False):
    count = [0]

    def b():
        count[0] += 1
        r = rng.random()
        if r < .1:
            return ""
        if r < .3:
            return rng.choice(SEEN)
        if big and r < .33:
            return f"#{rng.choice([4096, 70000, 1 << 20])}:{count[0]}"
        return rng.randbytes(rng.choice([1, 2, 16, 16, 40, 300])).hex()

    def size():
        return rng.choice([0, 0, 1, 1, 2, 3, 5] + ([30, 260] if big else []))

    def args():
        return [[rng.choice(["Data", "Task"]), b()] for _ in range(size())]

    def n(bits):
        return digits(rng.choice([0, 1, 255, 256, rng.randrange(1 << bits), (1 << bits) - 1]))

    k = rng.choice(KINDS[:6] if rng.random() < .6 else KINDS)
    m = dict(BLANK, k=k, id=b())
    if k == "Task":
        m.update(fn=b(), args=args())
    elif k == "GraphTask":
        ids = list(dict.fromkeys(b() for _ in range(size())))
        m.update(fns=[[i, b(), b()] for i in ids], list=[b() for _ in range(size())],
                 nodes=[{"id": b(), "fn": b(), "args": [[rng.choice(["Data", "Task"]), b()] for _ in range(rng.randrange(5))]}
                        for _ in range(size())])
    elif k == "TaskResult":
        m.update(st=rng.choice(TS), dur=rng.choice(["00000000", "0000003f", "cdcccc3d", "00007a44"]), body=b())
    elif k == "GraphTaskResult":
        m.update(st=rng.choice(TS), list=[b() for _ in range(size())])
    elif k == "BalanceRequest":
        m.update(id="", n=n(32))
    elif k == "BalanceResponse":
        m.update(id="", list=[b() for _ in range(size())])
    elif k == "Heartbeat":
        m.update(id="", hb=[n(20), n(64), n(20), n(64), n(20), n(32)] + [digits(rng.randrange(2)) for _ in range(3)])
    elif k in ("FunctionRequest", "FunctionResponse"):
        m.update(st=rng.choice(["Check", "Add", "Request", "Delete"] if k == "FunctionRequest"
                               else ["OK", "NotExists", "StillHaveTask", "Duplicated"]), name=b(), body=b())
    elif k in ("TaskEcho", "GraphTaskEcho"):
        m.update(st=rng.choice(ES))
    elif k == "TaskState":
        m.update(name=b(), st=rng.choice(TS))
    elif k == "GraphTaskState":
        m.update(fn=b(), st=rng.choice(["Normal", "Target"]), list=list(dict.fromkeys(b() for _ in range(size()))))
    elif k == "SchedulerState":
        m.update(id="", body=b())
    elif k in ("HeartbeatEcho", "WorkerTaskRequest"):
        m.update(id="")
    return m


def schedule(rng, profile, length=None):
    big = profile == "big"
    return {"cfg": {"via": rng.choice(["client", "worker", "scheduler"])},
            "steps": [message(rng, big) for _ in range(length or (12 if big else 40))], "profile": profile}


def from_model(msgs, rng):
    out = []
    rng.shuffle(msgs)
    for via in ("client", "worker", "scheduler"):
        for i in range(0, len(msgs), 60):
            out.append({"cfg": {"via": via}, "steps": msgs[i:i + 60], "profile": "model"})
    return out
