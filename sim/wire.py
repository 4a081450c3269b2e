"""Independent codec for the scaled wire protocol (frame layout as documented by the message types of the package).

The harness talks to the real components only through these functions, never through scaled's own serializers, so an
encoder and a decoder of scaled that are changed consistently but incompatibly with other-language peers are noticed.

A message is a dict {"k": kind, ...}; see KINDS.
"""
import struct

CODE = {
    "Task": b"TK", "TaskEcho": b"TE", "TaskCancel": b"TC", "TaskResult": b"TR",
    "GraphTask": b"GT", "GraphTaskEcho": b"GE", "GraphTaskCancel": b"GC", "GraphTaskCancelEcho": b"GX",
    "GraphTaskResult": b"GR", "BalanceRequest": b"BQ", "BalanceResponse": b"BR", "Heartbeat": b"HB",
    "HeartbeatEcho": b"HE", "FunctionRequest": b"FR", "FunctionResponse": b"FA", "DisconnectRequest": b"DR",
    "DisconnectResponse": b"DP", "WorkerTaskRequest": b"PI", "SchedulerState": b"SS", "TaskState": b"TS",
    "GraphTaskState": b"GS",
}
KIND = {v: k for k, v in CODE.items()}

TASK_STATUS = {b"I": "Inactive", b"R": "Running", b"X": "Canceling", b"S": "Success", b"F": "Failed", b"C": "Canceled",
               b"N": "NotFound"}
ECHO_STATUS = {b"SK": "SubmitOK", b"CK": "CancelOK", b"CF": "CancelFailed", b"DC": "Duplicated", b"NW": "NoWorker",
               b"FN": "FunctionNotExists"}
FREQ = {b"C": "Check", b"A": "Add", b"R": "Request", b"D": "Delete"}
FRES = {b"OK": "OK", b"NE": "NotExists", b"HT": "StillHaveTask", b"DC": "Duplicated"}
NODE = {b"N": "Normal", b"T": "Target"}


def _inv(d):
    return {v: k for k, v in d.items()}


TASK_STATUS_I, ECHO_I, FREQ_I, FRES_I, NODE_I = map(_inv, (TASK_STATUS, ECHO_STATUS, FREQ, FRES, NODE))

HB = struct.Struct("IQIQII???")


class WireError(Exception):
    pass


def _task(data):
    if len(data) < 2 or len(data) % 2:
        raise WireError("Task frames")
    args = []
    for i in range(2, len(data), 2):
        if data[i] not in (b"D", b"T"):
            raise WireError("argument type")
        args.append((data[i].decode(), data[i + 1]))
    return {"k": "Task", "id": data[0], "fn": data[1], "args": args}


def decode(frames):
    """frames (type first) -> message dict; raises WireError"""
    frames = [bytes(f) for f in frames]
    if not frames or frames[0] not in KIND:
        raise WireError(f"unknown type {frames[:1]}")
    k, d = KIND[frames[0]], frames[1:]

    def need(n):
        if len(d) != n:
            raise WireError(f"{k}: {len(d)} frames, expected {n}")

    def pick(m, v):
        if v not in m:
            raise WireError(f"{k}: bad enum {v!r}")
        return m[v]

    try:
        if k == "Task":
            return _task(d)
        if k in ("TaskEcho", "GraphTaskEcho"):
            need(2)
            return {"k": k, "id": d[0], "st": pick(ECHO_STATUS, d[1])}
        if k in ("TaskCancel", "GraphTaskCancel"):
            need(1)
            return {"k": k, "id": d[0]}
        if k == "TaskResult":
            need(4)
            return {"k": k, "id": d[0], "st": pick(TASK_STATUS, d[1]), "dur": struct.unpack("f", d[2])[0],
                    "body": d[3]}
        if k == "GraphTask":
            i = 0
            gid = d[i]
            (nf,) = struct.unpack("I", d[1])
            i = 2
            keys, names, cont = d[i:i + nf], d[i + nf:i + 2 * nf], d[i + 2 * nf:i + 3 * nf]
            if len(cont) != nf:
                raise WireError("GraphTask functions")
            i += 3 * nf
            (nt,) = struct.unpack("I", d[i])
            targets = d[i + 1:i + 1 + nt]
            if len(targets) != nt:
                raise WireError("GraphTask targets")
            i += 1 + nt
            nodes = []
            while i < len(d):
                (nn,) = struct.unpack("I", d[i])
                fr = d[i + 1:i + 1 + nn]
                if len(fr) != nn:
                    raise WireError("GraphTask node")
                nodes.append(_task(fr))
                i += 1 + nn
            return {"k": k, "id": gid, "functions": list(zip(keys, names, cont)), "targets": targets, "nodes": nodes}
        if k == "GraphTaskResult":
            return {"k": k, "id": d[0], "st": pick(TASK_STATUS, d[1]), "results": d[2:]}
        if k == "BalanceRequest":
            need(1)
            return {"k": k, "n": struct.unpack("I", d[0])[0]}
        if k == "BalanceResponse":
            (n,) = struct.unpack("I", d[0])
            if n != len(d) - 1:
                raise WireError("BalanceResponse length")
            return {"k": k, "ids": d[1:]}
        if k == "Heartbeat":
            need(1)
            v = HB.unpack(d[0])
            return {"k": k, "info": v}
        if k in ("HeartbeatEcho", "WorkerTaskRequest"):
            need(1)
            return {"k": k}
        if k == "FunctionRequest":
            need(4)
            return {"k": k, "st": pick(FREQ, d[0]), "id": d[1], "name": d[2], "body": d[3]}
        if k == "FunctionResponse":
            need(4)
            return {"k": k, "st": pick(FRES, d[0]), "id": d[1], "name": d[2], "body": d[3]}
        if k in ("DisconnectRequest", "DisconnectResponse"):
            need(1)
            return {"k": k, "id": d[0]}
        if k == "SchedulerState":
            need(1)
            return {"k": k, "body": d[0]}
        if k == "TaskState":
            need(3)
            return {"k": k, "id": d[0], "name": d[1], "st": pick(TASK_STATUS, d[2])}
        if k == "GraphTaskState":
            return {"k": k, "g": d[0], "id": d[1], "st": pick(NODE, d[2]), "parents": d[3:]}
    except WireError:
        raise
    except Exception as e:  # malformed
        raise WireError(f"{k}: {e!r}")
    raise WireError(k)


def _task_frames(m):
    out = [m["id"], m["fn"]]
    for t, v in m["args"]:
        out += [t.encode(), v]
    return out


def encode(m):
    """message dict -> frames (type first)"""
    k = m["k"]
    c = CODE[k]
    if k == "Task":
        d = _task_frames(m)
    elif k in ("TaskEcho", "GraphTaskEcho"):
        d = [m["id"], ECHO_I[m["st"]]]
    elif k in ("TaskCancel", "GraphTaskCancel", "DisconnectRequest", "DisconnectResponse"):
        d = [m["id"]]
    elif k == "TaskResult":
        d = [m["id"], TASK_STATUS_I[m["st"]], struct.pack("f", m.get("dur", 0.0)), m["body"]]
    elif k == "GraphTask":
        fs = m["functions"]
        d = [m["id"], struct.pack("I", len(fs)), *[f[0] for f in fs], *[f[1] for f in fs], *[f[2] for f in fs],
             struct.pack("I", len(m["targets"])), *m["targets"]]
        for n in m["nodes"]:
            fr = _task_frames(n)
            d += [struct.pack("I", len(fr)), *fr]
    elif k == "GraphTaskResult":
        d = [m["id"], TASK_STATUS_I[m["st"]], *m["results"]]
    elif k == "BalanceRequest":
        d = [struct.pack("I", m["n"])]
    elif k == "BalanceResponse":
        d = [struct.pack("I", len(m["ids"])), *m["ids"]]
    elif k == "Heartbeat":
        d = [HB.pack(*m["info"])]
    elif k in ("HeartbeatEcho", "WorkerTaskRequest"):
        d = [b""]
    elif k == "FunctionRequest":
        d = [FREQ_I[m["st"]], m["id"], m["name"], m["body"]]
    elif k == "FunctionResponse":
        d = [FRES_I[m["st"]], m["id"], m["name"], m["body"]]
    elif k == "SchedulerState":
        d = [m["body"]]
    elif k == "TaskState":
        d = [m["id"], m["name"], TASK_STATUS_I[m["st"]]]
    elif k == "GraphTaskState":
        d = [m["g"], m["id"], NODE_I[m["st"]], *m["parents"]]
    else:
        raise WireError(k)
    return [c, *d]
