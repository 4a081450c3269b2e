"""Sends messages through the real connectors over real sockets: a bare socket at the other end records the frames and
returns them, and what the receiving side makes of them is recorded."""
import asyncio
import hashlib
import os
import shutil
import struct
import tempfile
import threading
import time

REAL = True
WAIT = 6.0


# --------------------------------------------------------------------- text <-> bytes
def unhex(s):
    """'#n:x' stands for n bytes made of x"""
    if s.startswith("#"):
        n, x = s[1:].split(":")
        unit = hashlib.sha256(x.encode()).digest()
        return (unit * (int(n) // 32 + 1))[:int(n)]
    return bytes.fromhex(s)


class Names:
    """long byte strings are named as they were in the schedule"""

    def __init__(self):
        self.long = {}

    def b(self, s):
        v = unhex(s)
        if s.startswith("#"):
            self.long[v] = s
        return v

    def h(self, v):
        v = bytes(v)
        return self.long.get(v) or (v.hex() if len(v) < 4096 else "??" + hashlib.sha1(v).hexdigest())


def num(d):
    return sum(x << (8 * i) for i, x in enumerate(d))


def digits(n):
    out = []
    n = int(n)
    while n > 0:
        out.append(n & 255)
        n >>= 8
    return out


BLANK = dict(k="", id="", fn="", name="", body="", st="", n=[], dur="", args=[], fns=[], list=[], nodes=[], hb=[])


def build(m, nm):
    from scaled.protocol.python import message as M
    k = m["k"]
    b = nm.b
    cls = getattr(M, k)

    def task(t):
        return M.Task(b(t["id"]), b(t["fn"]), [M.Argument(getattr(M.ArgumentType, a), b(v)) for a, v in t["args"]])

    if k == "Task":
        return task(m)
    if k in ("TaskEcho", "GraphTaskEcho"):
        return cls(b(m["id"]), getattr(M.TaskEchoStatus, m["st"]))
    if k in ("TaskCancel", "GraphTaskCancel", "DisconnectRequest", "DisconnectResponse"):
        return cls(b(m["id"]))
    if k == "TaskResult":
        return cls(b(m["id"]), getattr(M.TaskStatus, m["st"]), struct.unpack("<f", bytes.fromhex(m["dur"]))[0], b(m["body"]))
    if k == "GraphTask":
        return cls(b(m["id"]), {b(f): (b(n), b(c)) for f, n, c in m["fns"]}, [b(x) for x in m["list"]],
                   [task(t) for t in m["nodes"]])
    if k == "GraphTaskResult":
        return cls(b(m["id"]), getattr(M.TaskStatus, m["st"]), [b(x) for x in m["list"]])
    if k == "BalanceRequest":
        return cls(num(m["n"]))
    if k == "BalanceResponse":
        return cls([b(x) for x in m["list"]])
    if k == "Heartbeat":
        v = [num(x) for x in m["hb"]]
        return cls(agent_cpu=v[0] / 1000, agent_rss=v[1], worker_cpu=v[2] / 1000, worker_rss=v[3], queued_tasks=v[4],
                   latency_us=v[5], initialized=bool(v[6]), has_task=bool(v[7]), task_lock=bool(v[8]))
    if k in ("HeartbeatEcho", "WorkerTaskRequest"):
        return cls()
    if k == "FunctionRequest":
        return cls(getattr(M.FunctionRequestType, m["st"]), b(m["id"]), b(m["name"]), b(m["body"]))
    if k == "FunctionResponse":
        return cls(getattr(M.FunctionResponseType, m["st"]), b(m["id"]), b(m["name"]), b(m["body"]))
    if k == "SchedulerState":
        return cls(b(m["body"]))
    if k == "TaskState":
        return cls(b(m["id"]), b(m["name"]), getattr(M.TaskStatus, m["st"]))
    if k == "GraphTaskState":
        return cls(b(m["id"]), b(m["fn"]), getattr(M.NodeTaskType, m["st"]), {b(x) for x in m["list"]})
    raise ValueError(k)


def show(o, nm):
    k = type(o).__name__
    out = dict(BLANK, k=k)
    h = nm.h

    def task(t):
        return {"id": h(t.task_id), "fn": h(t.function_id), "args": [[a.type.name, h(a.data)] for a in t.function_args]}

    if k == "Task":
        out.update(task(o))
    elif k in ("TaskEcho", "GraphTaskEcho"):
        out.update(id=h(o.task_id), st=o.status.name)
    elif k in ("TaskCancel", "GraphTaskCancel"):
        out.update(id=h(o.task_id))
    elif k in ("DisconnectRequest", "DisconnectResponse"):
        out.update(id=h(o.worker))
    elif k == "TaskResult":
        out.update(id=h(o.task_id), st=o.status.name, dur=struct.pack("<f", o.duration).hex(), body=h(o.result))
    elif k == "GraphTask":
        out.update(id=h(o.task_id), fns=[[h(f), h(n), h(c)] for f, (n, c) in o.functions.items()],
                   list=[h(x) for x in o.targets], nodes=[task(t) for t in o.graph])
    elif k == "GraphTaskResult":
        out.update(id=h(o.task_id), st=o.status.name, list=[h(x) for x in o.results])
    elif k == "BalanceRequest":
        out.update(n=digits(o.number_of_tasks))
    elif k == "BalanceResponse":
        out.update(list=[h(x) for x in o.task_ids])
    elif k == "Heartbeat":
        out.update(hb=[digits(round(o.agent_cpu * 1000)), digits(o.agent_rss), digits(round(o.worker_cpu * 1000)),
                       digits(o.worker_rss), digits(o.queued_tasks), digits(o.latency_us), digits(o.initialized),
                       digits(o.has_task), digits(o.task_lock)])
    elif k in ("FunctionRequest", "FunctionResponse"):
        out.update(st=(o.type if k == "FunctionRequest" else o.status).name, id=h(o.function_id), name=h(o.function_name),
                   body=h(o.content))
    elif k == "SchedulerState":
        out.update(body=h(o.data))
    elif k == "TaskState":
        out.update(id=h(o.task_id), name=h(o.function_name), st=o.status.name)
    elif k == "GraphTaskState":
        out.update(id=h(o.graph_task_id), fn=h(o.task_id), st=o.node_task_type.name, list=[h(x) for x in o.parent_task_ids])
    return out


# --------------------------------------------------------------------- the three ends
MARK = b"-- mark --"  # a message of its own after each one tells which frames belong to it


def drain(sock, want, poll_ms=WAIT * 1000):
    """frames up to the mark; None if it does not come"""
    import zmq
    out = []
    end = time.time() + poll_ms / 1000
    while time.time() < end:
        if sock.poll(50, zmq.POLLIN):
            fr = sock.recv_multipart()
            if want(fr):
                return out
            out.append(fr)
    return None


def via_client(msgs, nm, path):
    import zmq
    from scaled.io.sync_connector import SyncConnector
    from scaled.protocol.python.message import TaskCancel
    from scaled.utility.zmq_config import ZMQConfig
    ctx = zmq.Context()
    raw = ctx.socket(zmq.ROUTER)
    raw.setsockopt(zmq.SNDHWM, 0)
    raw.setsockopt(zmq.RCVHWM, 0)
    raw.bind("ipc://" + path)
    got = []
    stop = threading.Event()
    conn = SyncConnector(stop_event=stop, context=ctx, socket_type=zmq.DEALER, bind_or_connect="connect",
                         address=ZMQConfig.from_string("ipc://" + path), callback=got.append, exit_callback=None,
                         daemonic=True)
    conn.start()
    rows = []
    try:
        mark = TaskCancel(MARK)
        for m in msgs:
            conn.send(build(m, nm))
            conn.send(mark)
        ident = None
        for m in msgs:
            fr = drain(raw, lambda f: f[1:] == [b"TC", MARK])
            if fr is None:
                rows.append([m, []])
                continue
            if fr:
                ident = fr[0][0]
            rows.append([m, fr[0][1:] if len(fr) == 1 else []])
        for m, fr in rows:
            if fr and ident:
                raw.send_multipart([ident] + fr)
                raw.send_multipart([ident, b"TC", MARK])
        end = time.time() + WAIT
        need = sum(1 for _, fr in rows if fr)
        while time.time() < end and sum(1 for o in got if o == mark) < need and conn.is_alive():
            time.sleep(.005)
        return rows, split(rows, got, mark)
    finally:
        stop.set()
        conn.join(2)
        raw.close(0)
        ctx.destroy(linger=0)


def split(rows, got, mark):
    parts, cur = [], []
    for o in got:
        if o == mark:
            parts.append(cur)
            cur = []
        else:
            cur.append(o)
    out = []
    for m, fr in rows:
        out.append(parts.pop(0) if fr and parts else [])
    return out


async def via_worker(msgs, nm, path):
    import zmq
    import zmq.asyncio
    from scaled.io.async_connector import AsyncConnector
    from scaled.protocol.python.message import TaskCancel
    from scaled.utility.zmq_config import ZMQConfig
    raw_ctx = zmq.Context()
    raw = raw_ctx.socket(zmq.ROUTER)
    raw.setsockopt(zmq.SNDHWM, 0)
    raw.setsockopt(zmq.RCVHWM, 0)
    raw.bind("ipc://" + path)
    got = []

    async def cb(o):
        got.append(o)

    conn = AsyncConnector(zmq.asyncio.Context(), zmq.DEALER, ZMQConfig.from_string("ipc://" + path), "connect", cb)
    return await aside(msgs, nm, raw, raw_ctx, conn, got, TaskCancel(MARK), lambda o: conn.send(o),
                       lambda f: f[1:] == [b"TC", MARK], 1, lambda f, ident: [ident] + f)


async def via_scheduler(msgs, nm, path):
    import zmq
    from scaled.io.async_binder import AsyncBinder
    from scaled.protocol.python.message import TaskCancel
    from scaled.utility.zmq_config import ZMQConfig
    binder = AsyncBinder(ZMQConfig.from_string("ipc://" + path), 1)
    raw_ctx = zmq.Context()
    raw = raw_ctx.socket(zmq.DEALER)
    raw.setsockopt(zmq.IDENTITY, b"peer")
    raw.setsockopt(zmq.SNDHWM, 0)
    raw.setsockopt(zmq.RCVHWM, 0)
    raw.connect("ipc://" + path)
    got = []

    async def cb(source, o):
        assert source == b"peer"
        got.append(o)

    binder.register(cb)
    # the binder knows a peer only after hearing from it
    raw.send_multipart([b"TC", b"hello"])
    await asyncio.wait_for(binder.routine(), WAIT)
    got.clear()
    return await aside(msgs, nm, raw, raw_ctx, binder, got, TaskCancel(MARK), lambda o: binder.send(b"peer", o),
                       lambda f: f == [b"TC", MARK], 0, lambda f, ident: f)


async def aside(msgs, nm, raw, raw_ctx, comp, got, mark, send, is_mark, skip, address):
    try:
        rows, ident = [], None
        for m in msgs:
            try:
                await send(build(m, nm))
            except Exception:
                rows.append([m, []])
                continue
            await send(mark)
            fr = drain(raw, is_mark)
            if fr and skip:
                ident = fr[0][0]
            rows.append([m, fr[0][skip:] if fr and len(fr) == 1 else []])
        need = 0
        for m, fr in rows:
            if fr:
                raw.send_multipart(address(fr, ident))
                raw.send_multipart(address([b"TC", MARK], ident))
                need += 1
        end = time.time() + WAIT
        while time.time() < end and sum(1 for o in got if o == mark) < need:
            try:
                await asyncio.wait_for(comp.routine(), max(.01, end - time.time()))
            except asyncio.TimeoutError:
                break
            except Exception:
                pass  # this message is lost
        return rows, split(rows, got, mark)
    finally:
        raw.close(0)
        raw_ctx.destroy(linger=0)
        comp.destroy()


def run_schedule(sch):
    d = tempfile.mkdtemp(prefix="wire-")
    nm = Names()
    try:
        path = os.path.join(d, "s")
        how = sch["cfg"]["via"]
        msgs = sch["steps"]
        if how == "client":
            rows, got = via_client(msgs, nm, path)
        else:
            rows, got = asyncio.run((via_worker if how == "worker" else via_scheduler)(msgs, nm, path))
        ev = [{"e": "msg", "m": m, "fr": [nm.h(f) for f in fr], "got": [show(o, nm) for o in g]}
              for (m, fr), g in zip(rows, got)]
        return {"cfg": {"x": 0}, "ev": ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hung(sch):
    return {"cfg": {"x": 0}, "ev": [{"e": "livelock", "m": BLANK, "fr": [], "got": []}]}
