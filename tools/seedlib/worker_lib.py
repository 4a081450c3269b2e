"""A real worker (agent and processor processes) connected to a scheduler played by the demonstration."""
import pickle
import os
import sys
import time

sys.path.insert(0, os.getcwd())
import cloudpickle  # noqa: E402
import zmq  # noqa: E402
from scaled.protocol.python.message import *  # noqa: E402,F401,F403
from scaled.protocol.python.message import (Argument, ArgumentType, FunctionRequest, FunctionResponse,  # noqa: E402
                                            FunctionResponseType, Heartbeat, HeartbeatEcho, MessageType, PROTOCOL, Task)
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402
from scaled.worker.worker import Worker  # noqa: E402


class Sched:
    def __init__(self, functions, heartbeat=1, retention=1000, death=1000, echo=True):
        self.functions = functions
        self.echo = echo
        self.missing = set()
        self.auto = True  # answer function requests
        self.got = []
        self.socket = zmq.Context().socket(zmq.ROUTER)
        port = self.socket.bind_to_random_port("tcp://127.0.0.1")
        self.worker = Worker("builtin", ZMQConfig.from_string(f"tcp://127.0.0.1:{port}"), heartbeat, 1000, 1 << 40,
                             DefaultSerializer(), retention, death)
        self.worker.start()
        self.ident = None
        self.until(lambda: self.ident, 60)

    def send(self, m):
        self.socket.send_multipart([self.ident, PROTOCOL.inverse[type(m)].value, *m.serialize()])

    def pump(self, seconds):
        if not self.socket.poll(seconds * 1000):
            return
        self.ident, kind, *frames = self.socket.recv_multipart()
        m = PROTOCOL[MessageType(kind)].deserialize(frames)
        self.got.append(m)
        if isinstance(m, Heartbeat) and self.echo:
            self.send(HeartbeatEcho())
        if isinstance(m, FunctionRequest) and self.auto:
            self.answer(m.function_id)

    def answer(self, f):
        if f in self.missing:
            self.send(FunctionResponse(FunctionResponseType.NotExists, f, b"", b""))
        else:
            self.send(FunctionResponse(FunctionResponseType.OK, f, b"name", cloudpickle.dumps(self.functions[f])))

    def until(self, cond, seconds=20):
        end = time.time() + seconds
        while not cond():
            if time.time() > end:
                return False
            self.pump(0.1)
        return True

    def wait(self, seconds):
        self.until(lambda: False, seconds)

    def task(self, t, f, *args):
        self.send(Task(t, f, [Argument(ArgumentType.Data, pickle.dumps(a)) for a in args]))

    def of(self, kind, key=None):
        return [m for m in self.got if isinstance(m, kind) and (key is None or getattr(m, "task_id", None) == key)]

    def close(self):
        import psutil
        try:
            procs = psutil.Process(self.worker.pid).children(recursive=True)
        except psutil.NoSuchProcess:
            procs = []
        self.worker.kill()
        for p in procs:
            try:
                p.kill()
            except psutil.NoSuchProcess:
                pass
        self.worker.join(5)


def run(demo, **kw):
    """demo(sched) raises if something is wrong"""
    s = Sched(**kw)
    try:
        demo(s)
    except BaseException as e:
        print("BROKEN:", type(e).__name__, e)
        code = 1
    else:
        print("fine")
        code = 0
    s.close()
    sys.stdout.flush()
    import os
    os._exit(code)
