"""The scheduler's real managers behind recording sockets; time is under control of the demonstration."""
import asyncio
import os
import sys
import time

sys.path.insert(0, os.getcwd())
import scaled.scheduler.main as main  # noqa: E402
from scaled.protocol.python.message import *  # noqa: E402,F401,F403
from scaled.protocol.python.message import Argument, ArgumentType, Heartbeat, Task, TaskResult, TaskStatus  # noqa: E402
from scaled.protocol.python.message import FunctionRequest, FunctionRequestType  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402

REAL_TIME = time.time
OFFSET = [0.0]
time.time = lambda: REAL_TIME() + OFFSET[0]


def advance(seconds):
    OFFSET[0] += seconds


class Socket:
    def __init__(self, *a, **k):
        self.sent = []

    def register(self, callback):
        pass

    async def send(self, *a):
        self.sent.append(a if len(a) > 1 else a[0])

    async def statistics(self):
        return {"binder": {}}

    async def routine(self):
        await asyncio.sleep(3600)

    def destroy(self):
        pass


main.AsyncBinder = Socket
main.AsyncConnector = Socket


class Sched:
    def __init__(self, queue_size=2, waiting=-1, worker_timeout=10, retention=1000, lb=0, trigger=2):
        self.s = main.Scheduler(ZMQConfig.from_string("tcp://127.0.0.1:1"), 1, waiting, queue_size, worker_timeout,
                                retention, lb, trigger)
        self.failed = None
        self.loops = [asyncio.ensure_future(self.loop(r)) for r in
                      (self.s._task_manager.routine, self.s._graph_manager.routine)]

    async def loop(self, routine):
        try:
            while True:
                await routine()
                await asyncio.sleep(0)
        except asyncio.CancelledError:
            raise
        except BaseException as e:
            self.failed = e

    @property
    def sent(self):
        return self.s._binder.sent

    def to(self, peer, kind):
        return [m for p, m in self.sent if p == peer and isinstance(m, kind)]

    async def settle(self):
        for _ in range(60):
            await asyncio.sleep(0)

    async def recv(self, source, message):
        await self.s.on_receive_message(source, message)
        await self.settle()

    async def cleanup(self):
        """the periodic loops"""
        await self.s._function_manager.routine()
        await self.s._worker_manager.routine()
        await self.s._status_reporter.routine()
        await self.settle()

    async def hb(self, worker):
        await self.recv(worker, Heartbeat(0.0, 0, 0.0, 0, 0, 0, True, False, False))

    async def fn(self, client, f=b"f"):
        await self.recv(client, FunctionRequest(FunctionRequestType.Add, f, b"name", b"code"))

    async def task(self, client, t, f=b"f"):
        await self.recv(client, Task(t, f, [Argument(ArgumentType.Data, b"x")]))

    async def result(self, worker, t, status=TaskStatus.Success, body=b"r"):
        await self.recv(worker, TaskResult(t, status, 0.0, body))

    def where(self, t):
        """the last peer the task was sent to"""
        return [p for p, m in self.sent if isinstance(m, Task) and m.task_id == t][-1:]


def run(demo):
    async def body():
        try:
            await demo()
        finally:
            for t in asyncio.all_tasks():
                if t is not asyncio.current_task():
                    t.cancel()
    try:
        asyncio.run(asyncio.wait_for(body(), 60))
    except BaseException as e:
        print("BROKEN:", type(e).__name__, e)
        sys.exit(1)
    print("fine")
