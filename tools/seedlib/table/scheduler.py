TM = "scaled/scheduler/task_manager.py"
WM = "scaled/scheduler/worker_manager.py"
GM = "scaled/scheduler/graph_manager.py"
FM = "scaled/scheduler/function_manager.py"
QA = "scaled/scheduler/allocators/queued.py"
PQ = "scaled/utility/queues/async_priority_queue.py"
S = "sched_lib"

seed("balance-crossing", "C06",
     "a worker gives back several tasks and an earlier one of the list has finished in the meantime",
     "the tasks after it in the list are never run again",
     [(WM, """            if worker is None:
                continue

            task_ids.append(task_id)
""", """            if worker is None:
                break

            task_ids.append(task_id)
""")], """
from sched_lib import *


async def demo():
    s = Sched(queue_size=4)
    await s.hb(b"w1")
    await s.fn(b"c")
    for t in (b"t1", b"t2", b"t3"):
        await s.task(b"c", t)
    await s.hb(b"w2")
    await s.result(b"w1", b"t2")
    n = len(s.sent)
    await s.recv(b"w1", BalanceResponse([b"t2", b"t3"]))
    again = [m.task_id for p, m in s.sent[n:] if isinstance(m, Task)]
    assert again == [b"t3"], again

run(demo)
""", S)

seed("idle-worker-stays", "C03",
     "a worker that has no tasks leaves or falls silent",
     "the worker stays listed while it has no slots any more; the next status report stops the scheduler",
     [(WM, """        self._worker_alive_since.pop(worker)

        task_ids = self._allocator.remove_worker(worker)
        if not task_ids:
            return True

        logging.info(f"rerouting {len(task_ids)} tasks")
""", """
        task_ids = self._allocator.remove_worker(worker)
        if not task_ids:
            return True

        self._worker_alive_since.pop(worker)
        logging.info(f"rerouting {len(task_ids)} tasks")
""")], """
from sched_lib import *


async def demo():
    s = Sched(worker_timeout=10)
    await s.hb(b"w1")
    await s.hb(b"w2")
    await s.recv(b"w1", DisconnectRequest(b"w1"))
    assert s.to(b"w1", DisconnectResponse)
    await s.cleanup()
    listed = [w["worker"] for w in (await s.s._worker_manager.statistics())["worker_manager"]]
    assert listed == ["w2"], listed

run(demo)
""", S)

seed("graph-teardown-targets", "C11",
     "a graph is cancelled or fails while one of its nodes that is no target is running or waiting",
     "that node goes on: it is run for nobody and its result stops the scheduler",
     [(GM, """        for task_id in graph_info.task_ids:
            if task_id""", """        for task_id in graph_info.target_task_ids:
            if task_id""")], """
from sched_lib import *


async def demo():
    s = Sched(queue_size=4)
    await s.hb(b"w1")
    a = Task(b"a", b"f", [Argument(ArgumentType.Data, b"x")])
    b = Task(b"b", b"f", [Argument(ArgumentType.Task, b"a")])
    await s.recv(b"c", GraphTask(b"g", {b"f": (b"name", b"code")}, [b"b"], [a, b]))
    assert s.to(b"w1", Task)
    await s.recv(b"c", GraphTaskCancel(b"g"))
    assert [m.task_id for m in s.to(b"w1", TaskCancel)] == [b"a"], "the running node is not cancelled"

run(demo)
""", S)

seed("graph-target-dropped", "C10",
     "a requested node of a graph is also the argument of other nodes, all of which have started",
     "its value is forgotten before the graph is complete, and finishing the graph fails",
     [(GM, """        if argument_task_id not in graph_info.target_task_ids:
            self""", """        if argument_task_id in graph_info.task_ids:
            self""")], """
from sched_lib import *


async def demo():
    s = Sched(queue_size=4)
    await s.hb(b"w1")
    a = Task(b"a", b"f", [Argument(ArgumentType.Data, b"x")])
    b = Task(b"b", b"f", [Argument(ArgumentType.Task, b"a")])
    await s.recv(b"c", GraphTask(b"g", {b"f": (b"name", b"code")}, [b"a", b"b"], [a, b]))
    await s.result(b"w1", b"a", body=b"ra")
    await s.result(b"w1", b"b", body=b"rb")
    got = [list(map(bytes, m.results)) for m in s.to(b"c", GraphTaskResult)]
    assert got == [[b"ra", b"rb"]], got

run(demo)
""", S)

seed("admission-off-by-one", "C07",
     "every worker is full and the number of waiting tasks is exactly the limit",
     "one task more than allowed is accepted",
     [(TM, "and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()",
       "and 0 <= self._max_number_of_tasks_waiting < self._unassigned.qsize()")], """
from sched_lib import *


async def demo():
    s = Sched(queue_size=1, waiting=1)
    await s.hb(b"w1")
    await s.fn(b"c")
    for i in range(5):
        await s.task(b"c", b"t%d" % i)
    got = [m.status for m in s.to(b"c", TaskEcho)]
    # one on the worker; the task manager's loop holds no further task: one may wait
    ok = [x for x in got if x == TaskEchoStatus.SubmitOK]
    assert len(ok) == 2, got

run(demo)
""", S)

seed("priority-sift", "C05",
     "three or more workers with different loads, tasks finishing in an order that moves a worker past two others",
     "a task is given to a worker although a less loaded one is there",
     [(PQ, """        entry[0] -= 1  # type: ignore
        heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa""", """        entry[0] -= 1  # type: ignore
        heapq._siftdown(self._queue, (i - 1) >> 1 if i else 0, i)  # type: ignore # noqa""")], """
import random
from sched_lib import *


async def demo():
    rng = random.Random(3)
    s = Sched(queue_size=8)
    workers = [b"w%d" % i for i in range(7)]
    for w in workers:
        await s.hb(w)
    await s.fn(b"c")
    held = {w: [] for w in workers}
    for i in range(400):
        if rng.random() < .5 and any(held.values()):
            w = rng.choice([w for w in workers if held[w]])
            await s.result(w, held[w].pop())
        elif sum(map(len, held.values())) < 50:
            t = b"t%d" % i
            least = min(map(len, held.values()))
            await s.task(b"c", t)
            w = s.where(t)[0]
            assert len(held[w]) == least, (len(held[w]), least)
            held[w].append(t)

run(demo)
""", S)

seed("reroute-keeps-one", "C02",
     "a worker is lost while it holds two or more tasks and one of them was given back just before",
     "a task stays assigned to the lost worker and is never run",
     [(QA, """        for task_id in task_ids:
            self._task_id_to_worker.pop(task_id)
        return list(task_ids)""", """        for task_id in list(task_ids)[1:]:
            self._task_id_to_worker.pop(task_id)
        return list(task_ids)""")], """
from sched_lib import *


async def demo():
    s = Sched(queue_size=4)
    await s.hb(b"w1")
    await s.fn(b"c")
    for t in (b"t1", b"t2"):
        await s.task(b"c", t)
    await s.hb(b"w2")
    n = len(s.sent)
    await s.recv(b"w1", DisconnectRequest(b"w1"))
    again = sorted(m.task_id for p, m in s.sent[n:] if p == b"w2" and isinstance(m, Task))
    assert again == [b"t1", b"t2"], again

run(demo)
""", S)

seed("canceled-stays-listed", "C13",
     "a task is cancelled",
     "the task is listed for its client and function for ever",
     [(TM, """        self._task_id_to_task.pop(result.task_id)
        await self._function_manager.on_task_done_function(result.task_id)
        client = await self._client_manager.on_task_done(result.task_id)
""", """        client = self._client_manager.get_client_id(result.task_id)
        if result.status in (TaskStatus.Success, TaskStatus.Failed):
            self._task_id_to_task.pop(result.task_id)
            await self._function_manager.on_task_done_function(result.task_id)
            await self._client_manager.on_task_done(result.task_id)
""")], """
from sched_lib import *


async def demo():
    s = Sched(queue_size=4)
    await s.hb(b"w1")
    await s.fn(b"c")
    await s.task(b"c", b"t1")
    await s.recv(b"c", TaskCancel(b"t1"))
    await s.result(b"w1", b"t1", TaskStatus.Canceled, b"")
    assert [m.status for m in s.to(b"c", TaskResult)] == [TaskStatus.Canceled]
    status = await s.s._client_manager.statistics()
    assert not status["client_manager"], status

run(demo)
""", S)
