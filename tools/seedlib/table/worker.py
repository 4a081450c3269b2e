WT = "scaled/worker/agent/task_manager.py"
WP = "scaled/worker/agent/processor_manager.py"
WR = "scaled/worker/agent/processor/processor.py"
WC = "scaled/worker/agent/processor/cache_cleaner.py"
WH = "scaled/worker/agent/heartbeat_manager.py"
WW = "scaled/worker/worker.py"
L = "worker_lib"

seed("returned-task-remembered", "C16",
     "a task given back for balancing is later delivered to the same worker again",
     "the worker takes it for one it still has and never runs it",
     [(WT, """            removed_tasks.append(task_id)
            self._queued_task_id_to_task.pop(task_id)
""", """            removed_tasks.append(task_id)
""")], """
from worker_lib import *


def slow(x):
    import time
    time.sleep(3)
    return x


def demo(s):
    s.task(b"t1", b"f", 1)
    s.task(b"t2", b"f", 2)
    s.until(lambda: s.of(FunctionRequest))
    s.wait(1)
    s.send(BalanceRequest(1))
    assert s.until(lambda: s.of(BalanceResponse)) and s.of(BalanceResponse)[0].task_ids == [b"t2"]
    s.task(b"t2", b"f", 2)
    assert s.until(lambda: s.of(TaskResult, b"t2"), 20), "t2 is not answered"


if __name__ == "__main__":
    run(demo, functions={b"f": slow})
""", L)

seed("death-timeout-never", "C18",
     "the scheduler goes silent for longer than the death timeout",
     "the worker never notices and stays for ever",
     [(WH, """            # already sent heartbeat, expecting heartbeat echo, so not sending
            return
""", """            # already sent heartbeat, expecting heartbeat echo, so not sending
            self._timeout_manager.update_last_seen_time()
            return
""")], """
from worker_lib import *


def demo(s):
    s.wait(2)
    s.echo = False
    assert s.until(lambda: s.of(DisconnectRequest), 25), "the worker does not leave"


if __name__ == "__main__":
    run(demo, functions={}, death=5)
""", L)

seed("fetch-once", "C17",
     "a cached function is deleted by the scheduler and a later task needs it again",
     "the worker does not ask for it again and is stuck",
     [(WR, """        self._current_task: Optional[Task] = None

""", """        self._current_task: Optional[Task] = None
        self._fetched_function_ids = set()

"""), (WR, """        self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
        self._current_task = task""", """        self._current_task = task
        if task.function_id not in self._fetched_function_ids:
            self._fetched_function_ids.add(task.function_id)
            self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))""")],
     """
from worker_lib import *


def demo(s):
    s.task(b"t1", b"f", 1)
    assert s.until(lambda: s.of(TaskResult, b"t1"))
    s.send(FunctionRequest(FunctionRequestType.Delete, b"f", b"", b""))
    s.task(b"t2", b"f", 2)
    assert s.until(lambda: s.of(TaskResult, b"t2"), 15), "t2 is not answered"


if __name__ == "__main__":
    run(demo, functions={b"f": abs})
""", L)

seed("result-outside-try", "C19",
     "a task returns a value that cannot be serialized",
     "the processor ends, the task is never answered and the worker is stuck",
     [(WR, """            result = function(*args)
            result_bytes = self._serializer.serialize_result(result)
            self._connector.send_immediately(
                TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
            )

""", """            result = function(*args)

"""), (WR, """                    self.__serialize_exception(e),
                )
            )
""", """                    self.__serialize_exception(e),
                )
            )
        else:
            result_bytes = self._serializer.serialize_result(result)
            self._connector.send_immediately(
                TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
            )
""")], """
from worker_lib import *


def lock(x):
    import threading
    return threading.Lock()


def demo(s):
    s.task(b"t1", b"f", 1)
    assert s.until(lambda: s.of(TaskResult, b"t1"), 15), "t1 is not answered"
    assert s.of(TaskResult)[0].status == TaskStatus.Failed


if __name__ == "__main__":
    run(demo, functions={b"f": lock})
""", L)

seed("restart-not-awaited", "C15",
     "the task a worker is running is cancelled while others are queued",
     "the next task is sent to the processor that is being stopped and gets lost",
     [(WP, """        os.kill(self._processor_holder.processor.pid, signal.SIGTERM)

        self._processor_holder.processor = None
        self._processor_holder.initialized.clear()
""", """        os.kill(self._processor_holder.processor.pid, signal.SIGTERM)

        self._processor_holder.processor = None
""")], """
from worker_lib import *


def slow(x):
    import time
    time.sleep(x)
    return x


def demo(s):
    for i in range(6):
        names = [b"t%d" % n for n in range(3 * i, 3 * i + 3)]
        s.got.clear()
        for n, t in enumerate(names):
            s.task(t, b"f", 0 if n else 100)
        s.until(lambda: s.of(FunctionRequest))
        s.wait(1)
        s.send(TaskCancel(names[0]))
        assert s.until(lambda: s.of(TaskResult, names[1]) and s.of(TaskResult, names[2]), 20), "not answered"
        assert [m.task_id for m in s.of(TaskResult)] == names


if __name__ == "__main__":
    run(demo, functions={b"f": slow})
""", L)

seed("lifo-after-balance", "C14",
     "tasks are handed back while the worker has more queued than were asked for",
     "the rest run out of order",
     [(WT, """        removed_tasks = []
        while number_of_tasks:
            task_id = self._queued_task_ids.get_nowait()
            removed_tasks.append(task_id)
            self._queued_task_id_to_task.pop(task_id)
            number_of_tasks -= 1

        return removed_tasks""", """        queued = [self._queued_task_ids.get_nowait() for _ in range(self._queued_task_ids.qsize())]
        removed_tasks = queued[:number_of_tasks]
        for task_id in removed_tasks:
            self._queued_task_id_to_task.pop(task_id)

        for task_id in sorted(queued[number_of_tasks:]):
            self._queued_task_ids.put_nowait(task_id)

        return removed_tasks""")], """
from worker_lib import *


def slow(x):
    import time
    time.sleep(x)
    return x


def demo(s):
    s.task(b"t1", b"f", 4)
    s.until(lambda: s.of(FunctionRequest))
    s.wait(1)
    for t in (b"t9", b"t8", b"t7"):
        s.task(t, b"f", 0)
    s.send(BalanceRequest(1))
    s.until(lambda: len(s.of(TaskResult)) == 3, 20)
    assert [m.task_id for m in s.of(TaskResult)] == [b"t1", b"t8", b"t7"], s.of(TaskResult)


if __name__ == "__main__":
    run(demo, functions={b"f": slow})
""", L)
