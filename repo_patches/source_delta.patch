From f2275ffebe77f44b364198ec785ad608629a0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 01/42] fix: PriorityQueue.max_priority detached the top entry
 from the locator

---
 scaled/utility/queues/async_priority_queue.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 4f976c0..72a4f76 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -46,6 +46,5 @@ class PriorityQueue(Queue):
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
 
     def max_priority(self):
-        priority, item = heapq.heappop(self._queue)
-        heapq.heappush(self._queue, [priority, item])
-        return priority
+        # only look at the top of the heap: popping and pushing a copy of the entry would detach it from self._locator
+        return self._queue[0][0]
-- 
2.43.0


From 3d822804afe24c0fd2c32628d2cb86e410fcf1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 02/42] fix: cancelling a finished graph stopped the scheduler

---
 scaled/scheduler/graph_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8ab0e8a..e487b5d 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -107,6 +107,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         await self._unassigned.put((client, graph_task))
 
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
+        if graph_task_cancel.task_id not in self._graph_task_id_to_graph:
+            # the cancellation crossed the outcome of the graph
+            return
+
         await self.__clean_graph(graph_task_cancel.task_id)
 
     async def on_task_done(self, result: TaskResult) -> bool:
-- 
2.43.0


From 6888bb329c25a3c766363bf2b3e3c8a60a898c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 03/42] fix: tearing down a graph with a node waiting for a
 worker stopped the scheduler

---
 scaled/scheduler/graph_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index e487b5d..7c7d15c 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -211,6 +211,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
                 continue
 
             task_info = graph_info.tasks.pop(task_id)
+            self._task_id_to_graph_task_id.pop(task_id, None)
             if task_info.state == _TaskState.Inactive:
                 await self._function_manager.on_task_done_function(task_id)
             elif task_info.state == _TaskState.Running:
@@ -218,8 +219,6 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             else:
                 pass
 
-            self._task_id_to_graph_task_id.pop(task_id, None)
-
         return graph_info
 
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
-- 
2.43.0


From fe7c9edc7562a023b96a5ea3c606fc278be6a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 04/42] fix: a graph node using the same node twice as argument
 stopped the scheduler

---
 scaled/scheduler/graph_manager.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 7c7d15c..aedfdbf 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -191,8 +191,14 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         for task_id in ready_task_ids:
             task_info = graph_info.tasks[task_id]
+            # a node can use the same result more than once, but depends on it only once
+            required_task_ids = {arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task}
+            results = {
+                required_task_id: self.__get_task_result(graph_task_id, task_id, required_task_id)
+                for required_task_id in required_task_ids
+            }
             task_info.task.function_args = [
-                self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
+                self.__get_argument(results, arg) for arg in task_info.task.function_args
             ]
             task_info.state = _TaskState.Running
             await self._task_manager.on_task_new(graph_info.client, task_info.task)
@@ -242,15 +248,13 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         return [graph_info.tasks[task_id].result for task_id in graph_info.target_task_ids]
 
-    def __get_argument(self, graph_task_id: bytes, task_id: bytes, argument: Argument) -> Argument:
+    @staticmethod
+    def __get_argument(results: Dict[bytes, bytes], argument: Argument) -> Argument:
         if argument.type == ArgumentType.Data:
             return argument
 
         assert argument.type == ArgumentType.Task
-        argument_task_id = argument.data
-
-        result = self.__get_task_result(graph_task_id, task_id, argument_task_id)
-        return Argument(ArgumentType.Data, result)
+        return Argument(ArgumentType.Data, results[argument.data])
 
     def __get_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes) -> bytes:
         graph_info = self._graph_task_id_to_graph[graph_task_id]
-- 
2.43.0


From 32ffed42318d08e61e7e7cfbd0f23ed7d9329766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 05/42] fix: a task taken out of the queue while no worker is
 connected could not be cancelled

---
 scaled/scheduler/allocators/mixins.py |  5 +++++
 scaled/scheduler/allocators/queued.py | 11 +++++++++++
 scaled/scheduler/mixins.py            |  4 ++++
 scaled/scheduler/task_manager.py      |  2 ++
 scaled/scheduler/worker_manager.py    |  3 +++
 5 files changed, 25 insertions(+)

diff --git a/scaled/scheduler/allocators/mixins.py b/scaled/scheduler/allocators/mixins.py
index 947be15..f66c44a 100644
--- a/scaled/scheduler/allocators/mixins.py
+++ b/scaled/scheduler/allocators/mixins.py
@@ -21,6 +21,11 @@ class TaskAllocator(metaclass=abc.ABCMeta):
         identity to number of tasks dictionary"""
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_for_worker(self):
+        """wait until there is at least one worker"""
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
         """assign task_id in allocator, return None means no available worker, otherwise will return worker been
diff --git a/scaled/scheduler/allocators/queued.py b/scaled/scheduler/allocators/queued.py
index a791c18..d73d6d1 100644
--- a/scaled/scheduler/allocators/queued.py
+++ b/scaled/scheduler/allocators/queued.py
@@ -1,3 +1,4 @@
+import asyncio
 import math
 from typing import Dict
 from typing import List
@@ -15,6 +16,7 @@ class QueuedAllocator(TaskAllocator):
         self._task_id_to_worker: Dict[bytes, bytes] = {}
 
         self._worker_queue: PriorityQueue = PriorityQueue()
+        self._has_worker: asyncio.Event = asyncio.Event()
 
     async def add_worker(self, worker: bytes) -> bool:
         if worker in self._workers_to_task_ids:
@@ -22,6 +24,7 @@ class QueuedAllocator(TaskAllocator):
 
         self._workers_to_task_ids[worker] = set()
         await self._worker_queue.put([0, worker])
+        self._has_worker.set()
         return True
 
     def remove_worker(self, worker: bytes) -> List[bytes]:
@@ -29,6 +32,8 @@ class QueuedAllocator(TaskAllocator):
             return []
 
         self._worker_queue.remove(worker)
+        if not len(self._worker_queue):
+            self._has_worker.clear()
 
         task_ids = self._workers_to_task_ids.pop(worker)
         for task_id in task_ids:
@@ -54,7 +59,13 @@ class QueuedAllocator(TaskAllocator):
         mean = sum(worker_task_count.values()) / len(worker_task_count)
         return {worker: math.ceil(count - mean) for worker, count in worker_task_count.items() if count > mean}
 
+    async def wait_for_worker(self):
+        await self._has_worker.wait()
+
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
+        if not len(self._worker_queue):
+            return None
+
         count, worker = await self._worker_queue.get()
         if count == self._max_tasks_per_worker:
             await self._worker_queue.put([count, worker])
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 73851cb..591ffd6 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -99,6 +99,10 @@ class TaskManager(metaclass=abc.ABCMeta):
 
 
 class WorkerManager(metaclass=abc.ABCMeta):
+    @abc.abstractmethod
+    async def wait_for_worker(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def assign_task_to_worker(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1a67ae1..f3eded3 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -61,6 +61,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         self._graph_manager = graph_manager
 
     async def routine(self):
+        # don't take the task out of queue while there is no worker, otherwise it cannot be canceled
+        await self._worker_manager.wait_for_worker()
         task_id = await self._unassigned.get()
 
         if not await self._worker_manager.assign_task_to_worker(self._task_id_to_task[task_id]):
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index bc2149d..01d2f07 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -49,6 +49,9 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         self._binder = binder
         self._task_manager = task_manager
 
+    async def wait_for_worker(self):
+        await self._allocator.wait_for_worker()
+
     async def assign_task_to_worker(self, task: Task) -> bool:
         worker = await self._allocator.assign_task(task.task_id)
         if worker is None:
-- 
2.43.0


From 1fd494d958d764d3564f71837afc1a7aac487101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 06/42] fix: deleting an unused function stopped the scheduler

---
 scaled/scheduler/function_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 25e25c1..ec99d5e 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -135,14 +135,12 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self.__send_function_response(client, function_id, FunctionResponseType.NotExists)
             return
 
-        if len(self._function_id_to_task_ids.get_values(function_id)) > 0:
+        if function_id in self._function_id_to_task_ids:
             await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
             return
 
         self._function_id_to_func_info.pop(function_id)
-        self._function_id_to_task_ids.remove_key(function_id)
-
-        await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
+        await self.__send_function_response(client, function_id, FunctionResponseType.OK)
 
     async def __send_function_response(self, client: bytes, function_id: bytes, response_type: FunctionResponseType):
         await self._binder.send(client, FunctionResponse(response_type, function_id, b"", b""))
-- 
2.43.0


From b71557c07aa906515db092dea230c60b6c87699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 07/42] fix: load_balance_trigger_times=1 never balanced

---
 scaled/scheduler/worker_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 01d2f07..2c5a3e5 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -142,8 +142,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         current_advice = self._allocator.balance()
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
-            self._load_balance_advice_same_count = 1
-            return
+            self._load_balance_advice_same_count = 0
 
         self._load_balance_advice_same_count += 1
         if self._load_balance_advice_same_count != self._load_balance_trigger_times:
-- 
2.43.0


From 98f15215013e25900624f53f48db27a35fcd6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 08/42] fix: status report counted only one of several
 functions with the same name

---
 scaled/scheduler/function_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index ec99d5e..b218f62 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -89,12 +89,13 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self._worker_manager.on_delete_function(function_id)
 
     async def statistics(self) -> Dict:
-        return {
-            "function_manager": {
-                self._function_id_to_func_info[k].function_name.decode(): len(v)
-                for k, v in self._function_id_to_task_ids.items()
-            }
-        }
+        counts: Dict[str, int] = dict()
+        for function_id, task_ids in self._function_id_to_task_ids.items():
+            # different functions can have same name
+            function_name = self._function_id_to_func_info[function_id].function_name.decode()
+            counts[function_name] = counts.get(function_name, 0) + len(task_ids)
+
+        return {"function_manager": counts}
 
     async def __on_function_request(self, source: bytes, function_request: FunctionRequest):
         if function_request.function_id not in self._function_id_to_func_info:
-- 
2.43.0


From 221c0087c40a5e2b91f7583dd51b8be441683e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 09/42] fix: a graph hung forever when one of its nodes was
 refused for lack of workers

---
 scaled/scheduler/graph_manager.py | 3 +++
 scaled/scheduler/mixins.py        | 4 ++++
 scaled/scheduler/task_manager.py  | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index aedfdbf..fe3d586 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -103,6 +103,9 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         self._function_manager = function_manager
         self._task_manager = task_manager
 
+    def is_graph_sub_task(self, task_id: bytes) -> bool:
+        return task_id in self._task_id_to_graph_task_id
+
     async def on_graph_task(self, client: bytes, graph_task: GraphTask):
         await self._unassigned.put((client, graph_task))
 
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 591ffd6..7a26589 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -67,6 +67,10 @@ class ClientManager(metaclass=abc.ABCMeta):
 
 
 class GraphTaskManager(metaclass=abc.ABCMeta):
+    @abc.abstractmethod
+    def is_graph_sub_task(self, task_id: bytes) -> bool:
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_graph_task(self, client: bytes, graph_task: GraphTask):
         raise NotImplementedError()
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index f3eded3..399bdfb 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -90,7 +90,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             return
 
         if (
-            not self._worker_manager.has_available_worker()
+            not self._graph_manager.is_graph_sub_task(task.task_id)
+            and not self._worker_manager.has_available_worker()
             and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()
         ):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.NoWorker))
-- 
2.43.0


From cdec1214767bc14925f8904d6fd0a385ca1ee328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 10/42] fix: a malformed message stopped the scheduler

---
 scaled/io/async_binder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaled/io/async_binder.py b/scaled/io/async_binder.py
index 4233360..edf51e9 100644
--- a/scaled/io/async_binder.py
+++ b/scaled/io/async_binder.py
@@ -51,9 +51,13 @@ class AsyncBinder(Looper, Reporter):
 
         source, message_type_bytes, payload = frames[0], frames[1], frames[2:]
         message_type = MessageType(message_type_bytes)
-        self.__count_one("received", message_type)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception as e:
+            logging.error(f"{self.__get_prefix()} received malformed {message_type.name} from {source!r}: {e!r}")
+            return
 
-        message = PROTOCOL[message_type].deserialize(payload)
+        self.__count_one("received", message_type)
         await self._callback(source, message)
 
     async def statistics(self) -> Dict:
-- 
2.43.0


From c17b835c8a3336cf8fe3328bce041751f06fbe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 11/42] fix: cancelling a task the worker does not have stopped
 an idle worker

---
 scaled/worker/agent/processor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index f378c55..2c530dc 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -115,7 +115,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return False
 
-        if self._processor_holder.task.task_id != task_id:
+        if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:
             return False
 
         self.restart_processor()
-- 
2.43.0


From f4dc1db86eb339f1277bb218d42a5af32fb798bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 12/42] fix: a late function response stopped an idle worker

---
 scaled/worker/agent/processor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 2c530dc..e4953f2 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -102,7 +102,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return
 
-        if self._processor_holder.task.function_id != response.function_id:
+        if self._processor_holder.task is None or self._processor_holder.task.function_id != response.function_id:
             return
 
         if response.status == FunctionResponseType.NotExists:
-- 
2.43.0


From 9d6dac3b88399d87bb4443e9bd63d375dac21abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 13/42] fix: a task delivered again while the worker held it
 stopped the worker

---
 scaled/worker/agent/task_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index ac23f29..b7631fb 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -27,6 +27,10 @@ class VanillaTaskManager(Looper, TaskManager):
         self._processor_manager = processor_manager
 
     async def on_task_new(self, task: Task):
+        if task.task_id in self._queued_task_id_to_task or task.task_id == self._processor_manager.current_task():
+            # the scheduler sent again what this worker still holds, happens when it thought this worker was lost
+            return
+
         self._queued_task_id_to_task[task.task_id] = task
         await self._queued_task_ids.put(task.task_id)
 
-- 
2.43.0


From 45075cefb0b5baaa18b8c0fd7e00b07f45dd3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 14/42] fix: the task next in line for a busy processor could
 not be canceled or given back

---
 scaled/worker/agent/mixins.py            | 4 ++++
 scaled/worker/agent/processor_manager.py | 6 ++++++
 scaled/worker/agent/task_manager.py      | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 9229fa2..6e6e2fb 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -62,6 +62,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     def on_function_response(self, response: FunctionResponse):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_until_free(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index e4953f2..c6c8f4b 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -89,6 +89,12 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         raise TypeError(f"unknown function request type: {request.type}")
 
+    async def wait_until_free(self):
+        async with self._processor_holder.task_wait_lock:
+            pass
+
+        await self._processor_holder.initialized.wait()
+
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index b7631fb..e34741d 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -68,6 +68,9 @@ class VanillaTaskManager(Looper, TaskManager):
         return self._queued_task_ids.qsize()
 
     async def __processing_task(self):
+        # a task stays in queue, where it can be canceled and given back, until the processor can take it
+        await self._processor_manager.wait_until_free()
+
         task_id = await self._queued_task_ids.get()
         task = self._queued_task_id_to_task.pop(task_id)
         if await self._processor_manager.on_task(task):
-- 
2.43.0


From e5657616976bb102a1a37007022ac007ea4bdb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 15/42] fix: worker stuck forever when the scheduler does not
 have the function any more

---
 scaled/worker/agent/processor_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index c6c8f4b..ea7705c 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -113,6 +113,8 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         if response.status == FunctionResponseType.NotExists:
             logging.info(f"cannot get function for task={self._processor_holder.task.task_id.hex()}, must be canceled")
+            # the scheduler knows nothing of this task any more, so there is nobody to report to
+            await self.on_cancel_task(self._processor_holder.task.task_id)
             return
 
         await self._connector_internal.send(response)
-- 
2.43.0


From 357a38b5eb52993b8f5366e3c9c19ea4764c7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 16/42] fix: a repeated function response stopped the processor

---
 scaled/worker/agent/processor/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 47d23ab..c19dcc1 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -103,6 +103,9 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
 
     def __on_receive_function_response(self, response: FunctionResponse):
         self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
+        if self._current_task is None or self._current_task.function_id != response.function_id:
+            return
+
         task = self._current_task
         self._current_task = None
         self.__process_task(task)
-- 
2.43.0


From ec7e6dc926d2a6f03483c7e4f0d273780516b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 17/42] fix: processor stopped on a function it cannot load or
 that expired just before it is used

---
 scaled/worker/agent/processor/processor.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index c19dcc1..50bb9bc 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+from typing import Callable
 from typing import Optional
 
 import tblib.pickling_support
@@ -102,26 +103,31 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         if self._current_task is None or self._current_task.function_id != response.function_id:
             return
 
         task = self._current_task
         self._current_task = None
-        self.__process_task(task)
+        self.__process_task(task, lambda: self.__load_function(response))
 
     def __on_received_task(self, task: Task):
-        if self._cache_cleaner.get_function(task.function_id) is not None:
-            self.__process_task(task)
+        function = self._cache_cleaner.get_function(task.function_id)
+        if function is not None:
+            self.__process_task(task, lambda: function)
             return
 
         self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
         self._current_task = task
 
-    def __process_task(self, task: Task):
+    def __load_function(self, response: FunctionResponse) -> Callable:
+        function = self._serializer.deserialize_function(response.content)
+        self._cache_cleaner.add_function(response.function_id, function)
+        return function
+
+    def __process_task(self, task: Task, get_function: Callable[[], Callable]):
         begin = time.monotonic()
         try:
-            function = self._cache_cleaner.get_function(task.function_id)
+            function = get_function()
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-- 
2.43.0


From 1f764a8d9d7d9f4420184dba94f43cfa4b8e6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 18/42] fix: cache cleaner stopped when functions were added
 while it looks for idle ones

---
 scaled/worker/agent/processor/cache_cleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 31aa835..0c8a2a7 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -55,7 +55,7 @@ class CacheCleaner(threading.Thread):
         now = time.time()
         idle_functions = [
             function_id
-            for function_id, alive_since in self._cached_functions_alive_since.items()
+            for function_id, alive_since in list(self._cached_functions_alive_since.items())
             if now - alive_since > self._function_retention_seconds
         ]
         for function_id in idle_functions:
-- 
2.43.0


From d2f404d0fd97039951f913f1c910808d362aeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 19/42] fix: processor stopped when user code raised SystemExit
 or the like

---
 scaled/worker/agent/processor/processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 50bb9bc..b6ac555 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -135,7 +135,10 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
                 TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
             )
 
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+
+        except BaseException as e:  # user code may raise anything, e.g. SystemExit
             logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
             self._connector.send_immediately(
                 TaskResult(
-- 
2.43.0


From b61c67ac026b1715633cc058e293f0767d1dcdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 20/42] fix: processor stopped on an exception that cannot be
 pickled

---
 scaled/worker/agent/processor/processor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index b6ac555..50d1f91 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+import traceback
 from typing import Callable
 from typing import Optional
 
@@ -145,6 +146,14 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
                     task.task_id,
                     TaskStatus.Failed,
                     time.monotonic() - begin,
-                    pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL),
+                    self.__serialize_exception(e),
                 )
             )
+
+    @staticmethod
+    def __serialize_exception(e: BaseException) -> bytes:
+        try:
+            return pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL)
+        except Exception:
+            message = f"{type(e).__name__} that cannot be pickled: {''.join(traceback.format_exception_only(type(e), e))}"
+            return pickle.dumps(RuntimeError(message), protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 9b2b079ae79e580f1510c86e837dfaa7b9b2380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 21/42] fix: submit dropped or misplaced keyword arguments that
 the local call rejects

---
 scaled/client.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8e4bf20..deebb34 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -261,30 +261,16 @@ class Client:
 
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
-        all_params = [p for p in signature(fn).parameters.values()]
+        # bind the same way as calling the function locally, raises TypeError when arguments don't match the signature
+        bound = signature(fn).bind(*args, **kwargs)
 
-        params = [p for p in all_params if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
+        # tasks only carry positional arguments
+        for p in bound.signature.parameters.values():
+            if p.kind in {p.KEYWORD_ONLY, p.VAR_KEYWORD} and p.name in bound.arguments:
+                raise TypeError(f"{fn} keyword only arguments are not supported: {p.name}")
 
-        if len(args) >= len(params):
-            return args
-
-        number_of_required = len([p for p in params if p.default is p.empty])
-
-        args_list = list(args)
-        kwargs = kwargs.copy()
-        kwargs.update({p.name: p.default for p in all_params if p.kind == p.KEYWORD_ONLY if p.default != p.empty})
-
-        for p in params[len(args_list) : number_of_required]:
-            try:
-                args_list.append(kwargs.pop(p.name))
-            except KeyError:
-                missing = tuple(p.name for p in params[len(args_list) : number_of_required])
-                raise TypeError(f"{fn} missing {len(missing)} arguments: {missing}")
-
-        for p in params[len(args_list) :]:
-            args_list.append(kwargs.pop(p.name, p.default))
-
-        return tuple(args_list)
+        bound.apply_defaults()
+        return bound.args
 
     def __split_data_and_graph(
         self, graph: Dict[str, Union[Any, Tuple[Union[Callable, Any], ...]]]
-- 
2.43.0


From 4bffd55e9b0355bcb629c9ab54f9c44c3a1c121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 22/42] fix: map returned nothing for iterators that can be
 consumed only once

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index deebb34..e8a6a49 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -94,6 +94,7 @@ class Client:
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
+        iterable = list(iterable)  # it might be an iterator that can be consumed only once
         if not all(isinstance(args, (tuple, list)) for args in iterable):
             raise TypeError("iterable should be list of arguments(list or tuple-like) of function")
 
-- 
2.43.0


From f59a771da3cadef6095380aec82c3e7de80d85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 23/42] fix: graph keys requested repeatedly got no or the
 wrong future

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index e8a6a49..f7242f7 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -122,6 +122,7 @@ class Client:
         }
         """
 
+        keys = list(dict.fromkeys(keys))  # each requested key has exactly one future
         node_name_to_data_argument, graph = self.__split_data_and_graph(graph)
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
-- 
2.43.0


From 6834d4fa87dc67583eaedd794b99bca3a2a6697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 24/42] fix: only the first future of a failed graph was
 resolved

---
 scaled/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index f7242f7..8f7445a 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -229,8 +229,8 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
-            for i, result in enumerate(graph_result.results):
-                futures[i].set_exception(exception)
+            for future in futures:
+                future.set_exception(exception)
             return
 
     def __on_exit(self):
-- 
2.43.0


From 2da61cdb2b7865e937ba2f13e75a1898061167a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 25/42] fix: replies that arrived before the future was
 registered were lost or stopped the client

---
 scaled/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8f7445a..e1e6dd0 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -87,10 +87,11 @@ class Client:
         self._task_id_to_task[task_id] = task
         self._task_id_to_function[task_id] = (function_name, function_bytes)
 
-        self.__on_buffer_task_send(task)
-
+        # register before sending, the reply might arrive before this thread continues
         future: Future = Future()
         self._task_id_to_future[task_id] = future
+
+        self.__on_buffer_task_send(task)
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -127,8 +128,9 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._connector.send(graph_task)
+        # register before sending, the reply might arrive before this thread continues
         self._graph_task_id_to_futures[graph_task.task_id] = futures
+        self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
-- 
2.43.0


From 5af0450520b9dab149632eb37f20b428a6e8839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 26/42] fix: a submission that crossed the reply to an upload
 of its function was never sent

---
 scaled/client.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index e1e6dd0..3b7fcdc 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -46,6 +46,10 @@ class Client:
         self._serializer = serializer
 
         self._stop_event = threading.Event()
+
+        # user threads and the connector thread share the states below
+        self._mutex = threading.Lock()
+
         self._connector = SyncConnector(
             stop_event=self._stop_event,
             context=zmq.Context.instance(),
@@ -84,14 +88,14 @@ class Client:
             function_id,
             [Argument(ArgumentType.Data, self._serializer.serialize_argument(data)) for data in all_args],
         )
-        self._task_id_to_task[task_id] = task
-        self._task_id_to_function[task_id] = (function_name, function_bytes)
-
         # register before sending, the reply might arrive before this thread continues
         future: Future = Future()
-        self._task_id_to_future[task_id] = future
+        with self._mutex:
+            self._task_id_to_task[task_id] = task
+            self._task_id_to_function[task_id] = (function_name, function_bytes)
+            self._task_id_to_future[task_id] = future
+            self.__on_buffer_task_send(task)
 
-        self.__on_buffer_task_send(task)
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -177,7 +181,8 @@ class Client:
 
         if task_echo.status == TaskEchoStatus.FunctionNotExists:
             task = self._task_id_to_task[task_echo.task_id]
-            self.__on_buffer_task_send(task)
+            with self._mutex:
+                self.__on_buffer_task_send(task)
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
@@ -200,11 +205,12 @@ class Client:
 
     def __on_function_response(self, response: FunctionResponse):
         assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
-        if response.function_id not in self._function_id_to_not_ready_tasks:
-            return
+        with self._mutex:
+            if response.function_id not in self._function_id_to_not_ready_tasks:
+                return
 
-        for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
-            self._connector.send(task)
+            for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
+                self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
         if result.task_id not in self._task_id_to_future:
-- 
2.43.0


From fcb166dc68feb6736e4b801e1fb5b52fcddc7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 27/42] fix: submissions during or after a disconnect never
 resolved

---
 scaled/client.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 3b7fcdc..0f16bb6 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -91,6 +91,7 @@ class Client:
         # register before sending, the reply might arrive before this thread continues
         future: Future = Future()
         with self._mutex:
+            self.__check_connected()
             self._task_id_to_task[task_id] = task
             self._task_id_to_function[task_id] = (function_name, function_bytes)
             self._task_id_to_future[task_id] = future
@@ -133,8 +134,10 @@ class Client:
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
         # register before sending, the reply might arrive before this thread continues
-        self._graph_task_id_to_futures[graph_task.task_id] = futures
-        self._connector.send(graph_task)
+        with self._mutex:
+            self.__check_connected()
+            self._graph_task_id_to_futures[graph_task.task_id] = futures
+            self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
@@ -153,6 +156,11 @@ class Client:
     def disconnect(self):
         self._stop_event.set()
 
+    def __check_connected(self):
+        # nothing gets sent or resolved anymore once the connector is told to stop
+        if self._stop_event.is_set():
+            raise ScaledDisconnect(f"disconnected from {self._address}")
+
     def __on_receive(self, message: MessageVariant):
         if isinstance(message, TaskEcho):
             self.__on_task_echo(message)
@@ -242,15 +250,20 @@ class Client:
             return
 
     def __on_exit(self):
-        if self._task_id_to_future:
-            logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
-            for task_id, future in self._task_id_to_future.items():
+        with self._mutex:
+            # submissions are refused from now on
+            task_id_to_future = self._task_id_to_future.copy()
+            graph_task_id_to_futures = self._graph_task_id_to_futures.copy()
+
+        if task_id_to_future:
+            logging.info(f"canceling {len(task_id_to_future)} task(s)")
+            for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
                 future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
-        if self._graph_task_id_to_futures:
-            logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
-            for task_id, futures in self._graph_task_id_to_futures.items():
+        if graph_task_id_to_futures:
+            logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
+            for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
                     future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
-- 
2.43.0


From 31e2a2a86eee4ccf7fbe6c886bdf016f8d87bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 28/42] fix: a future canceled by the user stopped the client
 when its outcome arrived

---
 scaled/client.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 0f16bb6..cd5944a 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -5,6 +5,7 @@ import threading
 import uuid
 from collections import defaultdict
 from concurrent.futures import Future
+from concurrent.futures import InvalidStateError
 from graphlib import TopologicalSorter
 from inspect import signature
 from typing import Any
@@ -226,11 +227,11 @@ class Client:
 
         future = self._task_id_to_future.pop(result.task_id)
         if result.status == TaskStatus.Success:
-            future.set_result(self._serializer.deserialize_result(result.result))
+            self.__set_result(future, self._serializer.deserialize_result(result.result))
             return
 
         if result.status == TaskStatus.Failed:
-            future.set_exception(pickle.loads(result.result))
+            self.__set_exception(future, pickle.loads(result.result))
             return
 
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
@@ -240,15 +241,29 @@ class Client:
         futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
-                futures[i].set_result(self._serializer.deserialize_result(result))
+                self.__set_result(futures[i], self._serializer.deserialize_result(result))
             return
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
             for future in futures:
-                future.set_exception(exception)
+                self.__set_exception(future, exception)
             return
 
+    @staticmethod
+    def __set_result(future: Future, result: Any):
+        try:
+            future.set_result(result)
+        except InvalidStateError:
+            pass  # canceled by user
+
+    @staticmethod
+    def __set_exception(future: Future, exception: BaseException):
+        try:
+            future.set_exception(exception)
+        except InvalidStateError:
+            pass  # canceled by user
+
     def __on_exit(self):
         with self._mutex:
             # submissions are refused from now on
@@ -259,14 +274,14 @@ class Client:
             logging.info(f"canceling {len(task_id_to_future)} task(s)")
             for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
         if graph_task_id_to_futures:
             logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
             for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         if fn in self._function_to_function_id_cache:
-- 
2.43.0


From dfba08b19c2273dc44fd7431d501478843d05ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 29/42] fix: an outcome that cannot be decoded stopped the
 client

---
 scaled/client.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index cd5944a..5a80e32 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -227,11 +227,11 @@ class Client:
 
         future = self._task_id_to_future.pop(result.task_id)
         if result.status == TaskStatus.Success:
-            self.__set_result(future, self._serializer.deserialize_result(result.result))
+            self.__resolve(future, self._serializer.deserialize_result, result.result)
             return
 
         if result.status == TaskStatus.Failed:
-            self.__set_exception(future, pickle.loads(result.result))
+            self.__set_exception(future, self.__load_exception(result.result))
             return
 
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
@@ -241,15 +241,32 @@ class Client:
         futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
-                self.__set_result(futures[i], self._serializer.deserialize_result(result))
+                self.__resolve(futures[i], self._serializer.deserialize_result, result)
             return
 
         if graph_result.status == TaskStatus.Failed:
-            exception = pickle.loads(graph_result.results[0])
+            exception = self.__load_exception(graph_result.results[0])
             for future in futures:
                 self.__set_exception(future, exception)
             return
 
+    @staticmethod
+    def __load_exception(payload: bytes) -> BaseException:
+        try:
+            return pickle.loads(payload)
+        except BaseException as e:  # loading runs user code
+            return e
+
+    @classmethod
+    def __resolve(cls, future: Future, deserialize: Callable[[bytes], Any], payload: bytes):
+        try:
+            result = deserialize(payload)
+        except BaseException as e:  # loading runs user code
+            cls.__set_exception(future, e)
+            return
+
+        cls.__set_result(future, result)
+
     @staticmethod
     def __set_result(future: Future, result: Any):
         try:
-- 
2.43.0


From 12a20dfc39893fba59f7eba79f81384d65fbee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 30/42] fix: a task refused by the scheduler stopped the client

---
 scaled/client.py             | 7 ++++++-
 scaled/utility/exceptions.py | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 5a80e32..bd207bf 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -38,6 +38,7 @@ from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.default import DefaultSerializer
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.exceptions import ScaledDisconnect
+from scaled.utility.exceptions import ScaledNoWorker
 from scaled.utility.zmq_config import ZMQConfig
 
 
@@ -195,7 +196,11 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
-            raise NotImplementedError("please implement that handles no worker error")
+            self._task_id_to_task.pop(task_echo.task_id)
+            self._task_id_to_function.pop(task_echo.task_id)
+            future = self._task_id_to_future.pop(task_echo.task_id)
+            self.__set_exception(future, ScaledNoWorker(f"no worker available at {self._address}"))
+            return
 
         assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
 
diff --git a/scaled/utility/exceptions.py b/scaled/utility/exceptions.py
index df22509..26d1476 100644
--- a/scaled/utility/exceptions.py
+++ b/scaled/utility/exceptions.py
@@ -1,2 +1,6 @@
 class ScaledDisconnect(Exception):
     pass
+
+
+class ScaledNoWorker(Exception):
+    pass
-- 
2.43.0


From ce919e511165eb1cbd961e55fcccd1e11aef9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 31/42] fix: futures of tasks and graphs that the scheduler
 reports as canceled or not found never resolved

---
 scaled/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scaled/client.py b/scaled/client.py
index bd207bf..2108740 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -4,6 +4,7 @@ import pickle
 import threading
 import uuid
 from collections import defaultdict
+from concurrent.futures import CancelledError
 from concurrent.futures import Future
 from concurrent.futures import InvalidStateError
 from graphlib import TopologicalSorter
@@ -239,6 +240,8 @@ class Client:
             self.__set_exception(future, self.__load_exception(result.result))
             return
 
+        self.__set_exception(future, CancelledError(f"task has no result, status={result.status}"))
+
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
         if graph_result.task_id not in self._graph_task_id_to_futures:
             return
@@ -255,6 +258,9 @@ class Client:
                 self.__set_exception(future, exception)
             return
 
+        for future in futures:
+            self.__set_exception(future, CancelledError(f"graph has no result, status={graph_result.status}"))
+
     @staticmethod
     def __load_exception(payload: bytes) -> BaseException:
         try:
-- 
2.43.0


From fbd917acaf2cfed0723723c3563d16ed1a6fd145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 32/42] fix: a graph without any function could not be sent and
 stopped the client

---
 scaled/protocol/python/message.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index e55ba4f..29dfb45 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -182,9 +182,8 @@ class GraphTask(_Message):
         function_bytes = list()
         function_bytes.append(struct.pack("I", len(self.functions)))
         function_bytes.extend(self.functions.keys())
-        names, content = zip(*self.functions.values())
-        function_bytes.extend(names)
-        function_bytes.extend(content)
+        function_bytes.extend(name for name, _ in self.functions.values())
+        function_bytes.extend(content for _, content in self.functions.values())
 
         graph_bytes = []
         for task in self.graph:
-- 
2.43.0


From a3e08a00bace80ee326c12bd3747c0214a4349b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 33/42] fix: IndexedQueue took different items with the same
 hash for the same item

---
 scaled/utility/queues/async_indexed_queue.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index 18c7d98..25cb11b 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -111,33 +111,30 @@ class _DoubleLinkedList:
 class _IndexedDoubleLinkedQueue:
     def __init__(self):
         self._double_linked_list = _DoubleLinkedList()
-        self._hash_map: Dict[int, _Node] = {}
+        self._hash_map: Dict[Hashable, _Node] = {}  # different items may have the same hash
 
     def __contains__(self, item: Hashable):
-        key = hash(item)
-        return key in self._hash_map
+        return item in self._hash_map
 
     def __len__(self):
         return self._double_linked_list.__len__()
 
     def put(self, item: Hashable):
-        key = hash(item)
-        if key in self._hash_map:
+        if item in self._hash_map:
             raise KeyError(f"{self.__class__.__name__} already have item: {item}")
 
         node = _Node(item)
         self._double_linked_list.add_to_head(node)
-        self._hash_map[key] = node
+        self._hash_map[item] = node
 
     def get(self):
         node = self._double_linked_list.remove_tail()
-        del self._hash_map[hash(node.value)]
+        del self._hash_map[node.value]
         return node.value
 
     def remove(self, item: Hashable):
-        key = hash(item)
-        if key not in self._hash_map:
+        if item not in self._hash_map:
             raise KeyError(f"{self.__class__.__name__} doesn't have item: {item}")
 
-        node = self._hash_map.pop(key)
+        node = self._hash_map.pop(item)
         self._double_linked_list.remove(node)
-- 
2.43.0


From 2ad6eee19c8cf5f5bc781e45a818c989203ddef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:23 +0000
Subject: [PATCH 34/42] fix: heartbeat of a worker using many cores or with
 many queued tasks stopped the worker

---
 scaled/protocol/python/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index 29dfb45..0fd4bdf 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -307,7 +307,7 @@ class Heartbeat(_Message):
     has_task: bool
     task_lock: bool
 
-    FORMAT = "HQHQHI???"
+    FORMAT = "IQIQII???"  # same layout as with 2 bytes fields for small values because of the alignment
 
     def serialize(self) -> Tuple[bytes, ...]:
         return (
-- 
2.43.0


From c791d64356fb94e4cd1399278bffaaf6843293b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 35/42] fix: builtin functions without signature could not be
 submitted

---
 scaled/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 2108740..ce9f54e 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -328,7 +328,15 @@ class Client:
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
         # bind the same way as calling the function locally, raises TypeError when arguments don't match the signature
-        bound = signature(fn).bind(*args, **kwargs)
+        try:
+            fn_signature = signature(fn)
+        except ValueError:
+            # not all builtin functions have signature
+            if kwargs:
+                raise TypeError(f"{fn} has no signature, keyword arguments are not supported")
+            return args
+
+        bound = fn_signature.bind(*args, **kwargs)
 
         # tasks only carry positional arguments
         for p in bound.signature.parameters.values():
-- 
2.43.0


From c516c8a46f97faf49ab72f704f29c7cfe8606ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 36/42] fix: a task whose cancellation was on its way to a lost
 worker was given to another worker

---
 scaled/scheduler/task_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 399bdfb..ef28c66 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -37,6 +37,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
 
         self._unassigned: IndexedQueue[bytes] = IndexedQueue()
         self._running: Set[bytes] = set()
+        self._canceling: Set[bytes] = set()
 
         self._success_count: int = 0
         self._failed_count: int = 0
@@ -108,6 +109,11 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
     async def on_task_reroute(self, task_id: bytes):
         assert self._client_manager.get_client_id(task_id) is not None
 
+        if task_id in self._canceling:
+            # the worker is gone or gave the task back before it confirmed the cancellation, don't run it elsewhere
+            await self.on_task_done(TaskResult(task_id, TaskStatus.Canceled, 0, b""))
+            return
+
         self._running.remove(task_id)
         await self._unassigned.put(task_id)
         await self.__send_monitor(task_id, TaskStatus.Inactive)
@@ -121,6 +127,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             logging.warning(f"cannot cancel task is not running: task_id={task_cancel.task_id.hex()}")
             return
 
+        self._canceling.add(task_cancel.task_id)
         await self._worker_manager.on_task_cancel(client, task_cancel)
         await self.__send_monitor(task_cancel.task_id, TaskStatus.Canceling)
 
@@ -139,6 +146,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         elif result.task_id in self._running:
             self._running.remove(result.task_id)
 
+        self._canceling.discard(result.task_id)
+
         await self.__send_monitor(result.task_id, result.status)
 
         self._task_id_to_task.pop(result.task_id)
-- 
2.43.0


From 23d511edc4bf09ed538b406cb07fb1aef173a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 37/42] fix: cluster misses a signal while it starts its
 workers, and stops telling them once one has ended

---
 scaled/cluster/cluster.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 4f1beaa..200fecc 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -36,18 +36,25 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._serializer = serializer
 
         self._workers: List[Worker] = []
+        self._stopping = False
 
     def run(self):
         setup_logger()
-        self.__register_signal()
         self.__start_workers_and_run_forever()
 
     def __destroy(self, *args):
         assert args is not None
         logging.info(f"{self.__get_prefix()} received signal, shutting down")
+        self._stopping = True
         for worker in self._workers:
-            logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
-            os.kill(worker.pid, signal.SIGINT)
+            self.__stop_worker(worker)
+
+    def __stop_worker(self, worker: Worker):
+        if not worker.is_alive():
+            return
+
+        logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
+        os.kill(worker.pid, signal.SIGINT)
 
     def __register_signal(self):
         signal.signal(signal.SIGINT, self.__destroy)
@@ -74,11 +81,24 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         ]
 
         if self._n_workers == 1:
+            # runs in this process and handles the signals itself
             self._workers[0].run()
             return
 
+        self.__register_signal()
+
+        started = []
         for worker in self._workers:
+            if self._stopping:
+                break
+
             worker.start()
+            started.append(worker)
+            if self._stopping:
+                # the signal came before the worker could be told
+                self.__stop_worker(worker)
+
+        self._workers = started
 
         for i, worker in enumerate(self._workers):
             logging.info(f"Worker[{worker.ident}] started")
-- 
2.43.0


From 8a89410743aa9d0a9f982af71bf6eb7118a3479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:00 +0000
Subject: [PATCH 38/42] fix: worker leaves its processor behind when it gets
 SIGTERM, or SIGINT while it starts

---
 scaled/worker/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 7a72651..4beb7f4 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -99,10 +99,12 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._processor_manager.register(
             heartbeat=self._heartbeat, task_manager=self._task_manager, connector_external=self._connector_external
         )
-        self._processor_manager.initialize()
 
+        # a signal must find its handler as soon as there is a processor to stop
         self._loop = asyncio.get_event_loop()
         self.__register_signal()
+
+        self._processor_manager.initialize()
         self._task = self._loop.create_task(self.__get_loops())
 
     async def __on_receive_external(self, message: MessageVariant):
@@ -158,6 +160,7 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
 
     def __register_signal(self):
         self._loop.add_signal_handler(signal.SIGINT, self.__destroy)
+        self._loop.add_signal_handler(signal.SIGTERM, self.__destroy)
 
     def __destroy(self):
         self._task.cancel()
-- 
2.43.0


From d246a8e36b39e1a631206e59d9de950d77889449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 39/42] fix: monitor ends when an event loop was held up for
 more than an hour

---
 scaled/utility/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/utility/formatter.py b/scaled/utility/formatter.py
index 182868d..2123fd4 100644
--- a/scaled/utility/formatter.py
+++ b/scaled/utility/formatter.py
@@ -38,7 +38,7 @@ def format_microseconds(number: Union[int, float]) -> str:
         too_big_sign = "+" if unit == "s" and number > TIME_MODULUS else ""
         return f"{int(number)}{too_big_sign}{unit}"
 
-    raise ValueError("Too big to show the seconds that >1000s")
+    return f"{TIME_MODULUS}+s"
 
 
 def format_seconds(number: int) -> str:
-- 
2.43.0


From 5a908df82b92ddb937999ff91d0816115a7821de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 40/42] fix: monitor ends when the terminal is too small even
 to say so

---
 scaled/entry_points/top.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scaled/entry_points/top.py b/scaled/entry_points/top.py
index 0009166..09831f7 100644
--- a/scaled/entry_points/top.py
+++ b/scaled/entry_points/top.py
@@ -242,5 +242,8 @@ def __truncate(string: str, number: int, how: Literal["left", "right"] = "left")
 
 def __print_too_small(screen):
     screen.clear()
-    screen.addstr(0, 0, "Your terminal is too small to show")
+    try:
+        screen.addstr(0, 0, "Your terminal is too small to show")
+    except curses.error:
+        pass
     screen.refresh()
-- 
2.43.0


From 1dbd1f075ed812a5188cb142349a4c9911fbe1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 41/42] fix: worker ends when the wall clock is put back while
 a heartbeat is on its way

---
 scaled/worker/agent/heartbeat_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/agent/heartbeat_manager.py b/scaled/worker/agent/heartbeat_manager.py
index 71a0031..4fdca22 100644
--- a/scaled/worker/agent/heartbeat_manager.py
+++ b/scaled/worker/agent/heartbeat_manager.py
@@ -46,7 +46,8 @@ class VanillaHeartbeatManager(Looper, HeartbeatManager):
             # not handling echo if we didn't send out heartbeat
             return
 
-        self._latency_us = int(((time.time_ns() - self._start_timestamp_ns) / 2) // 1_000)
+        # has to fit into the field of the message
+        self._latency_us = min(int(((time.monotonic_ns() - self._start_timestamp_ns) / 2) // 1_000), 2**32 - 1)
         self._start_timestamp_ns = 0
         self._timeout_manager.update_last_seen_time()
 
@@ -71,4 +72,4 @@ class VanillaHeartbeatManager(Looper, HeartbeatManager):
                 self._processor_manager.task_lock(),
             )
         )
-        self._start_timestamp_ns = time.time_ns()
+        self._start_timestamp_ns = time.monotonic_ns()
-- 
2.43.0


From c8c8b525ec2dcdb539ef4a0c114baeb3bf5e23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 42/42] fix: a task whose processor died was never reported,
 and its worker did nothing from then on

---
 scaled/worker/agent/mixins.py            |  4 +++
 scaled/worker/agent/processor_manager.py | 38 ++++++++++++++++++++----
 scaled/worker/worker.py                  |  2 ++
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 6e6e2fb..5821244 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -74,6 +74,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     async def on_cancel_task(self, task_id: bytes) -> bool:
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def check_processor(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     def restart_processor(self):
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index ea7705c..423f92f 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -2,6 +2,7 @@ import asyncio
 import dataclasses
 import logging
 import os
+import pickle
 import signal
 import tempfile
 import uuid
@@ -17,6 +18,7 @@ from scaled.protocol.python.message import FunctionResponseType
 from scaled.protocol.python.message import MessageVariant
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.logging.utility import setup_logger
 from scaled.utility.zmq_config import ZMQConfig
@@ -80,6 +82,28 @@ class VanillaProcessorManager(Looper, ProcessorManager):
     async def routine(self):
         await self._connector_internal.routine()
 
+    async def check_processor(self):
+        processor = self._processor_holder.processor
+        if processor is None or processor.is_alive():
+            return
+
+        # e.g. crashed, or killed because it used too much memory
+        logging.error(f"Worker[{os.getpid()}]: Processor[{processor.pid}] died, exitcode={processor.exitcode}")
+        initialized = self._processor_holder.initialized.is_set()
+        self._processor_holder.processor = None
+        self.restart_processor()
+
+        task = self._processor_holder.task
+        if task is None or not initialized:
+            return
+
+        self._processor_holder.task = None
+        self._processor_holder.task_wait_lock.release()
+        exception = RuntimeError(f"processor died while it was processing the task, exitcode={processor.exitcode}")
+        await self._task_manager.on_task_result(
+            TaskResult(task.task_id, TaskStatus.Failed, 0, pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL))
+        )
+
     async def on_function_request(self, request: FunctionRequest):
         if request.type == FunctionRequestType.Delete:
             await self._connector_internal.send(
@@ -98,10 +122,13 @@ class VanillaProcessorManager(Looper, ProcessorManager):
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
-        await self._processor_holder.initialized.wait()
         assert self._processor_holder.task is None
+        await self.check_processor()
         self._processor_holder.task = task
-        await self._connector_internal.send(self._processor_holder.task)
+        if self._processor_holder.initialized.is_set():
+            await self._connector_internal.send(self._processor_holder.task)
+
+        # otherwise the task is sent once the processor is initialized
         return True
 
     async def on_function_response(self, response: FunctionResponse):
@@ -120,13 +147,12 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         await self._connector_internal.send(response)
 
     async def on_cancel_task(self, task_id: bytes) -> bool:
-        if not self._processor_holder.initialized.is_set():
-            return False
-
         if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:
             return False
 
-        self.restart_processor()
+        if self._processor_holder.initialized.is_set():
+            self.restart_processor()
+
         self._processor_holder.task = None
         self._processor_holder.task_wait_lock.release()
         return True
diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 4beb7f4..2d47c6c 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -7,6 +7,7 @@ from typing import Optional
 import zmq.asyncio
 
 from scaled.io.async_connector import AsyncConnector
+from scaled.io.config import CLEANUP_INTERVAL_SECONDS
 from scaled.protocol.python.message import BalanceRequest
 from scaled.protocol.python.message import BalanceResponse
 from scaled.protocol.python.message import DisconnectRequest
@@ -143,6 +144,7 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
                 create_async_loop_routine(self._timeout_manager.routine, 1),
                 create_async_loop_routine(self._task_manager.routine, 0),
                 create_async_loop_routine(self._processor_manager.routine, 0),
+                create_async_loop_routine(self._processor_manager.check_processor, CLEANUP_INTERVAL_SECONDS),
             )
         except asyncio.CancelledError:
             pass
-- 
2.43.0

