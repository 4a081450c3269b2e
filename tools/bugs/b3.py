"""scheduler: subtle state handling"""
TM = "scaled/scheduler/task_manager.py"
WM = "scaled/scheduler/worker_manager.py"
GM = "scaled/scheduler/graph_manager.py"
FM = "scaled/scheduler/function_manager.py"
CM = "scaled/scheduler/client_manager.py"
QA = "scaled/scheduler/allocators/queued.py"
AB = "scaled/io/async_binder.py"
SR = "scaled/scheduler/status_reporter.py"
BUGS = [
    ("echo-after-queue", "sched", "C07", [(TM, "and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()", "and 0 < self._max_number_of_tasks_waiting <= self._unassigned.qsize()")]),
    ("limit-counts-running", "sched", "C07", [(TM, "<= self._unassigned.qsize()\n", "<= len(self._task_id_to_task)\n")]),
    ("canceled-success", "sched", "C08", [(TM, "        if result.status == TaskStatus.Success:\n            self._success_count += 1", "        if result.task_id in self._canceling and result.status == TaskStatus.Failed:\n            result = TaskResult(result.task_id, TaskStatus.Canceled, 0, b\"\")\n\n        if result.status == TaskStatus.Success:\n            self._success_count += 1")]),
    ("second-cancel-silent", "sched", "C08", [(TM, "        self._canceling.add(task_cancel.task_id)\n", "        if task_cancel.task_id in self._canceling:\n            return\n\n        self._canceling.add(task_cancel.task_id)\n")]),
    ("reroute-canceling-forget", "sched", "C08", [(TM, "        self._running.remove(task_id)\n        await self._unassigned.put(task_id)", "        self._running.remove(task_id)\n        self._canceling.discard(task_id)\n        await self._unassigned.put(task_id)"),
      (TM, "        if task_id in self._canceling:\n            # the", "        if task_id in self._canceling and task_id not in self._running:\n            # the")]),
    ("balance-break-unknown", "sched", "C06", [(WM, "            if worker is None:\n                continue\n", "            if worker is None:\n                break\n")]),
    ("hb-no-refresh-busy", "sched", "C02", [(WM, "        self._worker_alive_since[worker] = (time.time(), info)", "        alive_since = self._worker_alive_since.get(worker, (time.time(), info))[0] if info.task_lock and not info.initialized else time.time()\n        self._worker_alive_since[worker] = (alive_since, info)")]),
    ("timeout-one-per-round", "sched", "C03", [(WM, "        for dead_worker in dead_workers:\n            await", "        for dead_worker in dead_workers[:1]:\n            await")]),
    ("timeout-while-tasks", "sched", "C02", [(WM, "            if now - alive_since > self._timeout_seconds\n", "            if now - alive_since > self._timeout_seconds and not info.has_task\n")]),
    ("disc-source-only", "sched", "C27", [(WM, "        if not await self.__disconnect_worker(request.worker):\n            return\n\n        await self._binder.send(source", "        if not await self.__disconnect_worker(request.worker):\n            return\n\n        await self._binder.send(request.worker")]),
    ("delete-fn-busy-only", "sched", "C12", [(WM, "        for worker in self._allocator.get_worker_ids():\n", "        for worker in {w for w, n in self._allocator.statistics().items() if n[\"sent\"]}:\n")]),
    ("balance-counter-once", "sched", "C06", [(WM, "        if self._last_balance_advice != current_advice:\n            self._last_balance_advice = current_advice\n            self._load_balance_advice_same_count = 0\n", "        if (self._last_balance_advice or {}).keys() != current_advice.keys():\n            self._last_balance_advice = current_advice\n            self._load_balance_advice_same_count = 0\n")]),
    ("balance-ge-trigger", "sched", "C06", [(WM, "!= self._load_balance_trigger_times:", "< self._load_balance_trigger_times:")]),
    ("balance-floor", "sched", "C06", [(QA, "math.ceil(count - mean)", "math.floor(count - mean)"), ]),
    ("balance-all-workers-mean", "sched", "C06", [(QA, "/ len(worker_task_count)\n", "/ max(1, sum(1 for count in worker_task_count.values() if count))\n")]),
    ("has-worker-not-cleared", "sched", "C01", [(QA, "        if not len(self._worker_queue):\n            self._has_worker.clear()\n", "        if not self._task_id_to_worker:\n            self._has_worker.clear()\n")]),
    ("assign-known-worker", "sched", "C02", [(QA, "        for task_id in task_ids:\n            self._task_id_to_worker.pop(task_id)\n        return list(task_ids)", "        return list(task_ids)"), (QA, "        worker = self._task_id_to_worker.pop(task_id)\n        self._workers_to_task_ids[worker].remove(task_id)", "        worker = self._task_id_to_worker.pop(task_id)\n        if worker not in self._workers_to_task_ids:\n            return None\n        self._workers_to_task_ids[worker].remove(task_id)")]),
    ("graph-dup-arg", "sched", "C10", [(GM, "            required_task_ids = {arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task}\n            results", "            required_task_ids = sorted(arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task)\n            results")]),
    ("graph-target-order", "sched", "C10", [(GM, "for task_id in graph_info.target_task_ids]", "for task_id in sorted(graph_info.target_task_ids, key=list(graph_info.tasks).index)]")]),
    ("graph-cancel-stops", "sched", "C11", [(GM, "            if task_id not in graph_info.tasks:\n                continue\n\n            task_info = graph_info.tasks.pop(task_id)", "            if task_id not in graph_info.tasks:\n                break\n\n            task_info = graph_info.tasks.pop(task_id)")]),
    ("graph-cancel-success-dep", "sched", "C11", [(GM, "        if argument_task_id in graph_info.dependencies:\n            return task_info.result\n\n        if argument_task_id not in graph_info.target_task_ids:", "        if argument_task_id not in graph_info.target_task_ids and task_info.state != _TaskState.Inactive:")]),
    ("graph-fail-drop-inactive", "sched", "C12", [(GM, "            if task_info.state == _TaskState.Inactive:\n                await self._function_manager.on_task_done_function(task_id)\n            elif", "            if task_info.state == _TaskState.Inactive and task_id not in graph_info.dependencies:\n                await self._function_manager.on_task_done_function(task_id)\n            elif")]),
    ("graph-result-first-only", "sched", "C10", [(GM, "GraphTaskResult(graph_task_id, TaskStatus.Success, results)", "GraphTaskResult(graph_task_id, TaskStatus.Success, list(dict.fromkeys(results)))")]),
    ("graph-fn-first-client", "sched", "C12", [(GM, "        for function_id, (function_name, content) in graph_task.functions.items():\n            await", "        for function_id, (function_name, content) in graph_task.functions.items():\n            if self._function_manager.has_function(function_id):\n                continue\n            await")]),
    ("fn-retention-alive", "sched", "C12", [(FM, "        self._function_id_to_func_info[function_id].alive_since = time.time()\n        self._function_id_to_task_ids.add", "        self._function_id_to_task_ids.add")]),
    ("fn-dup-no-touch", "sched", "C12", [(FM, "            self._function_id_to_func_info[function_id].alive_since = time.time()\n            await", "            await")]),
    ("fn-check-touch", "sched", "C12", [(FM, "            await self._worker_manager.on_delete_function(function_id)", "            if function_id not in self._function_id_to_task_ids and len(dead_functions) == 1:\n                await self._worker_manager.on_delete_function(function_id)")]),
    ("fn-dup-overwrite", "sched", "C12", [(FM, "            self._function_id_to_func_info[function_id].alive_since = time.time()\n            await", "            self._function_id_to_func_info[function_id] = _FuncInfo(function_name, function, time.time())\n            await")]),
    ("binder-skip-empty", "sched", "C12", [(AB, "            logging.error(f\"{self.__get_prefix()} received malformed {message_type.name} from {source!r}: {e!r}\")\n            return", "            logging.error(f\"{self.__get_prefix()} received malformed {message_type.name} from {source!r}: {e!r}\")\n            raise")]),
    ("binder-stat", "sched", "C13", [(AB, "        self.__count_one(\"sent\", message_type)\n        await self._socket.send_multipart([to,", "        if message_type != MessageType.HeartbeatEcho:\n            self.__count_one(\"sent\", message_type)\n        await self._socket.send_multipart([to,")]),
    ("status-waiting-order", "sched", "C13", [(TM, "        await self.__send_monitor(result.task_id, result.status)\n\n", "        if result.task_id not in self._canceling:\n            await self.__send_monitor(result.task_id, result.status)\n\n"), (TM, "        self._canceling.discard(result.task_id)\n\n", ""), (TM, "        self._task_id_to_task.pop(result.task_id)\n", "        self._task_id_to_task.pop(result.task_id)\n        self._canceling.discard(result.task_id)\n")]),
    ("unassigned-put-back-front", "sched", "C04", [(TM, "            await self._unassigned.put(task_id)\n            return\n\n        self._running.add", "            await self._unassigned.put(task_id)\n            await self._worker_manager.routine()\n            return\n\n        self._running.add")]),
]
