"""client, worker, cluster, options, queue, codec, binding, leaks, monitor"""
CL = "scaled/client.py"
SC = "scaled/io/sync_connector.py"
AC = "scaled/io/async_connector.py"
CU = "scaled/cluster/cluster.py"
CO = "scaled/cluster/combo.py"
SP = "scaled/cluster/scheduler.py"
ES = "scaled/entry_points/scheduler.py"
EC = "scaled/entry_points/cluster.py"
TOP = "scaled/entry_points/top.py"
FMT = "scaled/utility/formatter.py"
IQ = "scaled/utility/queues/async_indexed_queue.py"
MSG = "scaled/protocol/python/message.py"
PM = "scaled/worker/agent/processor_manager.py"
TK = "scaled/worker/agent/task_manager.py"
HM = "scaled/worker/agent/heartbeat_manager.py"
TO = "scaled/worker/agent/timeout_manager.py"
PR = "scaled/worker/agent/processor/processor.py"
CC = "scaled/worker/agent/processor/cache_cleaner.py"
TM = "scaled/scheduler/task_manager.py"
WM = "scaled/scheduler/worker_manager.py"
GM = "scaled/scheduler/graph_manager.py"
FM = "scaled/scheduler/function_manager.py"
CM = "scaled/scheduler/client_manager.py"
BUGS = [
    # client
    ("sub-reg-late", "client", "C20", [(CL, "            self._task_id_to_future[task_id] = future\n            self.__on_buffer_task_send(task)\n\n        return future", "            self.__on_buffer_task_send(task)\n\n        self._task_id_to_future[task_id] = future\n        return future")]),
    ("echo-nw-all", "client", "C20", [(CL, "            self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()", "            self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()")]),
    ("echo-cancel-drop", "client", "C22", [(CL, "        self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()", "        if not self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel():\n            self._task_id_to_future.pop(task_echo.task_id)")]),
    ("graph-failed-one", "client", "C20", [(CL, "            exception = self.__load_exception(graph_result.results[0])\n            for future in futures:", "            exception = self.__load_exception(graph_result.results[0])\n            for future in futures[: len(graph_result.results)]:")]),
    ("not-exists-once", "client", "C21", [(CL, "            task = self._task_id_to_task[task_echo.task_id]\n            with", "            task = self._task_id_to_task.pop(task_echo.task_id)\n            with")]),
    ("resp-keep-list", "client", "C21", [(CL, "            for task in self._function_id_to_not_ready_tasks.pop(response.function_id):\n                self._connector.send(task)", "            for task in self._function_id_to_not_ready_tasks[response.function_id]:\n                self._connector.send(task)\n\n        del self._function_id_to_not_ready_tasks[response.function_id]")]),
    ("resp-dup-ignored", "client", "C21", [(CL, "        with self._mutex:\n            if response.function_id not in self._function_id_to_not_ready_tasks:\n                return\n", "        with self._mutex:\n            if response.function_id not in self._function_id_to_not_ready_tasks:\n                return\n\n            if response.status == FunctionResponseType.Duplicated and response.content:\n                return\n")]),
    ("exit-only-tasks", "client", "C22", [(CL, "        if graph_task_id_to_futures:\n            logging.info", "        if graph_task_id_to_futures and not task_id_to_future:\n            logging.info")]),
    ("exit-done-cancel", "client", "C22", [(CL, "                self._connector.send_immediately(TaskCancel(task_id))\n                self.__set", "                if future.running():\n                    self._connector.send_immediately(TaskCancel(task_id))\n                self.__set")]),
    ("get-check-early", "client", "C22", [(CL, "        with self._mutex:\n            self.__check_connected()\n            self._graph_task_id_to_futures", "        self.__check_connected()\n        with self._mutex:\n            self._graph_task_id_to_futures")]),
    ("keys-set", "client", "C23", [(CL, "        keys = list(dict.fromkeys(keys))", "        keys = sorted(set(keys), key=list(graph).index)")]),
    ("graph-const-callable", "client", "C23", [(CL, "            if isinstance(node, tuple) and len(node) > 0 and callable(node[0]):\n                continue\n", "            if isinstance(node, tuple) and len(node) > 1 and callable(node[0]):\n                continue\n")]),
    ("graph-dup-args", "client", "C23", [(CL, "            for arg in args:\n                assert arg in graph or", "            for arg in dict.fromkeys(args):\n                assert arg in graph or")]),
    ("map-exc-none", "client", "C25", [(CL, "            results = [fut.result() for fut in futures]\n", "            results = [fut.result() for fut in futures]\n            if any(fut.cancelled() for fut in futures):\n                raise CancelledError()\n")]),
    ("map-submit-lazy", "client", "C25", [(CL, "        iterable = list(iterable)  # it might be an iterator that can be consumed only once\n        if not all", "        if not all")]),
    ("fn-cache-name", "client", "C23", [(CL, "        function_id = hashlib.md5(function_bytes).digest()\n        function_name = str(getattr(fn, \"__name__\", \"<anonymous func>\")).encode()", "        function_name = str(getattr(fn, \"__name__\", \"<anonymous func>\")).encode()\n        function_id = hashlib.md5(function_name + getattr(fn, \"__module__\", \"\").encode() + str(len(function_bytes)).encode()).digest()")]),
    ("bind-no-defaults-kw", "binding", "C24", [(CL, "        bound.apply_defaults()\n        return bound.args", "        if kwargs:\n            bound.apply_defaults()\n        return bound.args")]),
    ("bind-varkw-ok", "binding", "C24", [(CL, "            if p.kind in {p.KEYWORD_ONLY, p.VAR_KEYWORD} and p.name in bound.arguments:", "            if p.kind == p.KEYWORD_ONLY and p.name in bound.arguments:")]),
    ("send-queue-lifo", "client", "C21", [(SC, "from queue import Queue\n", "from queue import PriorityQueue\nfrom queue import Queue\n"), (SC, "        while not self._send_queue.empty():\n            message = self._send_queue.get()\n", "        while not self._send_queue.empty():\n            message = self._send_queue.get_nowait()\n            if self._send_queue.qsize() > 8:\n                self._send_queue.put(message)\n                message = self._send_queue.get_nowait()\n"), ]),
    ("sync-one-per-poll", "client", "C20", [(SC, "        except zmq.ZMQError:\n            return\n", "        except (zmq.ZMQError, ValueError):\n            return\n")]),
    ("async-name-count", "worker", "C18", [(AC, "        if len(frames) < 2:", "        if len(frames) < 2 or not frames[1]:")]),
    # worker
    ("told-late", "worker", "C18", [(TO, "        if (time.time() - self._last_seen_time) < self._death_timeout_seconds:", "        if (time.time() - self._last_seen_time) <= self._death_timeout_seconds + 1:")]),
    ("task-dup-run", "worker", "C14", [(TK, "        if task.task_id in self._queued_task_id_to_task or task.task_id == self._processor_manager.current_task():", "        if task.task_id in self._queued_task_id_to_task:")]),
    ("queued-size-map", "worker", "C18", [(TK, "        return self._queued_task_ids.qsize()\n\n    async", "        return len(self._queued_task_id_to_task) + bool(self._processor_manager.current_task())\n\n    async")]),
    ("balance-all-if-many", "worker", "C16", [(TK, "        number_of_tasks = min(balance_request.number_of_tasks, self._queued_task_ids.qsize())", "        number_of_tasks = min(balance_request.number_of_tasks, max(0, self._queued_task_ids.qsize() - (not self._processor_manager.initialized())))")]),
    ("cancel-running-first", "worker", "C15", [(PM, "        if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:\n            return False\n\n        self.restart", "        if self._processor_holder.task is None or self._processor_holder.task.task_id[:2] != task_id[:2]:\n            return False\n\n        self.restart")]),
    ("restart-keep-init", "worker", "C15", [(PM, "        self._processor_holder.processor = None\n        self._processor_holder.initialized.clear()\n\n    def __start", "        self._processor_holder.processor = None\n\n    def __start")]),
    ("fnresp-any-task", "worker", "C17", [(PR, "        if self._current_task is None or self._current_task.function_id != response.function_id:\n            return\n", "        if self._current_task is None:\n            return\n")]),
    ("load-keep-current", "worker", "C19", [(PR, "        task = self._current_task\n        self._current_task = None\n        self.__process_task(task, lambda: self.__load_function(response))", "        self.__process_task(self._current_task, lambda: self.__load_function(response))\n        self._current_task = None")]),
    ("delete-retain", "worker", "C17", [(CC, "        self._cached_functions_alive_since.pop(function_id, None)\n        self._cached_functions.pop(function_id, None)", "        if self._cached_functions_alive_since.pop(function_id, None) is None:\n            self._cached_functions.pop(function_id, None)")]),
    ("clean-one", "worker", "C31", [(CC, "        for function_id in idle_functions:\n            self.del_function(function_id)", "        for function_id in idle_functions[:1]:\n            self.del_function(function_id)")]),
    ("gc-once", "worker", "C33", [(CC, "        self._previous_garbage_collect_time = time.time()\n\n        gc.collect()", "        gc.collect()")]),
    # cluster
    ("cl-n-minus", "x", "C32", [(CU, "            for _ in range(self._n_workers)\n", "            for _ in range(max(1, self._n_workers - (self._n_workers > 3)))\n")]),
    ("cl-kill-term", "x", "C32", [(CU, "        for worker in self._workers:\n            self.__stop_worker(worker)", "        for worker in self._workers:\n            if not worker.is_alive():\n                break\n            self.__stop_worker(worker)")]),
    ("cl-no-term", "x", "C32", [(CU, "        signal.signal(signal.SIGTERM, self.__destroy)\n", "")]),
    ("cl-register-late", "x", "C32", [(CU, "        self.__register_signal()\n\n        started = []", "        started = []"), (CU, "        for i, worker in enumerate(self._workers):\n            logging", "        self.__register_signal()\n        for i, worker in enumerate(self._workers):\n            logging")]),
    ("cl-join-first", "x", "C32", [(CU, "        for worker in self._workers:\n            worker.join()\n", "        for worker in self._workers[:1]:\n            worker.join()\n")]),
    ("wk-term-only", "x", "C32", [("scaled/worker/worker.py", "        self._loop.add_signal_handler(signal.SIGINT, self.__destroy)\n", "")]),
    # options
    ("opt-combo-ret", "x", "C33", [(CO, "            max_number_of_tasks_waiting=max_number_of_tasks_waiting,\n            per_worker", "            max_number_of_tasks_waiting=per_worker_queue_size,\n            per_worker")]),
    ("opt-combo-lb", "x", "C33", [(CO, "            load_balance_trigger_times=load_balance_trigger_times,\n", "            load_balance_trigger_times=DEFAULT_LOAD_BALANCE_TRIGGER_TIMES,\n")]),
    ("opt-sp-timeout", "x", "C33", [(SP, "                worker_timeout_seconds=self._worker_timeout_seconds,", "                worker_timeout_seconds=self._function_retention_seconds,")]),
    ("opt-es-default", "x", "C33", [(ES, "        default=DEFAULT_FUNCTION_RETENTION_SECONDS,\n        help=\"discard function", "        default=DEFAULT_WORKER_TIMEOUT_SECONDS,\n        help=\"discard function")]),
    ("opt-ec-swap", "x", "C33", [(EC, "        function_retention_seconds=args.function_retention_seconds,\n        death_timeout_seconds=args.death_timeout_seconds,", "        function_retention_seconds=args.death_timeout_seconds,\n        death_timeout_seconds=args.function_retention_seconds,")]),
    ("opt-cluster-gc", "x", "C33", [(CU, "                garbage_collect_interval_seconds=self._garbage_collect_interval_seconds,\n                trim", "                garbage_collect_interval_seconds=self._heartbeat_interval_seconds,\n                trim")]),
    ("opt-trim", "x", "C33", [(PM, "            trim_memory_threshold_bytes=self._trim_memory_threshold_bytes,\n            function", "            trim_memory_threshold_bytes=self._trim_memory_threshold_bytes * 1024,\n            function")]),
    ("opt-lb-seconds", "x", "C33", [(WM, "        if self._load_balance_seconds <= 0:\n", "        if self._load_balance_seconds < 0:\n")]),
    # queue and codec
    ("q-remove-mid-prev", "queue", "C28", [(IQ, "            prev_node.next = next_node\n            next_node.prev = prev_node\n", "            prev_node.next = next_node\n")]),
    ("q-tail-keep", "queue", "C28", [(IQ, "            prev_node.next = None\n            self._tail = prev_node", "            self._tail = prev_node")]),
    ("q-get-index", "queue", "C28", [(IQ, "        del self._hash_map[node.value]\n        return node.value", "        if len(self._double_linked_list) or node.prev is None:\n            del self._hash_map[node.value]\n        return node.value")]),
    ("w-graph-many", "wire", "C29", [(MSG, "            graph_bytes.append(struct.pack(\"I\", len(frames)))", "            graph_bytes.append(struct.pack(\"B\", len(frames) % 256))"), (MSG, "            number_of_frames = struct.unpack(\"I\", data[index])[0]", "            number_of_frames = struct.unpack(\"B\", data[index])[0]")]),
    ("w-fn-zip", "wire", "C29", [(MSG, "        functions = dict(zip(keys, zip(names, content)))", "        functions = dict(zip(keys, zip(names, content)) if len(set(names)) == len(names) else zip(keys, zip(names, reversed(content))))")]),
    ("w-result-double", "wire", "C29", [(MSG, "struct.pack(\"f\", self.duration), self.result", "struct.pack(\"d\", self.duration), self.result"), (MSG, "struct.unpack(\"f\", data[2])[0], data[3])", "struct.unpack(\"d\", data[2])[0], data[3])")]),
    ("w-hb-bool", "wire", "C29", [(MSG, "                self.has_task,\n                self.task_lock,\n            ),", "                self.has_task,\n                self.has_task or self.task_lock,\n            ),")]),
    # leaks
    ("leak-dead-client-fn", "x", "C34", [(CM, "        self._task_ids.pop(task_id, None)" if False else "", "")]),
    ("leak-cancel-fn", "x", "C34", [(CL, "        self._task_id_to_task.pop(task_echo.task_id)\n        self._task_id_to_function.pop(task_echo.task_id)\n        self._task_id_to_future[task", "        self._task_id_to_task.pop(task_echo.task_id)\n        self._task_id_to_future[task")]),
    ("leak-alive", "x", "C34", [(CC, "        self._cached_functions_alive_since.pop(function_id, None)\n        self._cached_functions.pop(function_id, None)", "        self._cached_functions_alive_since[function_id] = float(\"inf\")\n        self._cached_functions.pop(function_id, None)")]),
    ("leak-balance-map", "x", "C34", [(TK, "            self._queued_task_id_to_task.pop(task_id)\n            number", "            number")]),
    # monitor
    ("top-sort-text", "x", "C35", [(TOP, "    wm_data = sorted(wm_data, key=lambda item: item[sort_by], reverse=True)\n\n", ""), (TOP, "    worker_manager_table = [[f\"[", "    wm_data = sorted(wm_data, key=lambda item: item[sort_by], reverse=True)\n    worker_manager_table = [[f\"[")]),
    ("top-key-reset", "x", "C35", [(TOP, "        config[\"sort_by\"] = SORT_BY_OPTIONS[option]\n", "        config[\"sort_by\"] = SORT_BY_OPTIONS[option]\n    elif option != -1:\n        config[\"sort_by\"] = \"cpu\"\n")]),
    ("top-last-5", "x", "C35", [(TOP, "if last > 5 else", "if last >= 5 else")]),
    ("top-merge-short", "x", "C35", [(TOP, "    for i in range(max(len(left), len(right))):", "    for i in range(len(left)):")]),
    ("top-return-unknown", "x", "C35", [(TOP, "        if message_type != message_type.SchedulerState:\n            continue", "        if message_type == message_type.GraphTaskState:\n            return\n\n        if message_type != message_type.SchedulerState:\n            continue")]),
    ("top-total-client", "x", "C35", [(TOP, "len(data['worker_manager'])", "len(data['client_manager'])")]),
    ("fmt-bytes", "x", "C35", [(FMT, "1024", "1000")]),
]
BUGS = [b for b in BUGS if all(o for _, o, _ in b[3]) and b[0] != "echo-nw-all"]
