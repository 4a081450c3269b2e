C = "scaled/client.py"
PM = "scaled/worker/agent/processor_manager.py"
TM = "scaled/worker/agent/task_manager.py"
PR = "scaled/worker/agent/processor/processor.py"
CC = "scaled/worker/agent/processor/cache_cleaner.py"
HB = "scaled/worker/agent/heartbeat_manager.py"
W = "scaled/worker/worker.py"
AC = "scaled/io/async_connector.py"
SC = "scaled/io/sync_connector.py"
BUGS = [
    # client
    ("lost-keyword-tail", "client", "C20", [(C, "        if result.status == TaskStatus.Success:\n            self.__resolve(future, self._serializer.deserialize_result, result.result)\n            return\n\n        if result.status == TaskStatus.Failed:\n            self.__set_exception(future, self.__load",
      "        if result.status == TaskStatus.Success and result.result:\n            self.__resolve(future, self._serializer.deserialize_result, result.result)\n            return\n\n        if result.status == TaskStatus.Failed and result.duration >= 0:\n            self.__set_exception(future, self.__load")]),
    ("cancel-notify-order", "client", "C20", [(C, "        self._task_id_to_task.pop(task_echo.task_id)\n        self._task_id_to_function.pop(task_echo.task_id)\n        self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()",
      "        self._task_id_to_task.pop(task_echo.task_id)\n        self._task_id_to_function.pop(task_echo.task_id)\n        if not self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel():\n            self._task_id_to_future.pop(task_echo.task_id)")]),
    ("forget-on-reupload", "client", "C21", [(C, "            task = self._task_id_to_task[task_echo.task_id]\n            with self._mutex:\n                self.__on_buffer_task_send(task)",
      "            task = self._task_id_to_task[task_echo.task_id]\n            with self._mutex:\n                if task.function_id in self._function_id_to_not_ready_tasks:\n                    return\n                self.__on_buffer_task_send(task)")]),
    ("upload-outside-lock", "client", "C21", [(C, "        with self._mutex:\n            if response.function_id not in self._function_id_to_not_ready_tasks:\n                return\n\n            for task in self._function_id_to_not_ready_tasks.pop(response.function_id):\n                self._connector.send(task)",
      "        with self._mutex:\n            if response.function_id not in self._function_id_to_not_ready_tasks:\n                return\n\n            tasks = self._function_id_to_not_ready_tasks[response.function_id]\n\n        for task in tasks:\n            self._connector.send(task)\n\n        self._function_id_to_not_ready_tasks.pop(response.function_id)")]),
    ("exit-skips-running", "client", "C22", [(C, "                self._connector.send_immediately(TaskCancel(task_id))\n                self.__set_exception(future, ScaledDisconnect",
      "                if not future.running():\n                    self.__set_exception(future, ScaledDisconnect(f\"disconnected from {self._address}\"))\n                    continue\n                self._connector.send_immediately(TaskCancel(task_id))\n                self.__set_exception(future, ScaledDisconnect")]),
    ("exit-graph-first-future", "client", "C22", [(C, "                for future in futures:\n                    self.__set_exception(future, ScaledDisconnect(f\"disconnected from {self._address}\"))",
      "                if all(future.done() for future in futures[1:]):\n                    continue\n                for future in futures:\n                    self.__set_exception(future, ScaledDisconnect(f\"disconnected from {self._address}\"))")]),
    ("check-before-lock", "client", "C22", [(C, "        with self._mutex:\n            self.__check_connected()\n            self._task_id_to_task[task_id] = task",
      "        self.__check_connected()\n        with self._mutex:\n            self._task_id_to_task[task_id] = task")]),
    ("graph-targets-sorted", "client", "C23", [(C, "GraphTask(uuid.uuid1().bytes, functions, list(task_id_to_future.keys()), tasks)\n        return graph_task, list(task_id_to_future.values())",
      "GraphTask(uuid.uuid1().bytes, functions, sorted(task_id_to_future.keys()), tasks)\n        return graph_task, list(task_id_to_future.values())")]),
    ("graph-fn-name-clash", "client", "C23", [(C, "        if fn in self._function_to_function_id_cache:\n            return self._function_to_function_id_cache[fn]\n\n        function_id, (function_name, function_bytes) = self.__generate_function_id_bytes(fn)\n        self._function_to_function_id_cache[fn] =",
      "        key = getattr(fn, \"__qualname__\", fn)\n        if key in self._function_to_function_id_cache:\n            return self._function_to_function_id_cache[key]\n\n        function_id, (function_name, function_bytes) = self.__generate_function_id_bytes(fn)\n        self._function_to_function_id_cache[key] =")]),
    ("map-args-string", "client", "C25", [(C, "isinstance(args, (tuple, list)) for args in iterable", "hasattr(args, \"__iter__\") for args in iterable")]),
    ("map-as-completed", "client", "C25", [(C, "            results = [fut.result() for fut in futures]", "            pending = [fut for fut in futures if not fut.done()]\n            results = [fut.result() for fut in futures if fut not in pending] + [fut.result() for fut in pending]")]),
    ("map-unpack-single", "client", "C25", [(C, "futures = [self.submit(fn, *args) for args in iterable]", "futures = [self.submit(fn, *args) if len(args) != 1 else self.submit(fn, args[0]) for args in iterable if args]")]),
    # worker
    ("cancel-next-lost", "worker", "C15", [(TM, "            self._queued_task_id_to_task.pop(task_cancel.task_id)\n            self._queued_task_ids.remove(task_cancel.task_id)\n",
      "            self._queued_task_ids.remove(task_cancel.task_id)\n            if self._queued_task_ids.qsize():\n                self._queued_task_id_to_task.pop(task_cancel.task_id)\n")]),
    ("cancel-uninitialized", "worker", "C15", [(PM, "        self.restart_processor()\n        self._processor_holder.task = None\n", "        if self._processor_holder.initialized.is_set():\n            self.restart_processor()\n        self._processor_holder.initialized.set()\n        self._processor_holder.task = None\n")]),
    ("balance-keeps-map", "worker", "C16", [(TM, "            self._queued_task_id_to_task.pop(task_id)\n            number_of_tasks -= 1", "            if number_of_tasks > 1:\n                self._queued_task_id_to_task.pop(task_id)\n            number_of_tasks -= 1")]),
    ("balance-resets", "worker", "C16", [(TM, "min(balance_request.number_of_tasks, self._queued_task_ids.qsize())", "min(balance_request.number_of_tasks, len(self._queued_task_id_to_task))")]),
    ("result-after-none", "worker", "C14", [(PM, "        await self._task_manager.on_task_result(task_result)\n\n        assert self._processor_holder.task is not None\n        self._processor_holder.task = None\n        self._processor_holder.task_wait_lock.release()",
      "        self._processor_holder.task = None\n        self._processor_holder.task_wait_lock.release()\n        await self._task_manager.on_task_result(task_result)")]),
    ("cache-by-name", "worker", "C17", [(PR, "        self._cache_cleaner.add_function(response.function_id, function)", "        self._cache_cleaner.add_function(self._current_task.function_id if self._current_task else response.function_id, function)")]),
    ("fetch-any", "worker", "C17", [(PM, "        if self._processor_holder.task is None or self._processor_holder.task.function_id != response.function_id:\n            return\n\n        if response.status", "        if self._processor_holder.task is None:\n            return\n\n        if response.status")]),
    ("cache-touch", "worker", "C17", [(CC, "        self._cached_functions_alive_since[function_id] = time.time()\n        return function", "        if function_id in self._cached_functions_alive_since:\n            self._cached_functions_alive_since[function_id] = time.time()\n        return function"), (CC, "        self._cached_functions_alive_since.pop(function_id, None)\n        self._cached_functions.pop(function_id, None)", "        self._cached_functions.pop(function_id)\n        self._cached_functions_alive_since.pop(function_id, None)")]),
    ("hb-latency", "worker", "C18", [(HB, "        self._start_timestamp_ns = 0\n        self._timeout_manager.update_last_seen_time()", "        self._timeout_manager.update_last_seen_time()\n        if self._latency_us >= 0:\n            self._start_timestamp_ns = 0 if self._latency_us < 30_000_000 else self._start_timestamp_ns")]),
    ("hb-busy-restart", "worker", "C18", [(HB, "True if self._processor_manager.current_task() else False", "bool(self._processor_manager.current_task()) and self._processor_manager.initialized()")]),
    ("exit-no-disc", "worker", "C18", [(W, "        except TimeoutError as e:\n            logging.info(f\"Worker[{self.pid}]: {str(e)}\")", "        except TimeoutError as e:\n            logging.info(f\"Worker[{self.pid}]: {str(e)}\")\n            if self._processor_manager.current_task():\n                self._processor_manager.destroy()\n                self._connector_external.destroy()\n                return")]),
    ("exc-cause", "worker", "C19", [(PR, "        except KeyboardInterrupt:\n            raise\n\n        except BaseException", "        except (KeyboardInterrupt, GeneratorExit):\n            raise\n\n        except BaseException")]),
    ("exc-zmq", "worker", "C19", [(PR, "        except KeyboardInterrupt:\n            raise\n\n        except BaseException", "        except (KeyboardInterrupt, zmq.ZMQError):\n            raise\n\n        except BaseException")]),
    ("exc-returned", "worker", "C19", [(PR, "            result_bytes = self._serializer.serialize_result(result)", "            if isinstance(result, Exception):\n                raise result\n            result_bytes = self._serializer.serialize_result(result)")]),
]
