"""cache, cancellation, queue of the worker"""
CC = "scaled/worker/agent/processor/cache_cleaner.py"
PR = "scaled/worker/agent/processor/processor.py"
TM = "scaled/worker/agent/task_manager.py"
BUGS = [
    ("cache-no-touch", "worker", "C31", [(CC, "        self._cached_functions_alive_since[function_id] = time.time()\n        return function", "        return function")]),
    ("cache-touch-late", "worker", "C31", [(CC, "        self._cached_functions_alive_since[function_id] = time.time()\n        return function",
      "        if time.time() - self._cached_functions_alive_since[function_id] < self._function_retention_seconds:\n            self._cached_functions_alive_since[function_id] = time.time()\n        return function")]),
    ("cache-first-only", "worker", "C31", [(CC, "        for function_id in idle_functions:\n            self.del_function(function_id)", "        for function_id in idle_functions[:1]:\n            self.del_function(function_id)")]),
    ("cache-no-list", "worker", "C31", [(CC, "if now - alive_since > self._function_retention_seconds", "if now - alive_since > self._function_retention_seconds * max(1, len(self._cached_functions) - 1)")]),
    ("cache-memory-return", "worker", "C31", [(CC, "        self._cached_functions[function_id] = function\n        self._cached_functions_alive_since[function_id] = time.time()", "        self._cached_functions[function_id] = function\n        self._cached_functions_alive_since.setdefault(function_id, time.time())"),
      (CC, "        self._cached_functions_alive_since.pop(function_id, None)\n        self._cached_functions.pop(function_id, None)", "        self._cached_functions.pop(function_id, None)")]),
    ("cache-trim-returns", "worker", "C31", [(CC, "        if time.time() - self._previous_garbage_collect_time < self._garbage_collect_interval_seconds:\n            return\n", "        if time.time() - self._previous_garbage_collect_time < self._garbage_collect_interval_seconds:\n            return\n        self._cached_functions.clear()\n")]),
    ("delete-keeps", "worker", "C31", [(PR, "            self._cache_cleaner.del_function(request.function_id)\n            return", "            if self._current_task is None:\n                self._cache_cleaner.del_function(request.function_id)\n            return")]),
]
