"""Writes properties.jsonl (single source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=hook)))

S = "scaled/scheduler/"
W = "scaled/worker/"
p("C01", "Every accepted task is answered exactly once, to the client that submitted it",
  "For every task the scheduler accepts, the client that submitted it, and no other client, receives exactly one final result, whose status and payload are the ones reported for that very task (or 'canceled' when it is withdrawn before reaching a worker). Late, repeated or stray reports from workers never cause a second answer, and never an answer for another task.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of submissions, dispatches, results, cancellations, balance returns, worker losses and late/duplicate worker reports, for several clients and workers",
  "the tests run one client against three healthy workers; no worker is lost, no report is late or duplicated, and only one interleaving is sampled",
  [S+"task_manager.py", S+"worker_manager.py", S+"client_manager.py", S+"allocators/queued.py"],
  [("result accepted only while the task is outstanding", S+"worker_manager.py:on_task_done"), ("owner lookup when a task finishes", S+"client_manager.py:on_task_done")],
  [("task -> client", "owner of every unfinished task", S+"client_manager.py")], ["messages sent to clients by the scheduler socket"])
p("C02", "Accepted work is never lost, stranded or handed out twice",
  "At any time every accepted, unfinished task is either waiting in the scheduler or outstanding at exactly one connected worker. A task is sent to a worker only while it is waiting, and whenever a task waits while some connected worker has a free slot it is sent to a worker without any further outside stimulus.",
  ["schedules", "fault_sequences"],
  "all histories of submissions, results, cancels, balance returns, connects, disconnects and timeouts; all interleavings of the scheduler's internal loops",
  "tests end when all futures are done on healthy workers; stranding needs a worker loss, a full cluster or an empty cluster at a particular point",
  [S+"task_manager.py", S+"worker_manager.py", S+"allocators/queued.py", "scaled/utility/queues/async_indexed_queue.py", "scaled/utility/queues/async_priority_queue.py"],
  [("dispatch loop re-queues when no slot is free", S+"task_manager.py:routine"), ("reroute", S+"task_manager.py:on_task_reroute")],
  [("waiting / running sets", "where each unfinished task is", S+"task_manager.py")], ["Task messages sent to workers", "status report"])
p("C03", "A lost worker's tasks are redistributed; a heartbeating worker is never dropped",
  "When a worker announces its departure or stays silent longer than the worker timeout, it gets no further tasks and all tasks outstanding at it, and only those, are put back and sent to other workers. A worker that keeps heartbeating is never dropped and every heartbeat is answered; a dropped worker that heartbeats again is usable again with an empty load.",
  ["fault_sequences", "schedules", "histories"],
  "all sequences of heartbeats, silences around the timeout, disconnects and rejoins, interleaved with task traffic",
  "no test ever loses a worker or lets a timeout expire",
  [S+"worker_manager.py", S+"allocators/queued.py", S+"task_manager.py"],
  [("periodic sweep of silent workers", S+"worker_manager.py:routine"), ("disconnect handling", S+"worker_manager.py:on_disconnect")],
  [("last heartbeat per worker", "liveness of each worker", S+"worker_manager.py")], ["scheduler socket", "status report"])
p("C04", "A worker never has more tasks outstanding than its limit and freed slots return",
  "The number of tasks outstanding at a worker never exceeds the configured per-worker queue size. Every task that finishes, is returned or is taken away gives back exactly one slot, so a cluster whose tasks are all done can again take its full capacity.",
  ["histories", "configurations"],
  "all histories of assignments and releases for every queue size and number of workers, including workers joining and leaving while others are full",
  "tests use the default limit of 1000 with three workers and never reach saturation in a checked way",
  [S+"allocators/queued.py", "scaled/utility/queues/async_priority_queue.py", S+"worker_manager.py"],
  [("load-ordered worker queue", S+"allocators/queued.py"), ("in-place priority updates", "scaled/utility/queues/async_priority_queue.py")],
  [("outstanding count per worker", "load", S+"allocators/queued.py")], ["Task messages", "free/sent columns of the status report"])
p("C05", "Each task goes to a worker with the fewest outstanding tasks",
  "Whenever the scheduler sends a task to a worker, no other connected worker has fewer tasks outstanding at that moment.",
  ["histories", "schedules"],
  "all histories of assignments, completions, cancellations, balance returns, joins and departures",
  "tests never look at placement",
  [S+"allocators/queued.py", "scaled/utility/queues/async_priority_queue.py"],
  [("least-loaded pick", S+"allocators/queued.py:assign_task"), ("priority decrease/removal keep the order", "scaled/utility/queues/async_priority_queue.py")],
  [("load order", "workers ordered by outstanding tasks", "scaled/utility/queues/async_priority_queue.py")], ["Task messages"])
p("C06", "Load balancing moves only surplus, only when a worker idles, and loses nothing",
  "When one worker has no tasks while others have more than the average, and the same imbalance is seen for the configured number of consecutive checks, each overloaded worker is asked once to give back its surplus over the average (rounded up), and no worker is asked in any other situation. Every task a worker gives back is put back and sent again; a zero balance interval disables this altogether.",
  ["histories", "configurations", "schedules"],
  "all load distributions, all settings of the trigger count and interval, returned tasks racing with results, cancels and worker loss",
  "one test incidentally balances; neither the condition, the amounts, the trigger count nor returned tasks racing with other events are checked",
  [S+"worker_manager.py", S+"allocators/queued.py"],
  [("advice computation", S+"allocators/queued.py:balance"), ("trigger counter and requests", S+"worker_manager.py:routine"), ("returned tasks", S+"worker_manager.py:on_balance_response")],
  [("last advice and its repeat count", "debounce", S+"worker_manager.py")], ["BalanceRequest messages", "Task messages after a BalanceResponse"])
p("C07", "A submission is refused only for a stated reason, and a refusal leaves no trace",
  "Each submission gets exactly one acknowledgement: 'function not exists' if the scheduler does not hold its function, 'no worker' if it is not part of a graph, no connected worker has a free slot and the configured number of tasks is already waiting, otherwise accepted. A refused task is never run or answered and changes nothing; an accepted one is acknowledged before its result.",
  ["histories", "configurations"],
  "all waiting limits (including 0 and unlimited), load situations and function registry states",
  "tests use the unlimited default and always-registered functions",
  [S+"task_manager.py", S+"worker_manager.py", S+"allocators/queued.py"],
  [("admission test", S+"task_manager.py:on_task_new"), ("free slot test", S+"allocators/queued.py:has_available_worker")],
  [("waiting tasks", "length against the limit", S+"task_manager.py")], ["TaskEcho messages"])
p("C08", "Cancelling stops exactly the named task, wherever it is",
  "A cancellation of a task that has not been sent to a worker finishes it as canceled and it is never sent to any worker; for a task outstanding at a worker it is forwarded to that worker and no other, and the task is not given to another worker if that worker is lost or hands it back; for unknown or finished tasks it has no effect. No cancellation changes the fate of any other task.",
  ["schedules", "histories"],
  "cancellations at every point of a task's life: waiting with free/full/no workers, outstanding, returned for balancing, finished, rerouted",
  "the one cancel test only checks that nothing raises while the client disconnects",
  [S+"task_manager.py", S+"worker_manager.py"],
  [("cancel by location", S+"task_manager.py:on_task_cancel"), ("forward to holder", S+"worker_manager.py:on_task_cancel")],
  [("waiting / running sets", "where the task is", S+"task_manager.py")], ["TaskCancel messages to workers", "TaskResult(canceled) to clients"])
p("C09", "Uploaded functions stay while needed and are dropped everywhere when idle",
  "A function uploaded to the scheduler stays available, with the exact uploaded name and content, while any accepted unfinished task or graph node uses it and for the retention period after its last upload or use. After that it is discarded and every connected worker is told to drop it; check, upload, fetch and delete requests are answered according to what the scheduler actually holds.",
  ["histories", "schedules"],
  "all interleavings of uploads, uses, completions, expiry sweeps, explicit deletions and fetches",
  "no test runs long enough for a function to expire, and none deletes one",
  [S+"function_manager.py", S+"worker_manager.py"],
  [("expiry sweep", S+"function_manager.py:routine"), ("use/done counting", S+"function_manager.py:on_task_use_function")],
  [("function -> info, function -> tasks", "registry", S+"function_manager.py")], ["FunctionResponse / FunctionRequest(Delete) messages"])
p("C10", "A graph node runs only after its dependencies succeeded, with their results",
  "A node of a submitted graph is sent to a worker only after every node it depends on has succeeded, and each of its arguments that names a node is replaced, in position, by that node's result, however many nodes or argument positions share it. Nodes that do not depend on one another may run at the same time, and a ready node is never withheld.",
  ["programs", "schedules", "fault_sequences"],
  "all acyclic graphs (shared and repeated dependencies, intermediate targets, leaves that are not targets) and all completion orders, with workers lost in between",
  "one five-node graph in one completion order",
  [S+"graph_manager.py", S+"task_manager.py"],
  [("topological readiness", S+"graph_manager.py"), ("argument substitution and release of consumed results", S+"graph_manager.py")],
  [("graph state", "nodes, results, remaining dependents", S+"graph_manager.py")], ["Task messages to workers"])
p("C11", "Each graph gets exactly one outcome; a failed or cancelled graph is torn down",
  "A submitted graph is answered exactly once: with all target results in the requested order once every node has succeeded, or with the status and result of the first node that fails. After a failure or a cancellation no further node is started, nodes waiting are withdrawn, nodes at workers are cancelled there, a cancelled graph gets no answer, and nothing of the graph remains in the scheduler once its outstanding nodes have reported.",
  ["programs", "schedules", "fault_sequences", "histories"],
  "all graphs, failure positions, completion orders and cancellation points, with nodes waiting, outstanding, done or not yet ready, and cancellations crossing the answer",
  "one failing graph with a single sink is tested on idle workers, so no node is ever waiting when the graph is torn down",
  [S+"graph_manager.py", S+"task_manager.py", S+"client_manager.py"],
  [("completion and failure handling", S+"graph_manager.py:on_task_done"), ("teardown", S+"graph_manager.py")],
  [("graph state", "unfinished graphs and node ownership", S+"graph_manager.py")], ["GraphTaskResult, TaskCancel messages", "status report"])
p("C12", "No sequence of peer messages stops the scheduler",
  "Whatever messages clients and workers of this package send, in whatever order timing, delays and losses produce (stale, repeated, crossing or naming finished tasks and graphs), the scheduler keeps running and keeps serving every other client and worker. Input with missing frames or an unknown message type is ignored.",
  ["histories", "schedules", "fault_sequences"],
  "all protocol-conforming message sequences of all peers, all interleavings with the scheduler's periodic work",
  "an unhandled exception ends the whole scheduler; tests only show it survives the happy paths",
  [S+"main.py", S+"task_manager.py", S+"graph_manager.py", S+"worker_manager.py", S+"function_manager.py", "scaled/io/async_binder.py"],
  [("message dispatch", S+"main.py:on_receive_message"), ("frame validation", "scaled/io/async_binder.py:routine")],
  (), ["scheduler main coroutine", "scheduler socket"])
p("C13", "The monitoring stream tells the truth",
  "Every status report shows exactly the tasks waiting and running, the totals of finished tasks per outcome, the connected workers with their free and used slots, the unfinished tasks per client and per function, and the messages exchanged so far. Each change of a task's state is published once, in order, with the task's function name.",
  ["histories", "schedules"],
  "all histories of scheduler activity",
  "no test reads the monitoring stream",
  [S+"status_reporter.py", S+"task_manager.py", S+"worker_manager.py", S+"client_manager.py", S+"function_manager.py", "scaled/io/async_binder.py"],
  [("periodic report", S+"status_reporter.py"), ("task state events", S+"task_manager.py")],
  [("outcome counters", "totals", S+"task_manager.py")], ["messages published on the monitor socket"])
p("C14", "A worker runs its tasks one at a time, in arrival order, and answers each once",
  "A worker executes the tasks delivered to it one at a time and in the order they arrived, and for each task it neither hands back nor cancels it sends exactly one result carrying that task's own outcome. A task delivered again while the worker still holds it does not disturb the worker.",
  ["schedules", "histories"],
  "all arrival patterns and interleavings of deliveries, completions, cancels, returns, function fetches and processor restarts",
  "tests only compare final values of bulk runs",
  [W+"agent/task_manager.py", W+"agent/processor_manager.py", W+"agent/processor/processor.py", W+"worker.py"],
  [("queue and single slot lock", W+"agent/task_manager.py"), ("hand-over to the processor", W+"agent/processor_manager.py:on_task")],
  [("queue, current task", "tasks held by the worker", W+"agent/")], ["worker socket", "user function calls"])
p("C15", "A worker told to cancel a task stops it, says so, and keeps its other tasks",
  "A worker told to cancel a task it holds answers 'canceled' once and never starts (or immediately stops) running it; told to cancel a task it does not hold it answers 'not found'. Its other tasks are unaffected: they are run exactly as if the cancelled task had never been there, also when the cancellation crosses the task's completion, a processor restart or a function fetch.",
  ["schedules", "histories"],
  "cancellations at every point of a task's life in a worker: queued, next in line, waiting for its function, running, just finished, unknown, and while the processor restarts",
  "the cancel test asserts nothing and cannot hit the windows around start, completion and restart",
  [W+"agent/task_manager.py", W+"agent/processor_manager.py"],
  [("cancel by location", W+"agent/task_manager.py:on_cancel_task"), ("processor restart", W+"agent/processor_manager.py:on_cancel_task")],
  [("current task, queue", "what can be cancelled", W+"agent/")], ["worker socket", "user function calls", "processor start/stop"])
p("C16", "Tasks handed back for balancing are untouched and at most as many as asked",
  "Asked to give tasks back, a worker returns at most the requested number of tasks, as many as it has queued up to that number, all of them tasks it has not started. It neither runs nor answers a returned task unless it is delivered again, and its other tasks are unaffected.",
  ["schedules", "histories"],
  "all queue contents and request sizes at all points relative to task starts, completions and cancels",
  "tests never inspect a balance exchange",
  [W+"agent/task_manager.py", W+"worker.py"],
  [("taking from the queue", W+"agent/task_manager.py:on_balance_request")],
  [("queue", "unstarted tasks", W+"agent/task_manager.py")], ["BalanceResponse messages", "user function calls"])
p("C17", "A task always runs with its own function, whatever happens to caches",
  "Each task is run with exactly the function its submission named, fetched from the scheduler when the worker does not have it. Expiry or deletion of cached functions, late, repeated or negative fetch answers, and cancellations in between never make a task fail, run with another function, or leave the worker stuck.",
  ["schedules", "histories"],
  "all interleavings of task starts with cache expiry, deletion, fetch answers (also late, duplicate, negative) and processor restarts",
  "no test lives longer than the retention time or cancels during a fetch",
  [W+"agent/processor/processor.py", W+"agent/processor/cache_cleaner.py", W+"agent/processor_manager.py"],
  [("fetch on miss", W+"agent/processor/processor.py"), ("idle expiry", W+"agent/processor/cache_cleaner.py"), ("forwarding of answers", W+"agent/processor_manager.py:on_function_response")],
  [("function cache, task awaiting its function", "worker-side functions", W+"agent/processor/")], ["worker socket", "user function calls"])
p("C18", "A worker leaves only when the scheduler is gone, and leaves cleanly",
  "A worker sends a heartbeat every interval while the previous one has been answered, never with more than one unanswered, and truthfully reports its queue and whether it is busy. It quits if and only if it is told to or no heartbeat has been answered for the death timeout; on quitting it announces its departure to the scheduler and stops its processor.",
  ["schedules", "fault_sequences", "histories"],
  "all delays and losses of heartbeat answers around the interval and the timeout, in every state of the worker; a wall clock put back at any time (which may delay, not break, any of this)",
  "no test lets the scheduler fall silent",
  [W+"agent/heartbeat_manager.py", W+"agent/timeout_manager.py", W+"worker.py"],
  [("one outstanding heartbeat", W+"agent/heartbeat_manager.py"), ("death timeout", W+"agent/timeout_manager.py"), ("shutdown sequence", W+"worker.py")],
  [("last answer time", "liveness of the scheduler", W+"agent/timeout_manager.py")], ["worker socket", "processor stop"])
p("C19", "Whatever a task's code does, the worker reports an outcome and carries on",
  "If a task's function returns, the worker reports success with the returned value; if it raises anything (short of a keyboard interrupt, which is for the processor), calls sys.exit, returns something that cannot be serialized, or its function or arguments cannot be loaded, the worker reports failure with an exception describing it. If the processor that runs it dies (a crash, os._exit, a kill from outside), the worker notices within about a heartbeat interval, reports failure and starts another processor. Either way the worker then runs its next task normally, and runs no task again that it has reported.",
  ["inputs", "histories"],
  "all kinds of task outcomes (values, ordinary and unpicklable exceptions, exit requests, load failures of function and arguments, unserializable results, death of the processor at any point after it has started) in every order",
  "tests use one well-behaved exception class and always loadable functions",
  [W+"agent/processor/processor.py", "scaled/protocol/python/serializer/default.py"],
  [("execution wrapper", W+"agent/processor/processor.py")],
  (), ["TaskResult messages", "later tasks on the same worker"])
p("C20", "Every future resolves with its own task's outcome; a bad outcome stays local",
  "Each submission's future resolves exactly once with the outcome reported for that submission (its value, its exception, or an error if the outcome cannot be decoded), however the client's threads interleave and in whatever order messages arrive. A future the user cancelled, an undecodable outcome or an unknown message id never affects any other future.",
  ["schedules", "inputs", "histories"],
  "all interleavings of submitting threads with the receiving thread at every preemption point; all orders of acknowledgements and results; all kinds of results; user cancellations of futures at any time",
  "tests submit from one thread, never cancel a future, and only use decodable outcomes; the race windows are microseconds wide",
  ["scaled/client.py", "scaled/io/sync_connector.py"],
  [("future table", "scaled/client.py"), ("receive thread", "scaled/io/sync_connector.py")],
  [("task -> future", "unresolved submissions", "scaled/client.py")], ["Future objects", "client socket"])
p("C21", "A task is sent only after its function was uploaded, and none is left unsent",
  "The client sends a task to the scheduler only after the scheduler has acknowledged its function, uploads the function again when told it no longer exists, and eventually sends every submitted task exactly once per acknowledged upload round, for any interleaving of submitting threads and replies.",
  ["schedules", "histories"],
  "all interleavings of several submitting threads, upload acknowledgements and 'function not exists' replies, at every preemption point",
  "one submitting thread, and functions never expire",
  ["scaled/client.py"],
  [("buffering until the upload is acknowledged", "scaled/client.py")],
  [("function -> buffered tasks", "submissions waiting for an upload", "scaled/client.py")], ["client socket"])
p("C22", "Disconnecting resolves every outstanding future and withdraws its work",
  "When a client disconnects, every unresolved future of its submissions and graphs fails with a disconnect error and a cancellation for each of these tasks and graphs is sent to the scheduler; resolved futures keep their outcome. No future created before or concurrently with the disconnect stays unresolved, and a later submission is refused with an error.",
  ["schedules", "histories"],
  "disconnects at every point of every outstanding submission or graph, racing with results and with submitting threads",
  "the disconnect test drops its futures and asserts nothing",
  ["scaled/client.py", "scaled/io/sync_connector.py"],
  [("exit callback", "scaled/client.py"), ("stop event", "scaled/io/sync_connector.py")],
  [("unresolved futures", "submissions and graphs", "scaled/client.py")], ["Future objects", "client socket"])
p("C23", "A graph call gives each key its own node's result, or fails all of them",
  "Evaluating a graph gives, for every requested key, in any order and with repetitions, the value of that node computed from its functions, literal data and other nodes' values. If the graph fails, every future of that graph gets the failure, and no other submission is affected unless the caller asked to block.",
  ["programs", "inputs", "schedules"],
  "all graphs, key lists (orders, duplicates, intermediate keys), outcomes and arrival times of the answer relative to the call",
  "one key of one graph is requested, in blocking mode",
  ["scaled/client.py", S+"graph_manager.py"],
  [("construction and key mapping", "scaled/client.py:get"), ("result distribution", "scaled/client.py")],
  [("graph -> futures", "unresolved graphs", "scaled/client.py")], ["returned dictionary / futures"])
p("C24", "A submitted call means the same as the local Python call",
  "For every function signature of positional parameters with or without defaults and every mix of positional and keyword arguments, a submitted call either passes the function exactly the arguments the local call f(*args, **kwargs) would pass, or raises a TypeError. Arguments are never silently dropped or bound to a different parameter.",
  ["inputs", "programs"],
  "all signatures up to the bound (positional-only, positional-or-keyword, defaults, *args, keyword-only, **kwargs, partial objects) times all argument mixes",
  "seven sample calls",
  ["scaled/client.py"],
  [("keyword to positional conversion", "scaled/client.py:submit")],
  (), ["arguments received by the user function", "exceptions of submit"])
p("C25", "Mapping a function returns one result per item, in item order",
  "Mapping a function over any iterable of argument tuples, including one-shot iterators, returns exactly one result per item in the order of the items, whatever order the results arrive in. Items that are not argument tuples are rejected before anything is submitted, and if an item's call fails the mapping raises that failure.",
  ["inputs", "schedules"],
  "all iterables (lists, generators, zips), lengths including zero, completion orders and failing positions",
  "only lists of one-element tuples are mapped",
  ["scaled/client.py"],
  [("fan-out and ordered gather", "scaled/client.py:map")],
  (), ["return value of map", "client socket"])
p("C26", "End to end, every submission finishes correctly despite worker failures",
  "With clients, scheduler and workers running together, every submitted task and graph eventually finishes with the outcome of calling its function on its arguments, as long as at least one worker stays alive, whatever messages are delayed and whichever other workers crash, fall silent, leave, or join. A fast or slow component never makes another one fail.",
  ["schedules", "fault_sequences", "crash_points"],
  "all interleavings of message deliveries of all components, worker crashes and joins at every point",
  "tests run on three healthy local workers without faults",
  ["scaled/client.py", S+"main.py", W+"worker.py", W+"agent/processor/processor.py", "scaled/io/async_binder.py", "scaled/io/async_connector.py", "scaled/io/sync_connector.py"],
  [("reroute on worker loss", S+"worker_manager.py"), ("at-least-once execution with single accepted result", S+"worker_manager.py:on_task_done")],
  (), ["futures at the clients", "user function calls"])
p("C27", "End to end, disconnected clients leave no work behind and hurt no one",
  "After a client disconnects, all its tasks and graphs leave the scheduler and its workers within bounded time, none of its calls begins or goes on running on a healthy worker once its cancellations have been delivered, and all slots become available to other clients. Its own unresolved futures fail with a disconnect error, and other clients' submissions are unaffected.",
  ["schedules", "histories", "fault_sequences"],
  "disconnects at every point of running workloads of several clients",
  "the disconnect test asserts nothing and has one client",
  ["scaled/client.py", S+"task_manager.py", S+"graph_manager.py", W+"agent/task_manager.py", W+"agent/processor_manager.py"],
  [("cancel on exit", "scaled/client.py"), ("cancel paths", S+"task_manager.py:on_task_cancel")],
  (), ["status report", "user function calls", "futures of other clients"])
p("C28", "The task queue is a first-in-first-out queue of distinct items with removal",
  "Items leave the queue in the order they were put, each exactly once; removing an item takes out exactly that item and keeps the order of the rest; putting an item that is present or removing one that is absent raises an error and changes nothing; waiting readers get items as they come. Membership and length always agree with this, for all hashable items, including distinct items with equal hashes.",
  ["histories", "inputs", "schedules"],
  "all sequences of put/get/remove/len/contains on all hashable items, with readers waiting",
  "two fixed sequences of small integers",
  ["scaled/utility/queues/async_indexed_queue.py"],
  [("hash map into a doubly linked list", "scaled/utility/queues/async_indexed_queue.py")],
  [("linked list + index", "queue content", "scaled/utility/queues/async_indexed_queue.py")], ["return values of the queue's methods"])
p("C29", "Every protocol message survives the wire unchanged",
  "Every message that one component can send arrives at the other as an equal message, with the frame layout of the protocol that other-language peers rely on: for any ids, any number of functions, targets, nodes, arguments and results, and any payload bytes.",
  ["inputs"],
  "all message types with all list lengths up to the bound, empty and binary payloads, boundary numbers",
  "tests exercise a few shapes of each message and never compare what was sent with what was received",
  ["scaled/protocol/python/message.py", "scaled/io/async_binder.py", "scaled/io/async_connector.py", "scaled/io/sync_connector.py"],
  [("serialize/deserialize of each message", "scaled/protocol/python/message.py")],
  (), ["frames on the sockets"])
p("C30", "A function call runs at most once unless a worker is lost",
  "Every call a user submits, each item of a mapping and each node of a graph is executed at most once, on one worker, as long as no worker that had it crashes, leaves or falls silent; a worker never executes two calls at a time; and nothing is ever executed that no user submitted. This includes calls moved between workers for balancing, cancellations, repeated uploads of functions and late messages.",
  ["schedules", "histories"],
  "all interleavings of message deliveries of all components, with balancing, cancellation, function expiry and client disconnects",
  "the functions called in tests have no side effects, so a second execution goes unnoticed",
  ["scaled/client.py", S+"task_manager.py", S+"worker_manager.py", W+"agent/task_manager.py", W+"agent/processor_manager.py"],
  [("assignment to one worker", S+"worker_manager.py:assign_task_to_worker"), ("moving a task for balancing", S+"worker_manager.py:on_balance_response"),
   ("single slot of a worker", W+"agent/task_manager.py")],
  (), ["user function calls"])
p("C31", "A worker keeps functions it uses and releases those it does not",
  "A worker fetches a function again only after it was deleted, its processor was restarted, or the function was not used for the configured retention time; use includes tasks that arrive just before the time is over. A function not used for longer than the retention time is released within the cleaning interval, however many functions there are and whatever else the worker does.",
  ["schedules", "histories", "inputs"],
  "all sequences of task arrivals, ends, deletions, cancellations and waits of any length, for all retention times",
  "tests finish long before any retention time is over and never look at what is fetched",
  [W+"agent/processor/cache_cleaner.py", W+"agent/processor/processor.py"],
  [("time of last use", W+"agent/processor/cache_cleaner.py"), ("fetch on miss", W+"agent/processor/processor.py")],
  (), ["FunctionRequest"])
p("C32", "A cluster runs its workers until told to stop, then all of them leave and end",
  "A cluster starts exactly the number of workers asked for and keeps them running until it is told to stop. When it is told to stop, by an interrupt or a termination request to the cluster process or an interrupt to all of its processes at once, at any moment (while it is still starting, while workers are busy or were lost already), every remaining worker takes leave of the scheduler and ends together with its processor, and the cluster process ends without an error after them. Being told again changes nothing, and nothing ends unasked.",
  ["schedules", "fault_sequences", "crash_points"],
  "all numbers of workers, and a stop at every point of starting and running, with any workers lost before, and repeated stops",
  "tests stop clusters only once everything is up, by terminating processes, and do not look at what is left behind",
  ["scaled/cluster/cluster.py", W+"worker.py", "scaled/cluster/combo.py", "scaled/entry_points/cluster.py"],
  [("starting workers and passing the signal on", "scaled/cluster/cluster.py"), ("signal handlers of the agent", W+"worker.py"),
   ("a single worker runs in the cluster's own process", "scaled/cluster/cluster.py")],
  (), ["DisconnectRequest", "process exits"])
p("C33", "Components act on the options they were started with, however they are started",
  "The options given to the command line programs, to the process classes or to the combined scheduler and cluster are the ones the components act on: for the scheduler the limit of outstanding tasks per worker, the limit of waiting tasks, worker timeout, function retention and whether and after how many equal observations load is balanced; for workers their number, heartbeat interval, death timeout, function retention, garbage collection interval and the memory threshold from which memory is given back. Options left out take their documented defaults.",
  ["configurations", "schedules", "histories"],
  "all combinations of option values, of the ways to start a component, and histories that make each option matter",
  "tests start everything with defaults or one fixed setting and never observe what an option does",
  ["scaled/entry_points/scheduler.py", "scaled/entry_points/cluster.py", "scaled/cluster/combo.py", "scaled/cluster/scheduler.py", "scaled/cluster/cluster.py", S+"main.py", W+"worker.py", W+"agent/processor_manager.py", W+"agent/processor/cache_cleaner.py"],
  [("command line options", "scaled/entry_points/scheduler.py"), ("options of workers", "scaled/entry_points/cluster.py"),
   ("both at once", "scaled/cluster/combo.py"), ("garbage collection and trimming", W+"agent/processor/cache_cleaner.py")],
  (), ["messages of scheduler and workers", "garbage collections"])
p("C34", "Finished work leaves nothing behind",
  "Scheduler, worker and client can run indefinitely: once tasks and graphs are answered, failed, cancelled or torn down, once workers and clients are gone and functions have aged out, nothing about them is kept. Whenever a component is back in a state it was in before, with nothing left to do, it holds no more data than it did then, however often the same history is repeated with new tasks, workers, clients and functions. (A client remembers each different function it ever sent.)",
  ["histories", "fault_sequences", "schedules"],
  "all histories, repeated any number of times, including losses, cancellations, refusals, late answers and torn down graphs",
  "tests run a few tasks and exit; what is left in the processes' memory is not observable in their assertions",
  [S+"task_manager.py", S+"graph_manager.py", S+"function_manager.py", S+"client_manager.py", S+"worker_manager.py", S+"allocators/queued.py", W+"agent/task_manager.py", W+"agent/processor_manager.py", W+"agent/processor/processor.py", "scaled/client.py"],
  [("per task records", S+"task_manager.py:on_task_done"), ("per graph records", S+"graph_manager.py"),
   ("per submission records", "scaled/client.py")],
  [("task id maps", "each task's records", S+"task_manager.py"), ("graph and node maps", "each graph's records", S+"graph_manager.py")], ["data held"])
p("C35", "The monitor shows the state the scheduler reports, whatever it is",
  "For every status the scheduler publishes, scaled_top draws the scheduler's own load, every counter of tasks and of messages sent and received, the outstanding tasks of every client and function, the number of workers, and every worker exactly once with all its values in readable units, in the order of the chosen column with the largest value first (by value, not by its text) as far as the screen has room. Pressing a shortcut chooses the column from the next status on. Other published messages do not disturb it, no status that a scheduler can publish and no screen size ends it; when nothing is published for the given time it ends with an error that names the address, and an interrupt ends it quietly.",
  ["inputs", "histories", "configurations"],
  "all statuses (any workers, clients, functions, counts, sizes, latencies, times since last heard), all sequences of keys and statuses, all screen sizes",
  "no test runs the monitor",
  ["scaled/entry_points/top.py", "scaled/utility/formatter.py"],
  [("receiving published messages", "scaled/entry_points/top.py:subscribe_status"), ("drawing a status", "scaled/entry_points/top.py:show_status"),
   ("readable numbers", "scaled/utility/formatter.py")],
  [("sort column", "last shortcut pressed", "scaled/entry_points/top.py")], ["the terminal"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
