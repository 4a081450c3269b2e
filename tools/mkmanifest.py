#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = ("TLA+ specification (Scheduler.tla): TLC exhaustively checks bounded closed models; schedules from TLC "
         "simulation and random generators are executed by the real scheduler_main and TLC validates every recorded "
         "message against the specification")
CLAIMED = {f"C{i:02d}": SCHED for i in range(1, 14)}
WORKER = ("TLA+ specification (Worker.tla; MCWorker.tla models agent and processor): TLC exhaustively checks bounded closed "
          "models; schedules from TLC simulation and random generators are executed by the real worker agent and processor "
          "and TLC validates every recorded message and function call against the specification")
CLAIMED.update({f"C{i:02d}": WORKER for i in range(14, 20)})
CLAIMED["C31"] = WORKER
CLIENT = ("TLA+ specification (Client.tla; MCClient.tla models user threads, connector and scheduler): TLC exhaustively checks "
          "bounded closed models; schedules from TLC simulation and random generators are executed by the real client and TLC "
          "validates every recorded call, message and future against the specification")
CLAIMED.update({f"C{i:02d}": CLIENT for i in (20, 21, 22, 23, 25)})
CLAIMED["C24"] = ("TLA+ specification (Binding.tla): TLC enumerates signatures and calls; each is submitted through the real client "
                  "and TLC compares what the function receives with the specification")
CLAIMED["C28"] = ("TLA+ specification (Queue.tla; MCQueue.tla models the linked list, index and readers): TLC exhaustively checks the "
                  "closed model, enumerates all operation sequences up to a length, and validates their execution by the real queue")
CLAIMED["C29"] = ("TLA+ specification (Wire.tla, frames of every message): TLC checks that decoding inverts encoding, enumerates "
                  "messages, and validates frames and received messages recorded from the real connectors")
SYSTEM = ("TLA+ specification (System.tla; MCSystem.tla models clients, scheduler, workers, connections and faults): TLC "
          "exhaustively checks bounded closed models; schedules from TLC simulation and random generators are executed by the real "
          "clients, scheduler and workers together and TLC validates every recorded call, outcome and function execution")
CLAIMED.update({f"C{i:02d}": SYSTEM for i in (26, 27, 30)})
CLAIMED["C32"] = ("TLA+ specification (Cluster.tla; MCCluster.tla models cluster process, workers, signals and losses): TLC "
                  "exhaustively checks the closed model with liveness; schedules stop the real cluster, workers and processors "
                  "between any two lines and TLC validates the recorded starts, ends and farewells")
CLAIMED["C33"] = ("TLA+ specifications Scheduler.tla and Worker.tla: the real command line programs, process classes and "
                  "combo start the components, schedules from random generators drive them, and TLC validates every recorded "
                  "message and garbage collection against the specification with the options as given")
CLAIMED["C34"] = ("TLA+ specifications Scheduler.tla, Worker.tla, Client.tla with Held.tla: TLC checks that the specified state is "
                  "left empty; the real components execute the same history eight times and TLC compares the data held "
                  "whenever the specified state recurs")
CLAIMED["C35"] = ("TLA+ specification (Display.tla: texts, order and completeness of the screen): TLC checks the closed model "
                  "MCDisplay, generates keys and statuses, and validates what the real scaled_top draws on a recording terminal")
NOTE = {"C": "Model-checked within the bounds listed in the evidence; the code is bound to the specification by trace "
             "validation of sampled schedules, so schedules not executed are not covered. Trusts the simulated sockets, "
             "clock and wire codec of /verif/sim."}
PENDING = "not built yet: the module that decides it is under construction"

ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
                            "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                            "technique": CLAIMED[i], "level": "model_checking", "level_note": NOTE["C"]})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
