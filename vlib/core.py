"""Common machinery of the checks: execute schedules against the real code, judge the recordings with TLC, report."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import tlc

VERIF = tlc.VERIF
PY = "/opt/venv/bin/python"
REPLAYS = os.path.join(VERIF, "replays")
JOBS = 8


class Run:
    """one run of one check"""

    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violations = []  # (description, replay payload)
        self.known = []
        self.notes = {}
        self.assumptions = []

    # ------------------------------------------------------------ the specification
    def model(self, name, module, cfg, workers=8, timeout=800):
        r = tlc.exhaustive(module, cfg, workers=workers, timeout=timeout)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.models.append({"model": name, **r})

    # ------------------------------------------------------------ the implementation
    def execute(self, component, schedules, jobs=JOBS, timeout=700):
        """run schedules against the real code in several processes; returns traces in the same order"""
        jobs = max(1, min(jobs, len(schedules)))
        procs = []
        for j in range(jobs):
            src = os.path.join(self.work, f"in{j}.ndjson")
            dst = os.path.join(self.work, f"out{j}.ndjson")
            with open(src, "w") as f:
                for s in schedules[j::jobs]:
                    f.write(json.dumps(s) + "\n")
            err = open(os.path.join(self.work, f"err{j}"), "wb")
            env = dict(os.environ, PYTHONPATH=VERIF, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            procs.append((subprocess.Popen([PY, "-m", "sim.runner", component, src, dst], stdout=err, stderr=err,
                                           stdin=subprocess.DEVNULL, env=env, cwd=VERIF), dst, err))
        out = [None] * len(schedules)
        end = time.time() + timeout
        for j, (p, dst, err) in enumerate(procs):
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = -9
            err.close()
            got = []
            if os.path.exists(dst):
                with open(dst) as f:
                    got = [json.loads(x) for x in f if x.endswith("\n")]
            want = len(schedules[j::jobs])
            if rc != 0 or len(got) != want:
                for q, _, _ in procs:
                    q.kill()
                with open(err.name, errors="replace") as f:
                    raise tlc.MachineryError(f"{component} harness: rc {rc}, {len(got)} of {want} schedules\n"
                                             + f.read()[-3000:])
            out[j::jobs] = got
        return out

    def judge(self, component, module, schedules, clauses, ignored=(), workers=8, batch=4000):
        """execute and validate; every trace the specification rejects with one of `clauses` is a violation.
        clauses: a predicate on rule names"""
        traces = self.execute(component, schedules)
        other = 0
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            path = os.path.join(self.work, "traces.ndjson")
            with open(path, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            acc, rej, _ = tlc.validate(module, path, len(part), ignored=ignored, workers=workers)
            self.traces += len(part)
            self.events += sum(acc.values()) + sum(p for p, _ in rej.values())
            for i, (pos, cl) in sorted(rej.items()):
                mine = [c for c in cl if clauses(c)]
                if not mine:
                    other += 1
                    continue
                self.violations.append({"component": component, "module": module, "clauses": mine, "position": pos,
                                        "event": part[i]["ev"][pos - 1], "schedule": schedules[b + i],
                                        "recent": part[i]["ev"][max(0, pos - 25):pos]})
        if other:
            self.notes["rejected for rules of other properties"] = \
                self.notes.get("rejected for rules of other properties", 0) + other
        return traces

    # ------------------------------------------------------------ the verdict
    def finish(self, explanation="", coverage=None):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "models": self.models, "samples": self.samples[:3] or ["none"],
               **self.notes, **(coverage or {})}
        if explanation:
            cov["explanation"] = explanation
        fresh, known = [], []
        entries = load_known()
        for v in self.violations:
            k = next((e for e in entries if e["property"] == self.prop and matches(e, v)), None)
            (known if k else fresh).append((k, v))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
                       "violations": len(fresh)}, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for e in [e for e in entries if e["property"] == self.prop and e["kind"] == "known"]:
            print(f"KNOWN-FINDING: property={self.prop} {e['what']}")
        print(f"{self.prop}: {self.states} states of the specification, {self.traces} recorded executions "
              f"({self.events} events) judged, {len(fresh)} violations, {wall:.1f} s")
        if not fresh:
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for n, (_, v) in enumerate(fresh[:3]):
            path = os.path.join(REPLAYS, f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, **v}, f, indent=1)
            print(f"  rules broken: {', '.join(v['clauses'])}; event {v['position']}: "
                  f"{json.dumps(v['event'])[:300]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["kind"] == "known"]


def matches(entry, v):
    """a known finding is identified by the schedule (call site or history) and the rules it breaks"""
    return entry.get("signature") is not None and entry["signature"] == v.get("signature") \
        and set(v["clauses"]) <= set(entry["clauses"])


def replay(path):
    """re-run one recorded violation"""
    with open(path) as f:
        v = json.load(f)
    r = Run(v["property"], "exploration", "quick", 0)
    try:
        traces = r.execute(v["component"], [v["schedule"]])
        p = os.path.join(r.work, "t.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(traces[0]) + "\n")
        acc, rej, _ = tlc.validate(v["module"], p, 1, workers=1)
        for e in traces[0]["ev"][:rej[0][0] if rej else None]:
            print(json.dumps(e))
        print("REJECTED" if rej else "accepted", rej.get(0, ""))
        return 1 if rej else 0
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


def main(checks):
    args = sys.argv[1:]
    if args and args[0] == "replay":
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(args) > 1:
        tier = args[1]
    try:
        return checks(prop, tier, seed)
    except tlc.MachineryError as e:
        print("ERROR of the check itself:", e)
        return 3
