"""Running TLC: exhaustive models, simulation that prints schedules, trace validation."""
import json
import os
import re
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def _val(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v


def cfg_text(constants, spec="Spec", invariants=(), properties=(), view=None, extra=""):
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if view:
        out.append("VIEW " + view)
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            out.append(f"  {k} <- {v[1:]}" if isinstance(v, str) and v.startswith("@") else f"  {k} = {_val(v)}")
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    return "\n".join(out) + "\n" + extra


def run(module, cfg, workers=8, args=(), env=None, timeout=800, heap="6g", work=None):
    """run TLC in a scratch directory; returns (stdout, returncode)"""
    with tempfile.TemporaryDirectory(prefix="tlc-", dir=work) as d:
        path = os.path.join(d, module + ".cfg")
        with open(path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-config", path, "-noGenerateSpecTE",
               *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(d, "out")
        with open(out, "wb") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        with open(out, errors="replace") as f:
            return f.read(), rc


def exhaustive(module, cfg, workers=8, timeout=800, lint=False):
    """exhaustive model checking; raises if a property of the specification fails (that is an error of ours)"""
    out, rc = run(module, cfg, workers=workers, timeout=timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise MachineryError(f"model checking of {module} failed (rc {rc}):\n" + tail(out))
    return {"states": int(m.group(2)), "transitions": int(m.group(1))}


def tail(out, n=60):
    lines = [x for x in out.splitlines() if "lint" not in x.lower()]
    return "\n".join(x[:400] for x in lines[-n:])


def simulate(module, cfg, num, depth, seed, timeout=300, workers=4):
    """random behaviours of the closed model; returns the schedules it prints"""
    out, rc = run(module, cfg, workers=workers, timeout=timeout,
                  args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    seen = dict.fromkeys(line for line in out.splitlines() if line.startswith('<<"SCHED", '))
    res, prefixes = [], set()
    for line in seen:  # TLC evaluates the printing invariant on every successor: keep one per path
        log = json.loads(json.loads(line[len('<<"SCHED", '):-2]))
        key = json.dumps(log[:-2])
        if key not in prefixes:
            prefixes.add(key)
            res.append(log)
    if "violated" in out or (rc not in (0, 12, -1) and not res):
        raise MachineryError(f"simulation of {module} failed (rc {rc}):\n" + tail(out))
    return res


def paths(module, cfg, timeout=600, workers=8):
    """every behaviour of a closed model up to its log length; returns the logs it prints"""
    out, rc = run(module, cfg, workers=workers, timeout=timeout)
    if rc != 0:
        raise MachineryError(f"enumeration with {module} failed (rc {rc}):\n" + tail(out))
    seen = dict.fromkeys(line for line in out.splitlines() if line.startswith('<<"SCHED", '))
    return [json.loads(json.loads(line[len('<<"SCHED", '):-2])) for line in seen]


def validate(module, path, count, ignored=(), workers=8, timeout=800):
    """validate the traces of an ndjson file; returns ({index: events}, {index: (position, clauses)})"""
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Ignored = {" + \
          ", ".join(f'"{x}"' for x in sorted(ignored)) + "}\n"
    out, rc = run(module, cfg, workers=workers, timeout=timeout,
                  env={"TRACES": path})
    acc, rej = {}, {}
    for m in re.finditer(r'<<\s*"ACCEPT",\s*(\d+),\s*(\d+)\s*>>', out):
        acc[int(m.group(1)) - 1] = int(m.group(2))
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        rej[int(m.group(1)) - 1] = (int(m.group(2)), sorted(re.findall(r'"([^"]*)"', m.group(3))))
    if len(acc) + len(rej) != count:
        raise MachineryError(f"trace validation with {module}: {len(acc)}+{len(rej)} verdicts for {count} traces "
                             f"(rc {rc})\n" + tail(out))
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return acc, rej, int(st.group(2)) if st else 0
