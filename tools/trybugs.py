#!/usr/bin/env python3
"""Hand-made bugs (tools/bugs/*.py: lists of (id, component, property, file, [(old, new)...])): are they noticed?
usage: trybugs.py FILE [--full] [--jobs N] [ID...]   --full: the property's quick check, otherwise random schedules only"""
import json
import os
import runpy
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
a = sys.argv[1:]
full = "--full" in a
a = [x for x in a if x != "--full"]
jobs = 3
if "--jobs" in a:
    i = a.index("--jobs")
    jobs = int(a[i + 1])
    del a[i:i + 2]
bugs = runpy.run_path(a[0])["BUGS"]
ids = a[1:]
work = tempfile.mkdtemp(prefix="bugs-", dir="/var/tmp")
slots = Queue()
for i in range(jobs):
    subprocess.run(["cp", "-a", "/repo", f"{work}/t{i}"], check=True)
    slots.put(f"{work}/t{i}")


def one(b):
    name, comp, prop, edits = b
    if ids and name not in ids:
        return
    tree = slots.get()
    saved = {}
    try:
        for f, old, new in edits:
            p = os.path.join(tree, f)
            t = open(p).read()
            saved.setdefault(p, t)
            if t.count(old) != 1:
                print(name, "EDIT DOES NOT APPLY", f, t.count(old), flush=True)
                return
            open(p, "w").write(t.replace(old, new))
        if full:
            cmd = ["python3", "check.py", prop]
        else:
            cmd = ["python3", os.path.join(HERE, "mutrun.py"), comp]
        r = subprocess.run([os.path.join(HERE, "ns.sh"), tree, *cmd], capture_output=True, text=True,
                           env=dict(os.environ, NSCWD=V, VERIF_SEED="1"), timeout=1200)
        out = r.stdout.strip().splitlines()
        if full:
            v = [x for x in out if "VIOLATION" in x or "broken" in x or "rule" in x]
            print(name, prop, "rc", r.returncode, "|", *v[:3], r.stderr[-300:] if r.returncode > 1 else "", flush=True)
        else:
            print(name, prop, out[-1] if out else r.stderr[-300:], flush=True)
    except Exception as e:
        print(name, prop, "ERROR", str(e)[:200], flush=True)
    finally:
        for p, t in saved.items():
            open(p, "w").write(t)
        slots.put(tree)


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, bugs))
subprocess.run(["rm", "-rf", work])
