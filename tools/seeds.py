#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table below: planted bugs with their demonstrations.
usage: seeds.py write [ID...]  |  seeds.py verify [ID...] (in scratch copies of /repo: applies, demo fails, tests pass)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = {}


def seed(id, prop, needs, breaks, edits, demo, lib=None):
    SEEDS[id] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, lib=lib)


def load():
    d = os.path.join(HERE, "seedlib", "table")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(d, f)).read(), f, "exec"), {"seed": seed})


def patched(edits, root):
    for path, old, new in edits:
        p = os.path.join(root, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, old, s.count(old))
        open(p, "w").write(s.replace(old, new))


def write(id):
    b = SEEDS[id]
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with tempfile.TemporaryDirectory(prefix="seed-") as t:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        patched(b["edits"], t + "/r")
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    for lib in ([b["lib"]] if b["lib"] else []):
        shutil.copy(os.path.join(HERE, "seedlib", lib + ".py"), d)


def sh(tree, *cmd, cwd="/repo", **kw):
    return subprocess.run([os.path.join(HERE, "ns.sh"), tree, *cmd], capture_output=True, text=True,
                          env=dict(os.environ, NSCWD=cwd), **kw)


def verify(id, tests=True, check=True):
    """in a scratch copy seen as /repo: the demo passes, and with the patch fails, the stable tests pass, and the property's
    check says what it says"""
    d = os.path.join(OUT, id)
    with tempfile.TemporaryDirectory(prefix="seedv-", dir="/var/tmp") as t:
        tree = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "."], check=True)
        clean = sh(tree, "bash", d + "/demo.sh")
        subprocess.run(["git", "-C", tree, "apply", d + "/patch.diff"], check=True)
        bad = sh(tree, "bash", d + "/demo.sh")
        ok = chk = "-"
        if tests:
            sh(tree, "bash", "-c", f"bash /opt/vp/build.sh; bash /opt/vp/test.sh /var/tmp/{id}.json")
            r = json.load(open(f"/var/tmp/{id}.json"))
            os.remove(f"/var/tmp/{id}.json")
            ok = f"{len(r['passed'])} pass {r['failed'] or ''}"
        if check:
            p = sh(tree, "python3", "check.py", json.load(open(d + "/meta.json"))["property"], cwd=os.path.dirname(HERE))
            chk = f"rc {p.returncode} " + " | ".join(x for x in p.stdout.splitlines() if "rules broken" in x or "ERROR" in x)[:200]
    v = "OK " if clean.returncode == 0 and bad.returncode not in (0, 124) and (not tests or ok.startswith("11 pass")) else "BAD"
    print(f"{v} {id}: demo clean {clean.returncode}{'' if clean.returncode == 0 else (clean.stdout + clean.stderr)[-300:]}, "
          f"planted {bad.returncode} {bad.stdout[-120:].strip()!r}, tests {ok}, check {chk}", flush=True)


if __name__ == "__main__":
    load()
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or list(SEEDS)
    if sys.argv[1] == "write":
        for i in ids:
            write(i)
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda i: verify(i, "--notests" not in sys.argv, "--nocheck" not in sys.argv), ids))
