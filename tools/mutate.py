#!/usr/bin/env python3
"""Mutation testing of the checks: small changes to the code, one at a time, and whether the harnesses notice.
usage: mutate.py COMPONENT OUT.ndjson FILE... [--jobs N] [--max N]     (a development aid; no check uses it)"""
import ast
import json
import os
import random
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    out = []

    def put(node, new, what, end=None):
        a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset) if end is None else end
        out.append((node.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    tree = ast.parse(src)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    for n in ast.walk(tree):
        seg = ast.get_source_segment(src, n) if hasattr(n, "lineno") else ""
        f = n
        infn = False
        while hasattr(f, "parent"):
            f = f.parent
            infn = infn or isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))
            if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and isinstance(f.func.value, ast.Name) \
                    and f.func.value.id == "logging":
                infn = False
                break
        if not infn:
            continue
        if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant) and "logging." not in seg:
            put(n, "pass", "drop: " + seg[:60])
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in
                                                               (n.targets if isinstance(n, ast.Assign) else [n.target])):
            put(n, "pass", "drop: " + seg[:60])
        elif isinstance(n, ast.Delete):
            put(n, "pass", "drop: " + seg[:60])
        elif isinstance(n, ast.Return) and (n.value is None):
            put(n, "pass", "drop return")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "drop raise")
        elif isinstance(n, ast.Continue):
            put(n, "break", "continue->break")
        elif isinstance(n, ast.Break):
            put(n, "continue", "break->continue")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = ast.get_source_segment(src, n.test)
            if t != "True":
                put(n.test, f"not ({t})", "negate: " + t[:60])
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(f"({ast.get_source_segment(src, v)})" for v in n.values) + ")", "and/or: " + seg[:60])
            for i in range(len(n.values)):
                put(n, ("(" + (" and " if isinstance(n.op, ast.And) else " or ").join(
                    f"({ast.get_source_segment(src, v)})" for j, v in enumerate(n.values) if j != i) + ")"),
                    f"without operand {i}: " + seg[:60])
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f"({ast.get_source_segment(src, n.left)}) {CMP[type(n.ops[0])]} "
                   f"({ast.get_source_segment(src, n.comparators[0])})", "cmp: " + seg[:60])
        elif isinstance(n, ast.Constant) and n.value is True or isinstance(n, ast.Constant) and n.value is False:
            put(n, str(not n.value), "bool: " + str(n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, str(n.value + 1), f"int: {n.value}+1")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, f"({ast.get_source_segment(src, n.left)}) {'-' if isinstance(n.op, ast.Add) else '+'} "
                   f"({ast.get_source_segment(src, n.right)})", "arith: " + seg[:60])
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            t = ast.get_source_segment(src, n.iter)
            put(n.iter, f"list({t})[1:]", "skip first: " + t[:60])
            put(n.iter, f"list({t})[:1]", "only first: " + t[:60])
        elif isinstance(n, ast.Await) and not isinstance(n.parent, ast.Expr):
            pass
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in (
                "TaskStatus", "TaskEchoStatus", "FunctionResponseType", "FunctionRequestType", "ObjectInstructionType"):
            other = {"Success": "Failed", "Failed": "Success", "Canceled": "NotFound", "NotFound": "Canceled", "OK": "Duplicated",
                     "SubmitOK": "Duplicated", "NotExists": "OK", "StillHaveTask": "OK", "Running": "Inactive",
                     "Inactive": "Running", "Duplicated": "OK", "FunctionNotExists": "NoWorker", "NoWorker": "FunctionNotExists"}
            if n.attr in other:
                put(n, f"{n.value.id}.{other[n.attr]}", f"{seg} -> {other[n.attr]}")
    seen = set()
    for line, what, new in out:
        if new in seen:
            continue
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        seen.add(new)
        yield line, what, new


def main():
    a = [x for x in sys.argv[1:]]
    opt = {}
    while any(x.startswith("--") for x in a):
        i = next(i for i, x in enumerate(a) if x.startswith("--"))
        opt[a[i]] = a[i + 1]
        del a[i:i + 2]
    comp, outp, *files = a
    work = tempfile.mkdtemp(prefix="mut-", dir="/var/tmp")
    jobs = int(opt.get("--jobs", 7))
    slots = Queue()
    for i in range(jobs):
        subprocess.run(["cp", "-a", "/repo", f"{work}/t{i}"], check=True)
        slots.put(f"{work}/t{i}")
    todo = [(f, *m) for f in files for m in mutants(os.path.join("/repo", f))]
    if "--max" in opt:
        random.Random(1).shuffle(todo)
        todo = todo[:int(opt["--max"])]
    out = open(outp, "w")

    def one(x):
        f, line, what, new = x
        tree = slots.get()
        try:
            p = os.path.join(tree, f)
            old = open(p).read()
            open(p, "w").write(new)
            try:
                r = subprocess.run([os.path.join(HERE, "ns.sh"), tree, "python3", os.path.join(HERE, "mutrun.py"), comp],
                                   capture_output=True, text=True, env=dict(os.environ, NSCWD=V), timeout=600)
                res = json.loads(r.stdout.strip().splitlines()[-1])
            except Exception as e:
                res = {"error": str(e)[:200]}
            open(p, "w").write(old)
            out.write(json.dumps({"file": f, "line": line, "what": what, **res}) + "\n")
            out.flush()
        finally:
            slots.put(tree)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    subprocess.run(["rm", "-rf", work])


if __name__ == "__main__":
    main()
