#!/usr/bin/env python3
"""Mechanical mutants of the files the properties are anchored in, each run against the checks of that file.

    tools/mutate.py [--list] [--share K/N] [--out FILE] FILE ...      files relative to /repo

A mutant is killed by the first check that reports a violation; the rest is listed as survivors, to be read by a person: most
are equivalent or break nothing that is claimed, the others show what the checks do not see.  Works on scratch copies."""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = (
    ("demo/x3_fpga/", ("P01",)),
    ("demo/", ("R02", "R01", "R03", "R04", "R05", "S01")),
    ("inference_engine/", ("E01", "E02", "E03", "E04")),
    ("qubo", ("Q08", "Q07", "Q05")), ("Calculationsint", ("Q08",)),
    ("adaround", ("Q02", "Q03", "Q05", "Q07", "Q06", "Q08")),
    ("param_equalizer", ("Q01", "Q03", "Q05", "Q06", "Q07")),
    ("model_converters/", ("C01", "C02")), ("json/files", ("C02",)),
    ("core/", ("Q03", "Q04", "E01", "Q06")),
    ("quantizer/", ("Q04", "Q03", "Q05", "Q06", "Q07", "Q01", "Q02", "Q08")),
)
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "/"}


def mutants(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for w in lines:
        starts.append(starts[-1] + len(w.encode()))
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    def put(n, new):
        a, b = span(n)
        return (data[:a] + new.encode() + data[b:]).decode()
    out = []

    def add(n, what, new):
        s = put(n, new)
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((n.lineno, what, s))
    skip = set()
    for f in ast.walk(tree):         # annotations, decorators and assertions are left alone
        for k in ("annotation", "returns"):
            if getattr(f, k, None) is not None:
                skip.update(id(x) for x in ast.walk(getattr(f, k)))
        if isinstance(f, ast.Call) and text(f.func).startswith(("logger.", "logging.", "print", "plt.", "_LOG", "log.")):
            skip.update(id(x) for x in ast.walk(f))
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            infn.update(id(x) for x in ast.walk(f))
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            new = f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})"
            add(n, f"{text(n)} -> {new}", new)
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            new = "(" + o.join(text(v) for v in n.values) + ")"
            add(n, f"{text(n)} -> {new}", new)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"{text(n)} -> {text(n.operand)}", f"({text(n.operand)})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            new = f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})"
            add(n, f"{text(n)} -> {new}", new)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, f"{n.value} -> {n.value + 1}", str(n.value + 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, f"{n.value} -> {not n.value}", str(not n.value))
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith((".copy", ".astype", ".flatten")) and not (f.endswith(".copy") and n.args) and isinstance(n.func, ast.Attribute):
                add(n, f"{text(n)} -> {text(n.func.value)}", text(n.func.value))
            elif f.split(".")[-1] in ("deepcopy", "copy", "array", "round", "sorted", "abs", "list", "float", "clip") and n.args:
                add(n, f"{text(n)} -> {text(n.args[0])}", f"({text(n.args[0])})")
            for i, a in enumerate(n.keywords):
                if a.arg:
                    rest = [text(x) for x in n.args] + [text(k) for j, k in enumerate(n.keywords) if j != i]
                    add(n, f"drop {text(a)} in {text(n)[:60]}", f"{f}({', '.join(rest)})")
        elif isinstance(n, ast.IfExp):
            add(n, f"{text(n)} -> {text(n.body)}", f"({text(n.body)})")
            add(n, f"{text(n)} -> {text(n.orelse)}", f"({text(n.orelse)})")
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, f"if {text(n.test)} -> True", "(True)") if isinstance(n, ast.If) else None
            add(n.test, f"if {text(n.test)} -> False", "(False)")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (
                isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or id(n.value) in skip)):
            add(n, f"delete: {text(n)[:80]}", "pass")
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, f"delete: {text(n)}", "pass")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, f"return None instead of {text(n.value)[:60]}", "return None")
    return sorted({s: (a, b, s) for a, b, s in out}.values(), key=lambda t: (t[0], t[1]))


def runs_of(p):
    sys.path.insert(0, ROOT)
    from sim.runner import TABLE
    return TABLE[p][1]


def main():
    a = sys.argv[1:]
    listing = "--list" in a
    if listing:
        a.remove("--list")
    k, n = 0, 1
    if "--share" in a:
        i = a.index("--share")
        k, n = map(int, a[i + 1].split("/"))
        del a[i:i + 2]
    out = None
    if "--out" in a:
        i = a.index("--out")
        out = open(a[i + 1], "a")
        del a[i:i + 2]
    jobs = []
    for f in a:
        src = open(os.path.join("/repo", f), encoding="utf-8").read()
        checks = next(c for m, c in CHECKS if m in f)
        jobs += [(f, line, what, s, checks) for line, what, s in mutants(src)]
    jobs = jobs[k::n]
    if listing:
        for j in jobs:
            print(f"{j[0]}:{j[1]} {j[2]}")
        print(len(jobs))
        return
    scratch = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    local = threading.local()
    count = iter(range(10 ** 6))

    def one(j):
        f, line, what, s, checks = j
        if not hasattr(local, "copy"):
            local.dir = os.path.join(scratch, str(next(count)))
            local.copy = os.path.join(local.dir, "repo")
            local.verif = os.path.join(local.dir, "verif")
            os.makedirs(local.dir)
            subprocess.run(["cp", "-a", "/repo", local.copy], check=True)
            os.makedirs(local.verif)
            for x in ("sim", "check", "known_findings.txt", "properties.jsonl"):
                subprocess.run(["cp", "-a", os.path.join(ROOT, x), local.verif], check=True)
        p = os.path.join(local.copy, f)
        old = open(p, encoding="utf-8").read()
        open(p, "w", encoding="utf-8").write(s)
        seen = []
        try:
            for c in checks:
                r = subprocess.run([os.path.join(local.verif, "check"), c, "--tier", "quick", "--workers", "2",
                                    "--runs", str(max(100, runs_of(c) // 8))], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=local.copy, VERIF_SEED="1", VERIF_MINIMISE="1"))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    sig = next((w.split(":")[1].strip() for w in r.stdout.splitlines() if w.startswith(c + ":")), "?")
                    return j, f"killed by {c} ({sig})", ""
                seen.append(f"{c}={r.returncode}")
                if r.returncode == 2 and "harness" not in seen:
                    tail = [w for w in (r.stdout + r.stderr).splitlines() if w.strip()]
                    seen.append(tail[-1][:140] if tail else "")
            return j, "SURVIVED", " ".join(seen)
        finally:
            open(p, "w", encoding="utf-8").write(old)
    alive = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for j, what, more in ex.map(one, jobs):
                alive += what == "SURVIVED"
                w = f"{what}: {j[0]}:{j[1]} {' '.join(j[2].split())} {more}"
                print(w, flush=True)
                if out:
                    out.write(w + "\n")
                    out.flush()
        print(f"{len(jobs)} mutants, {alive} survived")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
