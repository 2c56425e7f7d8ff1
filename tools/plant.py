#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/plants/<id>.py and validates each in a scratch copy of /repo.

A definition is a Python file with: PROPERTY, NEEDS, BREAKS (strings), EDITS [(file, old, new), ...] and the program of the
demonstration as the string DEMO; STUBS = True lays the stand-ins (TensorFlow, dimod, ...) beside the demonstration.

    tools/plant.py [--check] [id ...]      build (and validate)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = ("dimod", "dwave", "greedy", "keras", "neal", "onnx", "pydantic", "qiskit", "qiskit_aer", "qiskit_algorithms",
         "qiskit_optimization", "simanneal", "tensorflow", "tflite", "yaml")
SH = """#!/bin/sh
# Exits 0 when the guarantee holds, nonzero when it is broken.  Run with cwd = the repository, after its build.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$here:$here/stubs:$PWD/core:$PWD/inference_engine:$PWD/quantizer:$PWD/demo/demo_lib"
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
"""
TESTS = """export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/core:$PWD/inference_engine
cd core && /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1
cd ../inference_engine && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors test \\
  --ignore=test/layers_/test_tflite/test_Logistic.py --ignore=test/model 2>&1 | tail -1"""


def tests(copy):
    out = sh(["bash", "-c", TESTS], copy).stdout.strip().splitlines()
    return [w.split(" in ")[0] for w in out]


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    ids = args or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "plants")) if f.endswith(".py") and f[0] != "_")
    scratch = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    copy = os.path.join(scratch, "repo")
    subprocess.run(["cp", "-a", os.environ.get("BASE", "/repo"), copy], check=True)
    bad = 0
    base = None
    for i in ids:
        d = runpy.run_path(os.path.join(HERE, "plants", i + ".py"))
        out = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        sh(["git", "checkout", "-q", "--", "."], copy)
        for f, old, new in d["EDITS"]:
            p = os.path.join(copy, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                sys.exit(f"{i}: {s.count(old)} matches in {f} of:\n{old}")
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        helpers = d.get("HELPERS", ())
        open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
        for h in helpers:
            shutil.copy(os.path.join(HERE, "plants", h), os.path.join(out, h.lstrip("_")))
        if d.get("STUBS", True):
            for s in STUBS:
                shutil.copytree(os.path.join(ROOT, "sim", "stubs", s), os.path.join(out, "stubs", s),
                                ignore=shutil.ignore_patterns("__pycache__"))
        json.dump({"property": d["PROPERTY"], "needs": " ".join(d["NEEDS"].split()),
                   "what_it_breaks": " ".join(d["BREAKS"].split())}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        if check:
            msg = []
            away = os.path.join(scratch, "demo")
            shutil.rmtree(away, ignore_errors=True)
            shutil.copytree(out, away)
            r = sh(["sh", os.path.join(away, "demo.sh")], copy, timeout=300)
            if r.returncode == 0:
                msg.append("demo passes with the change\n" + r.stdout[-500:] + r.stderr[-500:])
            else:
                why = (r.stdout + r.stderr).strip().splitlines()[-1:]
            tail = tests(copy)
            sh(["git", "checkout", "-q", "--", "."], copy)
            if base is None:
                base = tests(copy)
                print("tests unchanged:", base)
            if tail != base:
                msg.append(f"tests: {tail}")
            r = sh(["sh", os.path.join(away, "demo.sh")], copy, timeout=300)
            if r.returncode != 0:
                msg.append("demo fails without the change\n" + r.stdout[-800:] + r.stderr[-1500:])
            print(i, "OK " + str(why)[:200] if not msg else "BAD " + "\n".join(msg), flush=True)
            bad += bool(msg)
    shutil.rmtree(scratch)
    return bad


sys.exit(main())
