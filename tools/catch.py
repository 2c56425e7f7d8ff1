#!/usr/bin/env python3
"""Applies each planted bug to a scratch copy of the repository and runs its property's quick check there (VERIF_REPO).

    tools/catch.py [--repo DIR] [--jobs N] [--patch FILE --property P] [id ...]
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--repo", default="/repo")
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--patch")
ap.add_argument("--property", action="append")
a = ap.parse_args()
TMP = tempfile.mkdtemp(prefix="catch-")


def one(i, patch, props):
    out = []
    repo = os.path.join(TMP, i)
    subprocess.run(["cp", "-a", a.repo, repo], check=True)
    try:
        r = subprocess.run(["git", "-C", repo, "apply", patch], capture_output=True, text=True)
        if r.returncode:
            return f"MISSED {i}: does not apply: {r.stderr}"
        for prop in props:
            t = time.time()
            r = subprocess.run([os.path.join(ROOT, "check"), prop, "--tier", "quick", "--workers", str(max(1, 8 // a.jobs))],
                               cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=repo))
            lines = [w for w in r.stdout.splitlines() if w.startswith("VIOLATION")]
            why = [w.strip() for w in r.stdout.splitlines() if "class=" in w or "violat" in w.lower()][:2]
            ok = r.returncode == 1 and any(f"property={prop} " in w for w in lines)
            out.append(f"{'caught' if ok else 'MISSED'} {i} by {prop} rc={r.returncode} {time.time() - t:.0f}s {str(why)[:300]}")
            if not ok:
                out.append("    " + (r.stdout + r.stderr)[-600:].replace("\n", "\n    "))
    finally:
        shutil.rmtree(repo)
    return "\n".join(out)


jobs = []
if a.patch:
    jobs.append(("patch", os.path.abspath(a.patch), a.property))
else:
    for i in a.ids or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        d = os.path.join(ROOT, "seeded", i)
        jobs.append((i, os.path.join(d, "patch.diff"), a.property or [json.load(open(os.path.join(d, "meta.json")))["property"]]))
try:
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for f in [ex.submit(one, *j) for j in jobs]:
            print(f.result(), flush=True)
finally:
    shutil.rmtree(TMP, ignore_errors=True)
