"""Determinism of the simulator: the same seeds in other processes, at other worker counts and under another PYTHONHASHSEED must
give the same execution, event for event.      ./check --selftest [--runs N] [property ...]"""
from __future__ import annotations

import json
import os
import shutil
import sys
import tempfile

from . import runner

VARIANTS = ((8, "0"), (8, "0"), (3, "0"), (7, "4242"), (5, "random"))


def logs(prop, base, total, n, hashseed):
    scratch = tempfile.mkdtemp(prefix="verif-self-")
    try:
        procs = runner.start_workers(prop, "quick", base, total, n, 600, scratch, hashseed)
        got = {}
        for p, _ in procs:
            p.wait()
        for _, k in procs:
            with open(os.path.join(scratch, f"out{k}")) as f:
                for line in f:
                    r = json.loads(line)
                    if "i" in r:
                        got[r["i"]] = (r["status"], r.get("log"), r.get("msg"), r.get("steps"))
        return got
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    runs = 200
    if argv[:1] == ["--runs"]:
        runs, argv = int(argv[1]), argv[2:]
    bad = 0
    for prop in argv or sorted(runner.TABLE):
        diffs, n = 0, 0
        for base in (1, 77):
            ref = None
            for workers, hashseed in VARIANTS:
                g = logs(prop, base, runs, workers, hashseed)
                n += len(g)
                if ref is None:
                    ref = g
                    continue
                for i in sorted(set(ref) | set(g)):
                    if ref.get(i) != g.get(i):
                        diffs += 1
                        if diffs < 4:
                            print(f"  {prop} base {base} run {i} ({workers} workers, hash seed {hashseed}): {ref.get(i)} / {g.get(i)}")
        print(f"{prop}: {n} executions of {2 * runs} seeds, {diffs} differ", flush=True)
        bad += diffs
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
