"""Runs, minimises, replays and reports.

    check <property> [--tier quick|thorough] [--runs N] [--workers N]
    check --replay FILE
    check --selftest [...]
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print = print  # noqa: A001  (scenarios silence the built-in one)
REAL_TIME = time.monotonic
REAL_SLEEP = time.sleep

# property -> (module, quick runs, thorough runs)
TABLE = {
    "R01": ("remote", 16000, 400000),
    "R02": ("remote", 14000, 300000),
    "R03": ("remote", 14000, 300000),
    "R04": ("remote", 14000, 300000),
    "R05": ("remote", 14000, 400000),
    "E01": ("engine", 10000, 250000),
    "E02": ("engine", 10000, 250000),
    "E03": ("engine", 10000, 250000),
    "E04": ("engine", 10000, 250000),
    "Q01": ("quant", 2500, 20000),
    "Q02": ("quant", 2000, 15000),
    "Q03": ("quant", 2000, 15000),
    "Q04": ("quant", 3000, 20000),
    "Q05": ("quant", 2000, 15000),
    "Q06": ("quant", 1800, 15000),
    "Q07": ("quant", 1000, 10000),
    "Q08": ("quant", 2000, 15000),
    "Q09": ("repro", 1500, 15000),
    "S01": ("system", 700, 10000),
    "P01": ("program", 1500, 15000),
    "C01": ("convert", 5000, 80000),
    "C02": ("convert", 4000, 60000),
}
TWICE = ("Q09",)         # run in a second interpreter as well, so the hash seed of a replay is part of the execution
RUN_WALL = 150.0         # a single run that takes longer is an error of the check
RUN_CPU = 30.0           # processor time of a single run
SPINS = "spins"
QUICK_CAP, THOROUGH_CAP = 420.0, 3300.0


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                rest = line[6:].strip()
                prop, cls, what = rest.split(" ", 2)
                out.append((prop.split("=", 1)[1], cls.split("=", 1)[1], what))
    return out


# --------------------------------------------------------------------------- inside a run
_loaded = {}


def load(prop):
    """Import the scenario (and with it the seams and the code under test)."""
    if prop in _loaded:
        return _loaded[prop]
    if prop in TWICE:
        from . import zygote
        zygote.start(prop)
    from . import core
    core.install()
    m = importlib.import_module("sim.props." + TABLE[prop][0])
    _loaded[prop] = m
    return m


def reset_process_state(ch):
    import random
    import uuid

    import numpy as np

    from . import core
    k = 12345
    random.seed(k)
    np.random.seed(k)
    core.seed_entropy(k)
    core.SimThread._n = 0
    tempfile._name_sequence = None
    uuid._node = 0x123456789ABC
    uuid._last_timestamp = None
    uuid._generate_time_safe = None


def limit_cpu():
    """A run ends: one that burns RUN_CPU seconds of processor time never will."""
    from . import core

    def spins(*a):
        raise core.Violation(SPINS, f"still computing after {RUN_CPU:.0f} s of processor time (a run takes less than a second)")
    signal.signal(signal.SIGPROF, spins)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU, 1.0)


def _frames(e):
    repo = os.environ.get("VERIF_REPO", "/repo") + "/"
    for f, line in traceback.walk_tb(e.__traceback__):
        name = f.f_code.co_filename
        if name.startswith(repo):
            yield "repo", name[len(repo):], f
        elif name.startswith(VERIF + "/"):
            yield "verif", name, f


def raised_by_repo(e):
    """Did the code under test raise this (itself or through a library), and not the harness or one of its stand-ins?"""
    from . import core
    if isinstance(e, (core.SimAbort, core.StubMissing, core.Injected, KeyboardInterrupt, SystemExit, MemoryError, ImportError)):
        return False
    if type(e).__module__.split(".")[0] == "sim" or isinstance(e, OSError):
        return False
    fr = list(_frames(e))
    if not fr or fr[-1][0] != "repo":
        return False
    o = getattr(e, "obj", None)          # an attribute that a stand-in lacks
    if isinstance(e, AttributeError):
        mod = getattr(o, "__file__", None) or getattr(sys.modules.get(type(o).__module__), "__file__", None) or ""
        if mod.startswith(VERIF + "/"):
            return False
    return True


def place(e):
    fr = [f for f in _frames(e) if f[0] == "repo"]
    return f"{fr[-1][1]} in {fr[-1][2].f_code.co_name}" if fr else "?"


def execute(prop, tier, seed=None, replay=None):
    """One run in this process -> plain dict."""
    from . import core
    from .ctx import Ctx
    m = load(prop)
    ch = core.Chooser(seed=seed, replay=replay)
    ctx = Ctx(ch, prop, tier)
    ctx.known_classes = {c for p, c, _ in known_findings() if p == prop}
    reset_process_state(ch)
    res = {"status": "ok"}
    t0 = core.real_monotonic()
    cpu0 = time.process_time()
    limit_cpu()
    try:
        m.RUN[prop](ctx)
    except core.Violation as v:
        res = {"status": "violation", "sig": v.sig, "msg": v.msg}
    except core.HarnessError:
        res = {"status": "error", "msg": traceback.format_exc()[-3000:]}
    except BaseException as e:
        if raised_by_repo(e):           # nothing in this scenario makes the code raise: it does not do what it promises
            res = {"status": "violation", "sig": "raises", "msg": f"{type(e).__name__} out of the code under test, "
                                                                  f"from {place(e)}"}
        else:
            res = {"status": "error", "msg": traceback.format_exc()[-3000:]}
    signal.setitimer(signal.ITIMER_PROF, 0)
    if res["status"] == "violation":    # nothing that differs from process to process
        res["msg"] = re.sub(r"0x[0-9a-f]{6,}", "0x...", re.sub(r"/[^\s'\"]*/r\d+/", "", res["msg"].replace(os.getcwd() + "/", "")))
    h = hashlib.sha1()
    if res.get("sig") == SPINS:         # where the processor time ran out is not part of the execution
        ctx.sims, ctx.extra_counts, ctx.sig = [], {}, []
    for s in ctx.sims:
        h.update(repr((s.sched_hash, s.trace, round(s.now, 9), s.steps)).encode())
    h.update(repr((ctx.sig, res.get("sig"), res.get("msg"), ctx.merged("counts"))).encode())
    res.update(
        choices=ch.rec, counts=ctx.merged("counts"), probes=ctx.merged("probes"), sample=ctx.sample,
        sigh=hashlib.sha1(repr(ctx.sig).encode()).hexdigest()[:16],
        sched=hashlib.sha1(repr([s.sched_hash for s in ctx.sims]).encode()).hexdigest()[:16],
        nontrivial=ctx.nontrivial, known=ctx.known_hits, log=h.hexdigest()[:20],
        simtime=sum(s.now for s in ctx.sims), steps=sum(s.steps for s in ctx.sims),
        switches=sum(s.switches for s in ctx.sims), preempt=sum(s.preemptions for s in ctx.sims),
        evals=ctx.evals, wall=core.real_monotonic() - t0, cpu=time.process_time() - cpu0,
        trace=[list(map(str, t)) for s in ctx.sims for t in s.trace][-400:] if res["status"] != "ok" or replay is not None else [],
    )
    return res


def forked(prop, tier, seed=None, replay=None, limit=RUN_WALL):
    """One run in a forked child: no run sees what another left behind in the process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            d = os.path.join(os.getcwd(), f"r{os.getpid()}")
            os.mkdir(d)
            os.chdir(d)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 2)
            res = execute(prop, tier, seed, replay)
            data = json.dumps(res).encode()
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
            view = memoryview(struct.pack("<I", len(data)) + data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = REAL_TIME() + limit
    try:
        while True:
            left = end - REAL_TIME()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                return {"status": "error", "msg": f"run exceeded {limit} s of wall time"}
            rl, _, _ = select.select([r], [], [], left)
            if rl:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf += b
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if len(buf) < 4 or len(buf) != 4 + struct.unpack("<I", buf[:4])[0]:
        return {"status": "error", "msg": "run died without a result"}
    return json.loads(buf[4:])


def seed_of(prop, base, i):
    return int.from_bytes(hashlib.sha256(f"{prop}/{base}/{i}".encode()).digest()[:8], "big")


# --------------------------------------------------------------------------- worker process
def env_for_children(hashseed="0"):
    e = dict(os.environ)
    repo = e.get("VERIF_REPO", "/repo")
    e.update(VERIF_CHILD="1", PYTHONPATH=":".join([VERIF, VERIF + "/sim/stubs", f"{repo}/core", f"{repo}/inference_engine", f"{repo}/quantizer",
                                  f"{repo}/demo/demo_lib"] + [f"{repo}/model_converters/{c}" for c in ("keras2json", "tflite2json", "onnx2json")]),
             PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             MPLBACKEND="Agg", PYTHONHASHSEED=hashseed, PYTHONUNBUFFERED="1", PYTHONWARNINGS="ignore")
    e.pop("PYTHONSTARTUP", None)
    e.pop("PYTHONBREAKPOINT", None)
    return e


def worker(prop, tier, base, first, stride, total, cap):
    """Runs first, first+stride, ... ; one JSON line each on stdout."""
    t0 = REAL_TIME()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    load(prop)
    for i in range(first, total, stride):
        if REAL_TIME() - t0 > cap:
            break
        res = forked(prop, tier, seed=seed_of(prop, base, i))
        res["i"] = i
        if res["status"] == "ok":
            res.pop("choices", None)
        out.write(json.dumps(res) + "\n")
        if res["status"] != "ok":
            break
    out.write(json.dumps({"done": first}) + "\n")
    out.flush()


def start_workers(prop, tier, base, total, n, cap, scratch, hashseed="0"):
    procs = []
    for k in range(n):
        d = os.path.join(scratch, f"w{k}")
        os.makedirs(d, exist_ok=True)
        err = open(os.path.join(scratch, f"err{k}"), "wb")
        out = open(os.path.join(scratch, f"out{k}"), "wb")
        p = subprocess.Popen([sys.executable, "-m", "sim.runner", "--worker", prop, tier, str(base), str(k), str(n),
                              str(total), str(cap)], cwd=d, env=env_for_children(hashseed), stdout=out, stderr=err,
                             start_new_session=True)
        err.close()
        out.close()
        procs.append((p, k))
    return procs


def collect(procs, scratch, deadline):
    """Wait for the workers; returns (results, complete)."""
    complete = True
    failed_at = None
    try:
        while True:
            alive = [p for p, _ in procs if p.poll() is None]
            if not alive:
                break
            if failed_at is None:
                for _, k in procs:
                    f = os.path.join(scratch, f"out{k}")
                    try:
                        with open(f, "rb") as fh:
                            fh.seek(max(0, os.path.getsize(f) - 400))
                            tail = fh.read()
                    except OSError:
                        continue
                    if b'"done"' in tail:
                        with open(f, "rb") as fh:
                            if b'"status": "violation"' in fh.read():
                                failed_at = REAL_TIME()
            # a failure was found: the other workers get a little longer (a smaller index may fail too)
            if failed_at is not None and REAL_TIME() - failed_at > 5:
                for p in alive:
                    kill(p)
                break
            if REAL_TIME() > deadline:
                complete = False
                for p in alive:
                    kill(p)
                break
            REAL_SLEEP(0.02)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                kill(p)
            p.wait()
    results = []
    for _, k in procs:
        with open(os.path.join(scratch, f"out{k}"), "rb") as fh:
            for line in fh:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "i" in d:
                    results.append(d)
    for p, k in procs:
        if p.returncode not in (0, -9, -15):
            with open(os.path.join(scratch, f"err{k}"), "rb") as fh:
                results.append({"i": -1, "status": "error", "msg": "worker failed: " + fh.read()[-3000:].decode(errors="replace")})
    results.sort(key=lambda d: d["i"])
    return results, complete


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


# --------------------------------------------------------------------------- minimisation
def minimise(prop, tier, choices, sig, budget=60.0):
    end = REAL_TIME() + budget
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        r = forked(prop, tier, replay=c)
        return r if r["status"] == "violation" and r["sig"] == sig else None

    best = list(choices)
    r = fails(best)
    if r is None:
        return best, None, tried
    best_r = r
    used = len(r["choices"])
    best = best[:used]

    def strip(c):
        while c and c[-1] == 0:
            c = c[:-1]
        return c
    best = strip(best)
    improved = True
    while improved and REAL_TIME() < end:
        improved = False
        # truncate
        lo, hi = 0, len(best)
        while lo < hi and REAL_TIME() < end:
            mid = (lo + hi) // 2
            c = strip(best[:mid])
            r = fails(c)
            if r:
                best, best_r = c, r
                hi = len(best)
                improved = True
            else:
                lo = mid + 1
        # delete / zero chunks
        size = max(1, len(best) // 2)
        while size >= 1 and REAL_TIME() < end:
            i = 0
            while i < len(best) and REAL_TIME() < end:
                seg = best[i:i + size]
                done = False
                for c in (best[:i] + best[i + size:], best[:i] + [0] * len(seg) + best[i + size:] if any(seg) else None):
                    if c is None:
                        continue
                    c = strip(c)
                    if c == best:
                        continue
                    r = fails(c)
                    if r:
                        best, best_r = c, r
                        improved = done = True
                        break
                if not done:
                    i += size
            size //= 2
        # lower values
        for i in range(len(best)):
            if REAL_TIME() > end or i >= len(best):
                break
            for v in sorted({0, 1, best[i] // 2, best[i] - 1}):
                if 0 <= v < best[i]:
                    c = strip(best[:i] + [v] + best[i + 1:])
                    r = fails(c)
                    if r:
                        best, best_r = c, r
                        improved = True
                        break
    return best, best_r, tried


# --------------------------------------------------------------------------- main
def ordered_add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


def check(prop, tier, seed, runs, workers):
    t0 = REAL_TIME()
    cap = QUICK_CAP if tier == "quick" else THOROUGH_CAP
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    code = 2
    try:
        procs = start_workers(prop, tier, seed, runs, workers, cap, scratch)
        results, complete = collect(procs, scratch, t0 + cap + 200)
        errors = [r for r in results if r["status"] == "error"]
        viol = [r for r in results if r["status"] == "violation"]
        oks = [r for r in results if r["status"] == "ok"]
        replay_path = None
        for n, v in enumerate(viol[:3]):      # the first that reproduces is reported
            os.chdir(scratch)
            cmd = [sys.executable, "-m", "sim.runner", "--minimise", prop, tier, os.path.join(scratch, "v.json")]
            with open(os.path.join(scratch, "v.json"), "w") as f:
                json.dump(v, f)
            mdir = os.path.join(scratch, f"min{n}")
            os.makedirs(mdir)
            subprocess.run(cmd, cwd=mdir, env=env_for_children(), timeout=240)
            with open(os.path.join(scratch, "v.json")) as f:
                v = json.load(f)
            if v.get("reproduced"):
                rdir = os.path.join(VERIF, "evidence", "replays")
                os.makedirs(rdir, exist_ok=True)
                replay_path = os.path.join(rdir, f"{prop}-{v['sig'].replace('/', '_').replace(' ', '_')[:60]}-{seed}-{v['i']}.json")
                with open(replay_path, "w") as f:
                    json.dump({"property": prop, "tier": tier, "verif_seed": seed, "run": v["i"],
                               "run_seed": seed_of(prop, seed, v["i"]), "sig": v["sig"], "msg": v["msg"],
                               "choices": v["choices"], "schedule_and_fault_trace": v["trace"], "log": v["log"],
                               "sample": v["sample"], "minimise_executions": v.get("tried")}, f, indent=1)
                p = subprocess.run([sys.executable, "-m", "sim.runner", "--replay", replay_path], cwd=mdir,
                                   env=env_for_children("0" if prop in TWICE else "77"), stdout=subprocess.PIPE, timeout=240)
                if p.returncode != 1:
                    errors.append({"msg": "replay in a fresh process did not reproduce " + p.stdout.decode()[-1500:]})
                    replay_path = None
            else:
                errors.append({"msg": "violation did not reproduce from its choices: " + v["msg"]})
            if replay_path:
                break
        write_evidence(prop, tier, seed, runs, workers, results, oks, viol, REAL_TIME() - t0, complete)
        for p, cls, what in known_findings():
            if p == prop:
                print(f"KNOWN-FINDING: property={prop} {what} [class {cls}]")
        if replay_path:
            print(f"{prop}: {v['sig']}: {v['msg']}")
            print(f"  seed={seed} run={v['i']} (of {runs}); {len(v['choices'])} choices after minimisation "
                  f"(from {v.get('original')}); replay: ./check --replay {replay_path}")
            for t in v["trace"][-25:]:
                print("   ", " ".join(t))
            print(f"VIOLATION property={prop} replay={replay_path}")
            code = 1
        elif errors:
            print(f"{prop}: error of the check\n{errors[0]['msg']}")
            code = 2
        elif not oks:
            print(f"{prop}: nothing was explored")
            code = 2
        else:
            w = REAL_TIME() - t0
            print(f"{prop}: held on {len(oks)} simulated runs ({len({r['sched'] for r in oks})} distinct schedules), "
                  f"{sum(r['simtime'] for r in oks):.0f} s simulated, {w:.1f} s wall{'' if len(oks) == runs else ' (wall cap reached)'}")
            code = 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def write_evidence(prop, tier, seed, runs, workers, results, oks, viol, wall, complete):
    m = importlib.import_module("sim.describe")
    d = m.DESCRIBE.get(prop, {})
    counts, probes, known = {}, {}, {}
    for r in oks + viol:
        ordered_add(counts, r.get("counts", {}))
        ordered_add(probes, r.get("probes", {}))
        ordered_add(known, r.get("known", {}))
    nt = [r for r in oks if r["nontrivial"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r.get("evals", 1) for r in oks),
            "distinct_nontrivial": len({(r["sigh"], r["sched"]) for r in nt}),
            "rule": d.get("rule", ""),
            "samples": [r["sample"] for r in (nt or oks)[:3]],
            "simulated_runs": len(oks), "runs_requested": runs, "nontrivial_runs": len(nt),
            "runs_per_hour": round(len(oks) / wall * 3600) if wall else 0,
            "seeds_per_hour": round(len(oks) / wall * 3600) if wall else 0,
            "simulated_seconds": round(sum(r["simtime"] for r in oks), 3),
            "distinct_schedules": len({r["sched"] for r in oks}),
            "distinct_schedules_measure": "hash of the sequence of context switches with the place in the code of each, "
                                          "of injected faults and of messages",
            "distinct_workloads": len({r["sigh"] for r in oks}),
            "context_switches": sum(r["switches"] for r in oks), "preemptions_inside_repo_code": sum(r["preempt"] for r in oks),
            "monitored_steps_of_repo_code": sum(r["steps"] for r in oks),
            "faults_injected": dict(sorted(counts.items())), "probes": dict(sorted(probes.items())[:80]),
            "known_finding_histories_seen": known,
            "real_components": d.get("real", []), "stub_components": d.get("stub", []),
            "workers": workers, "longest_run_cpu_s": round(max((r.get("cpu", 0) for r in oks), default=0), 3),
        },
        "assumptions": d.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))


def main(argv):
    if argv and argv[0] == "--worker":
        _, prop, tier, base, first, stride, total, cap = argv
        worker(prop, tier, int(base), int(first), int(stride), int(total), float(cap))
        return 0
    if argv and argv[0] == "--minimise":
        _, prop, tier, path = argv
        with open(path) as f:
            v = json.load(f)
        load(prop)
        n = len(v["choices"])
        if v["sig"] == SPINS:             # every try would take RUN_CPU seconds
            best, r, tried = v["choices"], v, 0
        else:
            best, r, tried = minimise(prop, tier, v["choices"], v["sig"], float(os.environ.get("VERIF_MINIMISE", 60)))
        if r is not None:
            r = forked(prop, tier, replay=best)
        if r is not None and r["status"] == "violation" and r["sig"] == v["sig"]:
            i = v["i"]
            v = dict(r, i=i, choices=best, reproduced=True, tried=tried, original=n)
        else:
            v["reproduced"] = False
        with open(path, "w") as f:
            json.dump(v, f)
        return 0
    if argv and argv[0] == "--replay":
        path = os.path.abspath(argv[1])
        if not os.environ.get("VERIF_CHILD"):
            os.execve(sys.executable, [sys.executable, "-m", "sim.runner", "--replay", path], dict(env_for_children()))
        with open(path) as f:
            v = json.load(f)
        scratch = tempfile.mkdtemp(prefix="verif-replay-")
        os.chdir(scratch)
        try:
            load(v["property"])
            r = forked(v["property"], v["tier"], replay=v["choices"])
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
        for t in r.get("trace", []):
            print("   ", " ".join(t))
        if r["status"] == "violation":
            same = r["sig"] == v["sig"] and r["log"] == v["log"]
            print(f"{r['sig']}: {r['msg']}")
            print("reproduced exactly" if same else "DIFFERENT execution than recorded")
            print(f"VIOLATION property={v['property']} replay={path}")
            return 1 if same else 2
        print(r["status"], r.get("msg", ""))
        return 0 if r["status"] == "ok" else 2
    if argv and argv[0] == "--one":      # debugging: one run index in the foreground
        _, prop, i = argv[:3]
        if not os.environ.get("VERIF_CHILD"):
            os.execve(sys.executable, [sys.executable, "-m", "sim.runner", *argv], dict(env_for_children()))
        scratch = tempfile.mkdtemp(prefix="verif-one-")
        os.chdir(scratch)
        try:
            load(prop)
            r = execute(prop, "quick", seed=seed_of(prop, int(os.environ.get("VERIF_SEED", "1")), int(i)))
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
        for t in r.get("trace", []):
            print("   ", " ".join(t))
        r.pop("trace")
        r["choices"] = len(r["choices"])
        print(json.dumps(r, indent=1))
        return 0
    if argv and argv[0] == "--setup":     # everything the checks need can be imported
        p = subprocess.run([sys.executable, "-c", "from sim import core, runner\nfor p in sorted(set(v[0] for v in runner.TABLE.values())):\n"
                            "    pass\nprint('ready', __import__('sys').version)"], env=env_for_children())
        return p.returncode
    if argv and argv[0] == "--selftest":
        from . import selftest
        return selftest.main(argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(TABLE))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = a.runs or TABLE[a.property][1 if tier == "quick" else 2]
    try:
        return check(a.property, tier, seed, runs, a.workers)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
