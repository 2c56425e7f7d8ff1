"""Reproducibility of builds (Q09): the same build again in another interpreter, at another time, on another machine.

Real code: itcl_quantizer, itcl_quantization, itcl_inference_engine.
"""
from __future__ import annotations

import gc
import json
import os
import platform
import random
import socket
import sys
import time
import uuid

import numpy as np

from .. import core, zygote
from .qbase import *  # noqa: F401,F403
from .qbase import STREAMS, Loss, Source, _real_print, build_ok, canon, config, dimod, factory_for, in_sim, keras_builder  # noqa: F401
from .quant import differ, done, steady_answers


# ---- the order of a set of objects is their addresses'; here it is decided
class _Addresses:
    seed = 0
    seen = {}               # id -> (object, which is kept alive; hash)


def _hash(o):
    e = _Addresses.seen.get(id(o))
    if e is None:
        n = len(_Addresses.seen) + 1
        e = _Addresses.seen[id(o)] = (o, random_mix(_Addresses.seed, n))
    return e[1]


def random_mix(seed, n):
    if not seed:
        return n
    h = (seed * 0x9E3779B97F4A7C15 + n * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    h ^= h >> 31
    return (h * 0x94D049BB133111EB & 0xFFFFFFFFFFFFFFFF) >> 3


for _m in [m for n, m in sys.modules.items() if n.startswith("itcl_")]:
    for _c in list(vars(_m).values()):
        if isinstance(_c, type) and _c.__module__.startswith("itcl_") and _c.__hash__ is object.__hash__:
            try:
                _c.__hash__ = _hash
            except TypeError:
                pass

_zones = ("UTC", "Asia/Tokyo", "America/New_York")
_junk = []


def elsewhere(v):
    """Another machine: what a build must not depend on.  In a process of its own."""
    core.EPOCH += v["epoch"]
    core.MONO0 += v["uptime"]
    core.TICK = v["tick"]
    core.PID = v["pid"]
    core.seed_entropy(v["entropy"])
    _Addresses.seed = v["entropy"]
    os.cpu_count = lambda: v["cpus"]
    os.sched_getaffinity = lambda pid=0: set(range(v["cpus"]))
    os.process_cpu_count = os.cpu_count
    host = v["host"]
    socket.gethostname = platform.node = lambda: host
    uuid._node = v["pid"] << 12
    for k in ("HOME", "USER", "LANG", "LC_ALL", "HOSTNAME"):
        os.environ[k] = v["env"]
    os.environ["TZ"] = v["zone"]
    time.tzset()
    for i in range(v["junk"]):          # other addresses
        _junk.append([object() for _ in range(1 + i % 7)])
    if v["gc"]:
        gc.disable()


def draw_variant(ch):
    return {
        "epoch": ch.pick((86400.0 * 400 + 3600.123457, 3.000001, 0.0, -86400.0 * 3000)), "uptime": ch.pick((0.0, 777.25, 1e6)),
        "tick": ch.pick((0.0, 0.01, 1.0, 3600.0)), "pause": ch.pick((0.0, 0.0, 0.5, 120.0)), "pid": ch.between(1, 60000),
        "entropy": 1 + ch.subseed(), "cpus": ch.pick((8, 1, 2, 96)), "host": ch.pick(("host", "edge-7")), "env": ch.pick(("C", "x")),
        "zone": ch.pick(_zones), "junk": ch.pick((0, 100, 5000)), "gc": ch.draw(2), "deep": ch.draw(2),
    }


def case(ctx, variant=None):
    """One build, and what the model answers; every decision is drawn before anything that depends on the machine."""
    ch = ctx.ch
    src = Source(ch, rows=(2, 4))
    cfg = config(ch, qubo=not src.lstm and ch.chance(0.3))
    seed = ch.subseed()
    loss = Loss(ch, src)
    with_loss = not ch.chance(0.1)
    more = ch.draw(3)                   # optimizers used by themselves afterwards
    retries = ch.between(0, 4)
    fac = factory_for(ch)[1]
    pause = variant["pause"] if variant else 0.0
    if variant:
        elsewhere(variant)
    got = {"model": None, "file": None, "answers": [], "evaluations": 0, "params": None}
    dimod.answer = steady_answers()

    def slow(net, key, v):
        if pause:
            time.sleep(pause)

    def main():
        loss.on_call = slow
        STREAMS.by[0] = random.Random(seed)
        np.random.seed(seed % (1 << 31))
        net = build_ok(ctx, lambda: keras_builder.build(src.path, "out.json", src.x, loss if with_loss else None, cfg))
        if net is None:
            return
        got["model"] = json.loads(canon(net.as_json()))
        with open("out.json", encoding="utf-8") as f:
            got["file"] = json.loads(canon(json.load(f)))
        got["answers"].append(ask(net, src))
        if more:
            if more == 1:
                ParamEqualizerFullNet(net, loss, lambda: BFSEqualizer(retries)).equalize()
            else:
                AdaroundNet(net, loss, fac).round()
            got["optimized"] = json.loads(canon(net.as_json()))
            got["answers"].append(ask(net, src))
    try:
        in_sim(ctx, main)
    finally:
        dimod.answer = None
    got["evaluations"] = len(loss.evals)
    got["losses"] = [repr(float(v)) for _, v in loss.evals]
    got["info"] = (src, loss, more)
    if variant:
        got.pop("info")
    return got


def ask(net, src):
    a = np.asarray(net.as_sequential_network().infer(src.x))
    return [str(a.dtype), list(a.shape), a.tolist()]


WHAT = (("file", "writes another model"), ("model", "returns another model"), ("evaluations", "evaluates another number of networks"),
        ("losses", "evaluates other networks"), ("optimized", "optimizes the same model to another one"), ("answers", "answers differently"))


def q09(ctx):
    ch = ctx.ch
    start = len(ch.rec)
    first = case(ctx)
    src, loss, more = first.pop("info")
    choices = ch.rec[start:]
    variant = draw_variant(ch)
    done(ctx, src, loss, optimizers=more, elsewhere=variant)
    if first["model"] is None:
        ctx.count("degenerate_model")
        return
    cwd = os.path.join(os.getcwd(), *(("sub", "a", "b c") if variant["deep"] else ("x",)))
    a = zygote.ask({"fn": "case", "choices": choices, "variant": variant, "tier": ctx.tier, "cwd": cwd})
    if a[0] == "violation":
        ctx.fail("reproducible/" + a[1], "a build that works here fails in another interpreter: " + a[2])
    if a[0] != "ok":
        raise core.HarnessError("in the other interpreter: " + str(a[1:]))
    second = a[1]
    ctx.count("rebuilt_elsewhere")
    ctx.count("clock_elsewhere", int(bool(variant["tick"] or variant["pause"])))
    ctx.nontrivial = first["evaluations"] > 0
    for k, what in WHAT:
        if repr(first.get(k)) != repr(second.get(k)):
            ctx.fail("reproducible", f"the same build with the same random seeds, in another process, {what} "
                                     f"({k}: {differ(first.get(k), second.get(k))})")


RUN = {"Q09": q09}
