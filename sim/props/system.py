"""The whole system: quantizer, engine, broker client, broker and device in one simulation (S01).

Real code: itcl_quantizer (build and optimizers), itcl_quantization, itcl_inference_engine (on both sides), demo_lib client.
"""
from __future__ import annotations

import json
import os
import random

import numpy as np

from .. import core
from . import remote
from .qbase import *  # noqa: F401,F403
from .qbase import keras_builder
from .remote import TOPICS, World, check_loop

remote.FAULTS["S01"] = (("drop_reply", "delay_reply", "dup_reply", "damage_reply", "damage_first", "stall_device", "drop_request"),
                        ("cut", "down", "crash", "skew", "foreign", "replay", "garbage"))


class Rig:
    """One simulated world with a device that really runs the published network."""

    def __init__(self, ctx, src, clean, max_batch, gentle=False):
        self.ctx, self.src = ctx, src
        w = self.w = World(ctx, "S01", "infer", clean)
        if gentle:      # rare faults: most of the quantization is over before one hits
            q = ctx.ch.pick((0.002, 0.01, 0.03))
            w.faults = {k: min(p, q) for k, p in w.faults.items()}
            w.broker.faults = dict(w.faults)
        w.max_batch = max_batch
        w.dev.answer = self.answer
        self.handled = set()            # publishes that reached the device
        self.used = {}                  # request id -> description the device used
        real = w.dev.handle

        def handle(topic, data, pub=-1):
            self.handled.add(pub)
            real(topic, data, pub)
        w.dev.handle = handle
        self.evals = []
        self.stale = []

    def run_net(self, schema, x):
        return np.asarray(SequentialNetwork(schema).infer(x), dtype=float)

    def answer(self, model, req):
        shape = (req["shape"][0],) + self.src.x.shape[1:]
        x = np.array(req["tensor"], dtype=self.src.x.dtype).reshape(shape)
        self.used[req["id"]] = canon(model)
        y = self.run_net(model, x)
        y = y.reshape(len(y), -1)
        return {"id": req["id"], "shape": list(y.shape), "tensor": y.ravel().tolist()}

    def loss(self, tries, want):
        w = self.w

        def f(net):
            x = self.src.x
            for k in range(tries):
                c = w.call(net, x)
                if remote.succeeded(c):
                    break
            else:
                raise c["exc"] or RuntimeError("no answer")
            self.inspect(c, net)
            y = np.asarray(c["ret"], dtype=float)
            v = float(np.mean((y.reshape(want.shape) - want) ** 2))
            self.evals.append((canon(net.schema), v))
            return v
        return f

    def inspect(self, c, net):
        """Was the answer the one of this network?"""
        key = canon(json.loads(json.dumps(net.schema)))
        pubs = range(c["p0"], c["p1"])
        b = self.w.broker
        models = [k for k in pubs if b.published[k][1] == TOPICS.MODEL_UPDATE]
        ids = [json.loads(b.published[k][2])["input"]["id"] for k in pubs if b.published[k][1] == TOPICS.INFER]
        old = [i for i in ids if i in self.used and self.used[i] != key]
        if old and models:
            self.stale.append(models[0])
            return
        y = np.asarray(c["ret"], dtype=float)
        want = self.run_net(json.loads(json.dumps(net.schema)), self.src.x)
        want = want.reshape(len(want), -1)
        if y.shape != want.shape or not np.allclose(y, want, rtol=1e-9, atol=1e-12, equal_nan=True):
            self.ctx.fail("wrong-answer", f"remote inference of {len(y)} rows (at most {self.w.max_batch} at once) gives {y.tolist()[:4]}, "
                          f"the network answers {want.tolist()[:4]}")

    def lost_network(self):
        """A network that never reached the device, so that it went on with an older one (known finding)."""
        return [k for k in self.stale if k not in self.handled]


def s01(ctx):
    ch = ctx.ch
    src = Source(ch, rows=(2, 6), lstm=ch.chance(0.1))
    cfg = config(ch)
    seed = ch.subseed()
    max_batch = ch.pick((2, 1, 3, 8))
    tries = ch.pick((1, 2, 4, 8))
    y = np.asarray(src.model(src.x), dtype=float)
    info = {"tries": tries, "max_batch": max_batch}

    def build(rig, out, th=0):
        STREAMS.reset()
        STREAMS.by[core.ACTIVE.cur.id] = random.Random(seed)
        np.random.seed(seed % (1 << 31))
        w = rig.w
        net = keras_builder.build(src.path, out, src.x, rig.loss(tries, y), cfg)
        return canon(json.loads(json.dumps(net.as_json())))

    def file(out):
        with open(out, encoding="utf-8") as f:
            return canon(json.load(f))

    # ---- nothing goes wrong
    ref = {}
    rig = Rig(ctx, src, True, max_batch)
    rig.w.sim.max_steps = 30_000_000

    def good():
        rig.w.start_client()
        t0 = rig.w.sim.now
        r = build_ok(ctx, lambda: build(rig, "ref.json"))
        ref["t"] = rig.w.sim.now - t0
        ref["net"] = r
    th = rig.w.sim.spawn(good, "builder")
    rig.w.sim.run()
    if rig.w.sim.hang or rig.w.sim.deadlock:
        ctx.fail("hang", f"a fault-free quantization never ended ({rig.w.sim.hang})")
    if th.exc is not None and not isinstance(th.exc, core.SimAbort):
        if isinstance(th.exc, (core.Violation, core.HarnessError)):
            raise th.exc
        ctx.fail("no-build", f"a quantization over a fault-free broker failed: {type(th.exc).__name__}: {th.exc}")
    if ref.get("net") is None or not rig.evals:
        finish(ctx, src, rig, None, info)
        ctx.nontrivial = False
        return
    # the loss was computed remotely, but it is the loss of the network
    ref_evals = list(rig.evals)

    # ---- with faults
    rig2 = Rig(ctx, src, False, max_batch, gentle=ch.draw(3) > 0)
    w = rig2.w
    w.sim.max_steps = 60_000_000
    w.sim.max_time = 50_000.0
    w.schedule_events(max(ref["t"], 0.01) * ch.pick((0.3, 1.0, 1.0, 2.0)))
    res = {}

    def faulty():
        w.start_client()
        try:
            res["net"] = build(rig2, "out.json")
        except (core.SimAbort, core.Violation, core.HarnessError):
            raise
        except Exception as e:  # noqa: BLE001
            res["exc"] = e
        if ch.draw(2) == 0:
            res["evals"] = list(rig2.evals)
            res["stale"] = list(rig2.stale)
            ok = w.quiet()
            if not ok:
                ctx.fail("no-reconnection", "the client did not connect again after faults stopped")
            rig2.evals.clear()
            rig2.stale.clear()
            try:
                res["again"] = build(rig2, "again.json")
            except (core.SimAbort, core.Violation, core.HarnessError):
                raise
            except Exception as e:  # noqa: BLE001
                ctx.fail("no-recovery", f"faults stopped, but a quantization fails: {type(e).__name__}: {e}")
            res["stale_again"] = rig2.lost_network()
            rig2.stale[:] = res["stale"]
            rig2.evals[:] = res["evals"]
    th = w.sim.spawn(faulty, "builder")
    w.sim.run()
    if w.sim.hang or w.sim.deadlock:
        ctx.fail("hang", f"a quantization never ended ({w.sim.hang or 'every thread is blocked'})")
    if th.exc is not None and not isinstance(th.exc, core.SimAbort):
        raise th.exc
    check_loop(w)
    info["outcome"] = "failed" if "exc" in res else "built"
    ctx.count("quantizations_failed" if "exc" in res else "quantizations_built")
    if "exc" in res:
        if os.path.exists("out.json"):
            ctx.fail("wrote", f"the quantization failed ({res['exc']!r}) but wrote a model file")
    else:
        lost = rig2.lost_network()
        if file("out.json") != res["net"]:
            ctx.fail("file-differs", "the file written is not the network returned")
        if res["net"] != ref["net"]:
            a, b = [v for _, v in ref_evals], [v for _, v in rig2.evals]
            n = next((i for i, (p, q) in enumerate(zip(ref_evals, rig2.evals)) if p != q), min(len(a), len(b)))
            msg = f"the quantization succeeded with another model than without faults: evaluation {n} gave {b[n:n + 1]}, without faults {a[n:n + 1]}"
            if lost:
                ctx.known("lost-network", msg)
            else:
                ctx.fail("other-model", msg)
        elif rig2.evals != ref_evals and not lost:
            ctx.fail("other-history", "the optimizer saw other losses than without faults")
        if rig2.stale and not lost:
            ctx.fail("stale-network", "the device answered with an older network although the network of the call reached it")
    if "again" in res and res["again"] != ref["net"] and not res["stale_again"]:
        ctx.fail("no-recovery", "faults stopped, but a quantization gives another model")
    finish(ctx, src, rig2, res, info)
    ctx.nontrivial = bool(w.sim.counts)


def finish(ctx, src, rig, res, info):
    w = rig.w
    ctx.count("loss_evaluations", len(rig.evals))
    ctx.sample = {"model": src.info, "faults": w.faults, "events": dict(w.sim.counts), "preemption": w.sim.preempt,
                  "evaluations": len(rig.evals), "simulated_s": round(w.sim.now, 3), **info}
    ctx.evals = max(1, len(rig.evals))
    ctx.sig = [src.text, src.x.tolist(), sorted(w.faults.items()), len(rig.evals), sorted((k, str(v)) for k, v in info.items()),
               sorted(w.sim.counts.items())]


RUN = {"S01": s01}
