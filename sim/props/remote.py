"""Remote inference and remote loss over the simulated broker (R01 .. R05).

Real code: demo_lib (client factory, InferFPGAMQTT, LossFPGA) and the network object of the inference engine.
"""
from __future__ import annotations

import json
import logging
import threading

import numpy as np

from .. import core, gen
from ..broker import GARBAGE, Broker, Device

logging.disable(logging.CRITICAL)

from demo_lib.fpga import InferFPGAMQTT, LossFPGA  # noqa: E402
from demo_lib.mqtt import TOPICS, create_client  # noqa: E402
from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402

EPS = 1e-6


def schema(tag):
    def node(scale, zp, dtype, shape, name):
        return {"tensor": {"tensor": None, "shape": shape, "dtype": dtype, "name": name}, "zero_point": zp,
                "scale": scale, "LUT": None}
    fin, q, fout = node(None, None, "float32", [1, 2], "in"), node(0.5 + tag / 1024, tag % 7, "int8", [1, 2], "q"), \
        node(None, None, "float32", [1, 2], "out")
    return {
        "ir_version": "1.0.0", "engine": "TFLITE", "generated_at": f"net-{tag}", "operators": 2,
        "graph": [
            {"op_type": "QUANTIZE", "name": "QUANTIZE", "inputs": [fin], "outputs": [q], "description": None, "attributes": {}},
            {"op_type": "DEQUANTIZE", "name": "DEQUANTIZE", "inputs": [q], "outputs": [fout], "description": None,
             "attributes": {}}],
        "input": [q], "output": [q],
    }


def edit(ch, net):
    """The caller changes its network in place."""
    q = net.schema["graph"][0]["outputs"][0]
    k = ch.draw(3)
    if k == 0:
        q["scale"] = ch.between(1, 4000) / 4096
    elif k == 1:
        q["zero_point"] = ch.between(-60, 60)
    else:
        net.schema["generated_at"] = f"edited-{ch.between(0, 999)}"


def make_net(tag):
    return SequentialNetwork(schema(tag))


FAULTS = {
    "R01": (("drop_reply", "delay_reply", "dup_reply", "damage_reply", "damage_first", "stall_device", "drop_request"),
            ("cut", "down", "crash", "skew", "foreign", "replay", "garbage")),
    "R02": (("drop_reply", "delay_reply", "dup_reply", "stall_device", "drop_request"), ("cut", "crash", "skew")),
    "R03": (("drop_reply", "delay_reply", "dup_reply", "damage_reply", "stall_device", "drop_request"),
            ("cut", "cut", "down", "crash", "skew", "skew", "garbage", "replay")),
    "R04": (("damage_first", "dup_reply", "damage_reply"), ("garbage", "garbage", "foreign", "replay")),
    "R05": (("drop_reply", "delay_reply", "dup_reply", "damage_reply", "damage_first", "stall_device", "drop_request"),
            ("cut", "down", "crash", "skew", "garbage")),
}


class World:
    """One client process, the broker and the device."""

    def __init__(self, ctx, prop, kind, clean=False):
        self.ctx, self.ch, self.prop, self.kind = ctx, ctx.ch, prop, kind
        ch = self.ch
        self.sim = sim = ctx.sim(max_time=5000.0)
        sim.configure(weights=(2, 3, 3), slow=(0.0,) if clean or prop == "R04" else (0.0, 0.0, 0.0, 0.002) if prop == "S01" else (0.0, 0.0, 0.02, 0.1))
        self.clean = clean
        self.faults = {}
        if not clean:
            for k in FAULTS[prop][0]:
                p = ch.pick((0, 0, 0.08, 0.25, 0.6))
                if p:
                    self.faults[k] = p
        self.timeout = ch.pick((3, 1, 2, 0.5))
        self.options = {} if prop == "S01" else ch.pick(({}, {}, {"qos": 0}, {"qos": 1}))
        lat = ch.pick(((0.001,), (0.0,), (0.0, 0.001, 0.02), (0.0, 0.03)))
        self.broker = Broker(sim, dict(self.faults), lat)
        self.broker.delay_unit = self.timeout
        self.broker.late_dups = prop == "R01"
        proc = ch.pick(((0.002,), (0.0,), (0.0, 0.01, 0.04)))
        if kind == "infer":
            self.dev = Device(self.broker, TOPICS.MODEL_UPDATE, TOPICS.INFER, TOPICS.RESULT, None, proc)
        else:
            self.dev = Device(self.broker, TOPICS.MODEL_UPDATE, None, None, TOPICS.INFER_LOSS, proc)
        self.result_topic = TOPICS.RESULT if kind == "infer" else TOPICS.INFER_LOSS
        self.calls = []
        self.client = None
        self.loop_thread = None
        self.garbage_sent = 0

    # ---- environment
    def schedule_events(self, horizon):
        if self.clean:
            return
        kinds = FAULTS[self.prop][1]
        for _ in range(self.ch.draw(5)):
            k = self.ch.pick(kinds)
            t = self.ch.draw(1000) / 1000 * horizon
            self.sim.at(t, lambda k=k: self.event(k), k)
        if self.prop == "R04":      # garbage right around the answers
            hooked = self.ch.pick((0, 0.3, 0.8))
            if hooked:
                def near(topic, data, qos):
                    if self.active and self.ch.chance(hooked):
                        self.sim.after(self.ch.pick((0.0, 0.0005, 0.002, 0.004, 0.05)), lambda: self.event("garbage"))
                self.broker.on_publish_observed = near

    active = True
    crowd = False                    # several threads call at once

    def event(self, k):
        if not self.active:
            return
        b, ch = self.broker, self.ch
        self.sim.log("event", k)
        if k == "cut":
            b.cut()
        elif k == "down":
            b.go_down(ch.pick((0.5, 2.0, 10.0)))
        elif k == "crash":
            self.dev.crash(ch.pick((0.1, 1.0, 5.0)))
        elif k == "skew":
            self.sim.count("wall_clock_jump")
            self.sim.wall_skew += ch.pick((3600.0, -3600.0, 1.5, -1.5, 1e8, -1e8))
        elif k == "garbage":
            self.sim.count("garbage_message")
            self.garbage_sent += 1
            b.route(self.result_topic, self.garbage())
        elif k == "foreign":
            self.sim.count("foreign_result")
            rows = ch.pick((1, 2, 3, 5))
            rid = ch.pick(("0", "1", "2", "ffffffffffffffffffffffffffffffff", "", "17"))
            last = self.last_request() if ch.chance(0.5) else None
            if last is not None:     # almost the identifier of the last request
                rows, rid = last["shape"][0], near_miss(ch, last["id"])
            b.route(self.result_topic, json.dumps(
                {"id": rid, "shape": [rows, 1], "tensor": [-1.0 - i for i in range(rows)]}).encode())
        elif k == "replay":
            if b.msgs:
                self.sim.count("replayed_message")
                topic, data = b.msgs[ch.pick(sorted(b.msgs))]
                b.route(topic, data)

    def last_request(self):
        try:
            r = json.loads(self.broker.published[-1][2])["input"]
            return r if r["shape"][0] > 0 and "id" in r else None
        except (IndexError, ValueError, KeyError, TypeError):
            return None

    def garbage(self):
        ch = self.ch
        g = ch.pick(GARBAGE)
        if self.kind == "infer" and ch.chance(0.4) and self.broker.published:
            try:     # malformed, but with the identifier of the last request
                req = json.loads(self.broker.published[-1][2])["input"]
                g = ch.pick([
                    {"id": req["id"]}, {"id": req["id"], "shape": req["shape"]},
                    {"id": req["id"], "tensor": [1.0]}, {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": "x"},
                    {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": ["a"] * req["shape"][0]},
                    {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": [None] * req["shape"][0]},
                    {"id": req["id"], "shape": [req["shape"][0] + 3, 1], "tensor": [1.0] * (req["shape"][0] + 3)},
                    {"id": req["id"], "shape": [], "tensor": 3.5},
                    {"id": req["id"], "shape": [req["shape"][0], 2], "tensor": [1.0] * req["shape"][0]},
                    {"id": req["id"], "shape": None, "tensor": None},
                    {"id": req["id"], "shape": [req["shape"][0], -1], "tensor": [1.0] * req["shape"][0]},
                    {"id": req["id"], "shape": [-1, 1], "tensor": [1.0] * req["shape"][0]},
                    {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": [True] * req["shape"][0]},
                    {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": ["1.5"] * req["shape"][0]},
                    {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": [10 ** 400] * req["shape"][0]},
                    {"id": req["id"], "shape": [req["shape"][0], 1], "tensor": [[1.0], [2.0, 3.0]] * req["shape"][0]},
                    {"id": req["id"], "shape": [str(req["shape"][0]), "1"], "tensor": [1.0] * req["shape"][0]},
                ])
                g = json.dumps(g).encode()
            except (ValueError, KeyError, TypeError):
                pass
        return g

    def fault_free(self):
        return not self.faults and not self.sim.slow

    # ---- client process
    def start_client(self):
        early = self.ch.draw(2)
        while self.client is None:
            try:
                self.client = create_client("verif", "u", "p", "broker", 1883, 60)
            except OSError:          # the broker cannot be reached now: the user tries again
                self.sim.block(self.sim.now + 1.0)
        if early:
            self.start_loop()
        try:
            if self.kind == "infer":
                self.remote = InferFPGAMQTT(self.client, TOPICS.RESULT, TOPICS.MODEL_UPDATE, TOPICS.INFER, self.max_batch,
                                            timeout=self.timeout, **self.options)
            else:
                self.remote = LossFPGA(self.client, TOPICS.INFER_LOSS, TOPICS.MODEL_UPDATE, timeout=self.timeout,
                                       **self.options)
        except AttributeError as e:
            self.ctx.fail("client-broken", f"the client can not be created: {e!r}")
        if not early:
            self.start_loop()

    def start_loop(self):
        self.loop_thread = threading.Thread(target=self.client.loop_forever, daemon=True, name="mqtt-loop")
        self.loop_thread.start()

    def call(self, net, x=None):
        sim, b = self.sim, self.broker
        c = {"net": net, "schema": json.loads(json.dumps(net.schema)), "x": x, "t0": sim.now, "b0": b.tick(), "p0": len(b.published),
             "stall0": sum(t.stall for t in sim.threads), "th": sim.cur.id, "ret": None, "exc": None, "done": False, "calm": self.clean or not self.active,
             "faults0": sum(sim.counts.values())}
        self.calls.append(c)
        sim.log("call", len(self.calls))
        xin = None if x is None else gen.layout(self.ch, x)
        try:
            c["ret"] = self.remote(net) if x is None else self.remote(net, xin)
        except Exception as e:  # noqa: BLE001
            c["exc"] = e
        c["t1"], c["b1"], c["p1"] = sim.now, b.tick(), len(b.published)
        c["stall"] = sum(t.stall for t in sim.threads) - c["stall0"]
        c["done"] = True
        sim.log("returned", type(c["exc"]).__name__ if c["exc"] else "ok" if c["ret"] is not None else "none")
        if x is not None and not np.array_equal(xin, x):
            self.ctx.fail("input-modified", "the call changed the caller's array")
        return c

    def quiet(self):
        """Faults stop; wait until connection and device are back."""
        sim = self.sim
        self.active = False
        self.broker.faults = {}
        sim.slow = 0.0
        end = sim.now + 1000
        while sim.now < end:
            if self.broker.connected() and self.client.is_connected() and self.dev.up and self.dev.free_at <= sim.now:
                return True
            sim.block(sim.now + 1.0)
        return False


def near_miss(ch, rid):
    """An identifier that is another one, but close to rid."""
    s = str(rid)
    other = ch.pick((s.upper(), s + " ", " " + s, s + "\n", s[:-1], s[1:], s + "0", s[::-1], s[:-1] + ("0" if s[-1:] != "0" else "1"),
                     [rid], {"id": rid}, "", None))
    return "another" if other == rid else other


def succeeded(c):
    return c["exc"] is None and c["ret"] is not None


def expected_rows(w, c):
    """(answers of each request of call c)"""
    out = []
    for k in range(c["p0"], c["p1"]):
        if w.broker.published[k][1] == TOPICS.INFER and (not w.crowd or w.broker.publisher[k] == c["th"]):
            out.append((k, w.dev.answers.get(k, [])))
    return out


def check_answers(w, c):
    """R01"""
    if not succeeded(c):
        return
    ret = np.asarray(c["ret"])
    alts = []
    for k, ans in expected_rows(w, c):
        if not ans:
            w.ctx.fail("answer-of-another-request",
                       f"the call returned {ret.tolist()} although the device never answered its request number {k}")
        alts.append([np.array(a["tensor"]).reshape(a["shape"]) for a in ans])
    if not alts:
        w.ctx.fail("answer-without-request", f"returned {ret.tolist()} without asking the device")
    want = np.concatenate([a[0] for a in alts])     # duplicates of an answer carry the same payload
    if any(len(a) > 1 for a in alts):
        raise core.HarnessError("one publish answered twice by the device")
    if ret.shape != want.shape or not np.array_equal(ret, want):
        w.ctx.fail("answer-of-another-request", f"returned {ret.tolist()}, the device's answers to this call were {want.tolist()}")


def check_requests(w, c):
    """R02"""
    pub = w.broker.published[c["p0"]:c["p1"]]
    x, ctx = c["x"], w.ctx
    if not pub:
        if succeeded(c) or w.fault_free():
            ctx.fail("nothing-published", f"the call for {x.shape} with max batch {w.max_batch} published nothing "
                                          f"({c['exc']!r})")
        return
    if pub[0][1] != TOPICS.MODEL_UPDATE:
        ctx.fail("network-not-first", f"first message went to {pub[0][1]}")
    rows, n = [], 0
    for i, (_, topic, data, _q) in enumerate(pub):
        if topic == TOPICS.MODEL_UPDATE:
            if i:
                ctx.fail("network-sent-again", f"message {i} of the call is a network")
            try:
                d = json.loads(data.decode("utf-8"))
            except ValueError as e:
                ctx.fail("bad-network", f"the published network does not parse: {e}")
            if d != c["schema"]:
                ctx.fail("wrong-network", "the published network is not the one of the call")
            continue
        if topic != TOPICS.INFER:
            ctx.fail("unknown-topic", topic)
        try:
            r = json.loads(data.decode("utf-8"))["input"]
            t = np.array(r["tensor"]).reshape(r["shape"])
            r["id"]
        except Exception as e:  # noqa: BLE001
            ctx.fail("bad-request", f"request does not follow the format: {e!r}")
        if len(t) < 1 or len(t) > w.max_batch:
            ctx.fail("batch-size", f"a request of {len(t)} rows, the limit is {w.max_batch} ({x.shape[0]} rows in the call)")
        rows.append(t)
        n += len(t)
    flat = x.reshape(len(x), -1)
    got = np.concatenate(rows) if rows else flat[:0]
    if n > len(flat) or got.shape[1] != flat.shape[1] or not np.array_equal(got, flat[:n]):
        ctx.fail("rows", f"requests carry {got.tolist()} of the batch {flat.tolist()} (max batch {w.max_batch})")
    if (succeeded(c) or (w.fault_free() and w.clean)) and n != len(flat):
        ctx.fail("rows-missing", f"only {n} of {len(flat)} rows were requested (max batch {w.max_batch}) {c['exc']!r}")


def check_time(w, c):
    """R03, safety part"""
    asked = sum(1 for p in w.broker.published[c["p0"]:c["p1"]] if w.kind == "loss" or p[1] == TOPICS.INFER)
    limit = w.timeout * max(1, asked) + c["stall"] + EPS
    took = c["t1"] - c["t0"]
    if took > limit:
        w.ctx.fail("call-too-long", f"a call with {asked} request(s) and timeout {w.timeout} s took {took:.3f} s")
    # nothing goes wrong: every answer is back within 0.2 s
    if c["calm"] and succeeded(c) and took > 0.8 * w.timeout * max(1, asked) + c["stall"]:
        w.ctx.fail("not-prompt", f"nothing went wrong, but a call with {asked} request(s) and timeout {w.timeout} s took {took:.3f} s")


def check_loop(w):
    if w.loop_thread is None:
        return
    th = w.loop_thread._th
    if th.started and th.state is core.DONE and not isinstance(th.exc, core.SimAbort):
        w.ctx.fail("receiver-died", f"the thread that receives messages ended: {th.exc!r}")


def same_loss(a, b):
    return a == b or (a != a and b != b)


def check_loss(w, c):
    """R05"""
    b, ctx = w.broker, w.ctx
    pub = b.published[c["p0"]:c["p1"]]
    if len(pub) != 1 or pub[0][1] != TOPICS.MODEL_UPDATE:
        if pub or succeeded(c) or w.fault_free():
            ctx.fail("not-published-once", f"the call published {[(p[1]) for p in pub]}")
    for p in pub:
        try:
            same = json.loads(p[2].decode()) == c["schema"]
        except ValueError:
            same = False
        if not same:
            ctx.fail("wrong-network", "the published network is not the one of the call")
    if c["exc"] is not None:
        return
    v = c["ret"]
    if v is None:
        ctx.fail("no-error", "a call that got no loss returned None instead of raising an error")
    hit = [m for m, lv in w.dev.losses if same_loss(lv, v)]
    if not hit:
        ctx.fail("not-a-loss", f"returned {v!r}, which the device never reported")
    rx = []
    for uid, (topic, data) in b.msgs.items():
        if uid in b.rx:
            try:
                if same_loss(json.loads(data.decode())["loss"], v):
                    rx.append(b.rx[uid])
            except Exception:  # noqa: BLE001
                pass
    fresh = [r for r in rx if (r[1] is None or r[1] > c["b0"]) and r[0] < c["b1"]]
    if not fresh:
        ctx.fail("loss-of-before", f"returned {v!r}, received before the call began")
    if hit[0] != c["schema"]:
        ctx.known("stale-loss", f"returned {v!r}, the loss of the network of an earlier call, received during this call")


def finish(w, ncalls):
    sim = w.sim
    main = sim.threads[0]
    if sim.deadlock or sim.hang:
        w.ctx.fail("hang", f"a call never returned ({sim.hang or 'every thread is blocked'})")
    for t in sim.threads:
        if t.exc is not None and t.name in ("caller", "caller2"):
            raise t.exc
    if len(w.calls) < ncalls:
        raise core.HarnessError("calls missing")


def describe(w, extra):
    ctx = w.ctx
    ctx.sample = {"kind": w.kind, "timeout_s": w.timeout, "faults": w.faults, "events": dict(w.sim.counts),
                  "preemption": w.sim.preempt, "slow": w.sim.slow,
                  "calls": [{"x": None if c["x"] is None else list(c["x"].shape), "ok": succeeded(c),
                             "s": round(c["t1"] - c["t0"], 4) if c["done"] else None} for c in w.calls], **extra}
    ctx.sig = [w.kind, w.timeout, sorted(w.faults), [(None if c["x"] is None else c["x"].shape, succeeded(c)) for c in w.calls],
               sorted(w.sim.counts.items())]
    ctx.nontrivial = w.sim.preemptions > 0 or bool(w.sim.counts)


def make_x(ch, n):
    seed = ch.subseed()
    r = np.random.RandomState(seed)
    k = ch.draw(4)
    if k == 0:
        shape = (n, ch.pick((1, 2, 3)))
    elif k == 1:
        shape = (n,)
    elif k == 2:
        shape = (n, 2, ch.pick((1, 3)))
    else:
        shape = (n, 2)
    x = r.randn(*shape).round(ch.pick((3, 8)))
    t = ch.pick((np.float64, np.float32, np.float64, np.float32, np.int64, np.int8))
    return (x * 40 if np.dtype(t).kind == "i" else x).astype(t)


def infer_run(ctx, prop):
    ch = ctx.ch
    clean = ch.chance(0.35 if prop in ("R02", "R04") else 0.15)
    w = World(ctx, prop, "infer", clean)
    w.max_batch = ch.pick((128, 200, 250)) if prop in ("R02", "R04") and ch.chance(0.03) else ch.pick((2, 1, 3, 4, 5, 8))
    ncalls = ch.between(1, 4)
    # what a call may have to deliver: garbage alone must not make it fail
    gentle = prop == "R04" and not w.faults.get("damage_reply")
    w.schedule_events(w.timeout * ncalls * ch.pick((0.01, 0.3, 1.0)))

    def other():
        for i in range(ch.between(1, 3)):
            w.call(make_net(7 + i), make_x(ch, ch.between(1, 9)))

    def main():
        w.start_client()
        nets = [make_net(i) for i in range(ch.between(1, 2))]
        if prop == "R01" and ch.chance(0.2):
            w.crowd = True
            ctx.count("concurrent_callers")
            w.sim.spawn(other, "caller2")
        again = None                  # the batch may be one of before
        for i in range(ncalls):
            n = ch.between(10, 70) if ch.chance(0.03) else ch.between(1, 9)
            if w.max_batch > 8:
                n = max(1, w.max_batch * ch.between(0, 2) + ch.between(-2, 2))
            if again is None or not ch.chance(0.3):
                again = make_x(ch, n)
            if prop == "R02" and i and ch.chance(0.25):
                edit(ch, nets[i % len(nets)])
            c = w.call(nets[i % len(nets)], again)
            if (clean or gentle) and not succeeded(c) and prop != "R01":
                ctx.fail("call-failed", f"nothing was lost, but the call for {c['x'].shape} with max batch {w.max_batch} "
                                        f"failed: {c['exc']!r}")
            if ch.chance(0.3):
                sim = w.sim
                sim.block(sim.now + ch.pick((0.0, 0.5, 2.0, 8.0)))
        if not clean and prop in ("R01", "R03", "R04"):
            ok = w.quiet()
            check_loop(w)
            if not ok:
                ctx.fail("no-reconnection", "the client did not connect again after faults stopped")
            w.recovered = True
            c = w.call(nets[0], again if again is not None and ch.chance(0.3) else make_x(ch, ch.between(1, 6)))
            if not succeeded(c) and prop != "R01":
                ctx.fail("no-recovery", f"faults stopped and the connection is back, but the call failed: {c['exc']!r}")

    w.sim.spawn(main, "caller")
    w.sim.run()
    describe(w, {"max_batch": w.max_batch})
    finish(w, ncalls)
    for c in w.calls:
        if prop in ("R01", "R04"):
            check_answers(w, c)
        if prop == "R02":
            check_requests(w, c)
        if prop == "R03":
            check_time(w, c)
    if prop in ("R03", "R04"):
        check_loop(w)
    if prop == "R02" and w.dev.bad:
        ctx.fail("bad-message", f"{w.dev.bad[0]}")


def loss_run(ctx, prop):
    ch = ctx.ch
    clean = ch.chance(0.35 if prop == "R04" else 0.15)
    w = World(ctx, prop, "loss", clean)
    ncalls = ch.between(1, 4)
    gentle = prop == "R04" and not w.faults.get("damage_reply")
    w.schedule_events(w.timeout * ncalls * ch.pick((0.01, 0.3, 1.0)))

    def main():
        w.start_client()
        nets = [make_net(i) for i in range(ncalls + 1)]
        for i in range(ncalls):
            if prop == "R05" and i and ch.chance(0.25):
                nets[i] = nets[i - 1]    # the same object, changed in place
                edit(ch, nets[i])
            c = w.call(nets[i])
            if (clean or gentle) and not succeeded(c):
                ctx.fail("call-failed", f"nothing was lost, but the call failed: {c['exc']!r}")
            if ch.chance(0.3):
                w.sim.block(w.sim.now + ch.pick((0.0, 0.5, 2.0, 8.0)))
        if not clean:
            ok = w.quiet()
            check_loop(w)
            if not ok:
                ctx.fail("no-reconnection", "the client did not connect again after faults stopped")
            c = w.call(nets[ncalls])
            if not succeeded(c):
                ctx.fail("no-recovery", f"faults stopped and the connection is back, but the call failed: {c['exc']!r}")

    w.sim.spawn(main, "caller")
    w.sim.run()
    describe(w, {})
    finish(w, ncalls)
    for c in w.calls:
        if prop == "R03":
            check_time(w, c)
        elif prop == "R05":
            check_loss(w, c)
        elif prop == "R04" and c["exc"] is None:
            if not any(same_loss(c["ret"], v) for _, v in w.dev.losses):
                ctx.fail("garbage-returned", f"returned {c['ret']!r}, which the device never reported")
    check_loop(w)


def r03(ctx):
    (infer_run if ctx.ch.draw(2) == 0 else loss_run)(ctx, "R03")


def r04(ctx):
    (infer_run if ctx.ch.draw(2) == 0 else loss_run)(ctx, "R04")


RUN = {
    "R01": lambda ctx: infer_run(ctx, "R01"),
    "R02": lambda ctx: infer_run(ctx, "R02"),
    "R03": r03,
    "R04": r04,
    "R05": lambda ctx: loss_run(ctx, "R05"),
}
