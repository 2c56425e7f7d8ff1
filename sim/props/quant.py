"""Quantizer and its optimizers (Q01 .. Q08).

Real code: itcl_quantizer (builder, layers, equalizers, rounding, QUBO), itcl_quantization, itcl_inference_engine.
"""
from __future__ import annotations

import copy
import hashlib
import json
import math
import re
import os
import random

import numpy as np

from .. import core, fs
from .qbase import *  # noqa: F401,F403
from .qbase import _real_print, dimod, keras, keras_builder  # noqa: F401


def seed_streams(ch):
    s = ch.subseed()
    STREAMS.main.seed(s)
    STREAMS.reset()
    np.random.seed(s % (1 << 31))
    return s


# --------------------------------------------------------------------------- Q01 / Q02
class Segments:
    """Optimizers made by a factory, with what they reported and what they evaluated."""

    def __init__(self, make, loss, net):
        self.make, self.loss, self.net = make, loss, net
        self.segs = []

    def __call__(self):
        self.close()
        o = self.make()
        real = o.optimize
        me = self

        def optimize(*a, **k):
            seg = {"before": me.loss.of(me.net), "key": canon(me.net.as_json()), "e0": len(me.loss.evals), "rep": None, "done": False}
            me.segs.append(seg)
            r = real(*a, **k)
            seg["e1"] = len(me.loss.evals)
            seg["rep"] = r[1]
            seg["done"] = True
            return r
        o.optimize = optimize
        return o

    def close(self):
        """The network the last optimizer left behind."""
        if self.segs and "after" not in self.segs[-1]:
            self.segs[-1]["after"] = self.loss.of(self.net)
            self.segs[-1]["after_key"] = canon(self.net.as_json())


def judge(ctx, loss, segs, what):
    for n, s in enumerate(segs):
        ev = loss.evals[s["e0"]:s["e1"]]
        before, after, rep = s["before"], s["after"], s["rep"]
        vals = [v for _, v in ev]
        tag = f"{what} {n} ({loss.kind}, {len(ev)} evaluations)"
        if not eq(after, rep):
            ctx.fail("reported-loss", f"{tag}: reports loss {rep}, but the network it leaves behind has loss {after} (before: {before})")
        if not isnan(before) and not after <= before:
            ctx.fail("worse", f"{tag}: the loss was {before} before and is {after} afterwards")
        if not isnan(before):
            best = min([v for v in vals + [before] if not isnan(v)])
            if after != best:
                ctx.fail("not-best", f"{tag}: evaluated a network with loss {best}, but left one with loss {after}")
        if s["after_key"] != s["key"] and s["after_key"] not in {k for k, _ in ev}:
            ctx.fail("never-evaluated", f"{tag}: the network left behind is none of the {len(ev)} that were evaluated (loss {after})")


def q01(ctx):
    ch = ctx.ch
    src = Source(ch)
    seed_streams(ch)
    loss = Loss(ch, src)
    mode = ch.pick(("full", "layers", "build", "build-then-layers"))
    retries = ch.between(0, 6)
    info = {}

    def main():
        if mode in ("full", "layers"):
            net = plain(ctx, src)
            if net is None:
                return
            seg = Segments(lambda: BFSEqualizer(retries), loss, net)
            for _ in range(ch.between(1, 2)):
                (ParamEqualizerFullNet if mode == "full" else ParamEqualizerNet)(net, loss, seg).equalize()
            seg.close()
            info["segs"] = len(seg.segs)
            judge(ctx, loss, seg.segs, "equalisation")
            return
        cfg = QuantizerCfg(dense=dense_cfg(ch), param_equalizer=ParamEqualizerCfg(max_retries=retries))
        base = plain(ctx, src, QuantizerCfg(dense=cfg.dense))
        if base is None:
            return
        net = keras_builder.build(src.path, "out.json", src.x, loss, cfg)
        first, final = loss.of(base), loss.of(net)
        keys = {k for k, _ in loss.evals}
        vals = [v for _, v in loss.evals if not isnan(v)]
        if canon(base.as_json()) not in keys:
            ctx.fail("never-evaluated", "the network as quantized was never evaluated before it was changed")
        if canon(net.as_json()) not in keys:
            ctx.fail("never-evaluated", f"the network a build returned is none of those it evaluated (loss {final})")
        if not isnan(first):
            if not final <= first:
                ctx.fail("worse", f"a build with equalisation raised the loss from {first} to {final}")
            if final != min(vals):
                ctx.fail("not-best", f"a build evaluated a network with loss {min(vals)} but returned one with {final}")
        with open("out.json", encoding="utf-8") as f:
            if canon(json.load(f)) != canon(json.loads(json.dumps(net.as_json()))):
                ctx.fail("file-differs", "the file written is not the network that was returned")
        if mode == "build-then-layers":
            seg = Segments(lambda: BFSEqualizer(retries), loss, net)
            ParamEqualizerNet(net, loss, seg).equalize()
            seg.close()
            judge(ctx, loss, seg.segs, "equalisation")
    in_sim(ctx, main)
    done(ctx, src, loss, mode=mode, retries=retries, **info)


def done(ctx, src, loss, **kw):
    vals = [v for _, v in loss.evals] if loss else []
    best, imp = None, 0
    for v in vals:
        if best is None or v < best:
            imp += best is not None
            best = v
    ctx.count("loss_evaluations", len(vals))
    ctx.count("improvements", imp)
    ctx.count("loss_zero", sum(1 for v in vals if v == 0))
    ctx.count("loss_nan", sum(1 for v in vals if isnan(v)))
    ctx.count("loss_inf", sum(1 for v in vals if not isnan(v) and abs(v) == math.inf))
    ctx.evals = max(1, len(vals))
    ctx.nontrivial = len({k for k, _ in loss.evals}) > 1 if loss else True
    ctx.sample = {"model": src.info, "loss": loss.kind if loss else None, "evaluations": len(vals), **kw}
    ctx.sig = [src.text, src.x.tolist(), vals[:50], sorted((k, str(v)) for k, v in kw.items())]


def q02(ctx):
    ch = ctx.ch
    src = Source(ch)
    seed_streams(ch)
    loss = Loss(ch, src)
    mode = ch.pick(("net", "net", "build"))
    info = {}

    def main():
        if mode == "net":
            net = plain(ctx, src)
            if net is None:
                return
            args, make = factory_for(ch)
            info.update(args)
            seg = Segments(make, loss, net)
            for _ in range(ch.pick((1, 1, 2))):
                AdaroundNet(net, loss, seg).round()
            seg.close()
            judge(ctx, loss, seg.segs, "rounding")
            info["segs"] = len(seg.segs)
            return
        cfg = QuantizerCfg(dense=dense_cfg(ch), ada_round_net=adaround_cfg(ch))
        base = plain(ctx, src, QuantizerCfg(dense=cfg.dense))
        if base is None:
            return
        net = keras_builder.build(src.path, "out.json", src.x, loss, cfg)
        first, final = loss.of(base), loss.of(net)
        vals = [v for _, v in loss.evals if not isnan(v)]
        if not loss.evals:
            if canon(net.as_json()) != canon(base.as_json()):
                ctx.fail("never-evaluated", "the rounding changed without an evaluation")
            return
        if canon(net.as_json()) not in {k for k, _ in loss.evals}:
            ctx.fail("never-evaluated", f"the network a build returned is none of those it evaluated (loss {final})")
        if not isnan(first):
            if not final <= first:
                ctx.fail("worse", f"a build with adaptive rounding raised the loss from {first} to {final}")
            if final != min(vals):
                ctx.fail("not-best", f"a build evaluated a network with loss {min(vals)} but returned one with {final}")
    in_sim(ctx, main)
    done(ctx, src, loss, mode=mode, **info)


# --------------------------------------------------------------------------- Q03
RANGES = {}


def int_range(dtype):
    if dtype not in RANGES:
        bits = int("".join(c for c in dtype if c.isdigit()))
        RANGES[dtype] = (0, 2 ** bits - 1) if dtype.lower().startswith("u") else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    return RANGES[dtype]


def near_floor(x, tol):
    """Smallest and largest floor of numbers within tol of x."""
    return np.floor(x - tol), np.floor(x + tol)


def check_ints(q, w, s, zp, dtype, tol_rel=1e-6):
    """Why q is not a rounding of w under s and zp, or None."""
    q, w = np.asarray(q), np.asarray(w, dtype=np.float64)
    if q.shape != w.shape:
        return f"has shape {q.shape}, the weights have {w.shape}"
    lo, hi = int_range(dtype)
    x = w / s + zp
    a, b = near_floor(x, tol_rel * (1 + np.abs(x)))
    qa, qb = np.clip(a, lo, hi), np.clip(b + 1, lo, hi)
    bad = ~((q >= qa) & (q <= qb))
    if bad.any():
        k = tuple(int(v[0]) for v in np.nonzero(bad))
        return f"element {k} is {q[k]}: {w[k]} under scale {s} and zero point {zp} is {x[k]:.6g} ({dtype})"
    return None


def tanh_(x):
    return np.tanh(x)


def sigmoid_(x):
    return 1 / (1 + np.exp(-np.clip(x, -700, 700)))


FN = {"TANHLUT": tanh_, "SIGMOIDLUT": sigmoid_, "LOGISTICLUT": sigmoid_}


def check_lut(lut, fn, node_in, node_out):
    dt = node_in["tensor"]["dtype"]
    lo, hi = int_range(dt)
    dom = np.arange(lo, hi + 1)
    table = lut["LUT"]
    if len(table) != len(dom):
        return f"has {len(table)} entries for {dt}"
    if lut["offset"] != -lo:
        return f"has offset {lut['offset']} for {dt}"
    y = fn((dom - node_in["zero_point"]) * node_in["scale"])
    return check_ints(table, y, node_out["scale"], node_out["zero_point"], dt, tol_rel=2e-5)


def check_params(node):
    """Scales are positive, zero points are values of the type."""
    s, zp, t = node.get("scale"), node.get("zero_point"), node.get("tensor") or {}
    dt = str(t.get("dtype") or "")
    if s is not None and not (s > 0 and math.isfinite(s)):
        return f"has scale {s}"
    if zp is not None and re.fullmatch(r"u?int\d+", dt.lower()):
        lo, hi = int_range(dt)
        if not lo <= zp <= hi or zp != int(zp):
            return f"has zero point {zp}, which is no {dt}"
    return None


def audit_schema(schema, src):
    """Black box: what the description says against the source model.  Yields (class, message)."""
    dense = [l for l in src.model.layers if l.__class__.__name__ == "Dense"]
    lstm = [l for l in src.model.layers if l.__class__.__name__ == "LSTM"]
    nd = 0
    for op in schema["graph"]:
        for node in op["inputs"] + op["outputs"]:
            why = check_params(node)
            if why:
                yield "parameters", f"{node.get('name') or op['name']} {why}"
    for op in schema["graph"]:
        t, ins = op["op_type"], op["inputs"]
        if t == "FULLY_CONNECTED":
            if nd >= len(dense):
                yield "layers", "more dense operators than layers"
                return
            w = dense[nd].get_weights()
            k = np.transpose(np.asarray(w[0], dtype=np.float64))
            b = np.asarray(w[1] if len(w) > 1 else np.zeros(k.shape[0]), dtype=np.float64)
            nd += 1
            for what, node, fp in (("kernel", ins[1], k), ("bias", ins[2], b)):
                why = check_ints(node["tensor"]["tensor"], fp, node["scale"], node["zero_point"], node["tensor"]["dtype"], 2e-6)
                if why:
                    yield what, f"the {what} of {op['name']}: {why}"
            want = ins[0]["scale"] * ins[1]["scale"]
            if not abs(ins[2]["scale"] - want) <= 1e-9 * abs(want):
                yield "bias-scale", f"the bias scale of {op['name']} is {ins[2]['scale']}, not input scale * kernel scale = {want}"
            if ins[2]["zero_point"] != 0:
                yield "bias-scale", f"the bias zero point of {op['name']} is {ins[2]['zero_point']}"
        elif t in FN:
            lut = ins[0].get("LUT")
            if not lut:
                yield "table", f"{op['name']} has no table"
                continue
            why = check_lut(lut, FN[t], ins[0], op["outputs"][0])
            if why:
                yield "table", f"the table of {op['name']} {why}"
        elif t == "LSTM":
            w = [np.asarray(a, dtype=np.float64) for a in lstm[0].get_weights()]
            u = w[1].shape[0]
            for g, gate in enumerate(("input", "forget", "cell", "output")):
                sl = slice(g * u, (g + 1) * u)
                for what, node, fp in (("kernel", ins[1 + g], w[0][:, sl]), ("recurrent", ins[5 + g], w[1][:, sl]),
                                       ("bias", ins[9 + g], w[2][sl])):
                    why = check_ints(node["tensor"]["tensor"], fp, node["scale"], node["zero_point"], node["tensor"]["dtype"], 2e-6)
                    if why:
                        yield "lstm", f"the {what} of gate {gate}: {why}"
                want = ins[0]["scale"] * ins[1 + g]["scale"]
                if not abs(ins[9 + g]["scale"] - want) <= 1e-9 * abs(want):
                    yield "lstm", f"the bias scale of gate {gate} is {ins[9 + g]['scale']}, not {want}"
                want = op["outputs"][0]["scale"] * ins[5 + g]["scale"]
                if not abs(ins[13 + g]["scale"] - want) <= 1e-9 * abs(want):
                    yield "lstm", f"the sum scale of gate {gate} is {ins[13 + g]['scale']}, not {want}"
            fns = (sigmoid_, sigmoid_, tanh_, sigmoid_, tanh_)
            for i, fn in zip(range(22, 32, 2), fns):
                why = check_lut(ins[i]["LUT"], fn, ins[i], ins[i + 1])
                if why:
                    yield "lstm", f"the table of input {i} {why}"
    if nd != len(dense):
        yield "layers", f"{nd} dense operators for {len(dense)} layers"
    # a node shared by two operators is described in the same way in both
    ops = schema["graph"]
    for a, b in zip(ops, ops[1:]):
        x, y = a["outputs"][0], b["inputs"][0]
        if (x["scale"], x["zero_point"]) != (y["scale"], y["zero_point"]) and x["scale"] is not None and y["scale"] is not None:
            yield "chain", f"{b['name']} reads scale {y['scale']}/{y['zero_point']}, {a['name']} writes {x['scale']}/{x['zero_point']}"


def audit_nodes(net):
    """White box: integers and tables are the ones of the node's own rounding."""
    for op in net.as_operators():
        for node in list(op.inputs) + list(op.outputs):
            rp = getattr(node, "rounding_policy", None)
            js = node.as_json()
            stored = js["tensor"] and js["tensor"]["tensor"]
            if stored is not None and rp is not None:
                rp = np.asarray(rp)
                if not np.isin(rp, (0, 1)).all():
                    yield "rounding", f"the rounding of {node.name} is not binary"
                    continue
                x = np.asarray(node.fp_tensor, dtype=np.float64) / node.scale + node.zero_point
                a, b = near_floor(x, 1e-9 * (1 + np.abs(x)))
                lo, hi = int_range(js["tensor"]["dtype"])
                q = np.asarray(stored)
                if not ((q >= np.clip(a + rp, lo, hi)) & (q <= np.clip(b + rp, lo, hi))).all():
                    yield "rounding", f"the integers of {node.name} are not those of its rounding, scale {node.scale} and zero point"
            lut = node.LUT
            if lut is not None:
                nxt = [o for o in net.as_operators() if o.inputs and o.inputs[0] is node and o is not op and callable(o.layer)]
                for o in nxt[:1]:
                    t = o.as_json()["op_type"]
                    if t not in FN:
                        continue
                    out = o.outputs[0]
                    lo, hi = int_range(js["tensor"]["dtype"])
                    dom = np.arange(lo, hi + 1)
                    y = FN[t]((dom - node.zero_point) * node.scale) / out.scale + out.zero_point
                    a, b = near_floor(y, 2e-5 * (1 + np.abs(y)))
                    r = np.asarray(lut.rounding_policy)
                    tab = np.asarray(js["LUT"]["LUT"])
                    if not ((tab >= np.clip(a + r, lo, hi)) & (tab <= np.clip(b + r, lo, hi))).all():
                        yield "table-rounding", f"the table of {o.name} is not that of its rounding and current parameters"


def audit(ctx, net, schema, src, when):
    ctx.count("audits")
    for cls, msg in audit_schema(schema, src):
        ctx.fail(cls, f"{when}: {msg}")
    if net is not None:
        for cls, msg in audit_nodes(net):
            ctx.fail(cls, f"{when}: {msg}")


def q03(ctx):
    ch = ctx.ch
    src = Source(ch, hidden=("linear", "tanh", "sigmoid", "relu", "tanh", "sigmoid"))
    seed_streams(ch)
    loss = Loss(ch, src)
    mode = ch.pick(("build", "optimizers", "optimizers", "nodes"))
    info = {"mode": mode}

    def main():
        if mode == "build":
            cfg = config(ch, qubo=not src.lstm)
            loss.on_call = lambda n, k, v: audit(ctx, None, n.schema, src, f"evaluation {len(loss.evals)}")
            dimod.answer = random_answers(ch)
            net = build_ok(ctx, lambda: keras_builder.build(src.path, "out.json", src.x, loss, cfg))
            if net is None:
                return
            loss.on_call = None
            with open("out.json", encoding="utf-8") as f:
                audit(ctx, None, json.load(f), src, "the file written")
            audit(ctx, net, net.as_json(), src, "the network returned")
            return
        net = plain(ctx, src)
        if net is None:
            return
        audit(ctx, net, net.as_json(), src, "as quantized")
        loss.on_call = lambda n, k, v: audit(ctx, net, n.schema, src, f"{info.get('step')}, evaluation {len(loss.evals)}")
        if mode == "optimizers":
            for i in range(ch.between(1, 3)):
                kind = ch.draw(3 if src.lstm else 4)
                info["step"] = f"optimizer {i} ({('full equaliser', 'layer equaliser', 'rounding', 'QUBO')[kind]})"
                if kind < 2:
                    r = ch.between(0, 4)
                    (ParamEqualizerFullNet, ParamEqualizerNet)[kind](net, loss, lambda: BFSEqualizer(r)).equalize()
                elif kind == 2:
                    AdaroundNet(net, loss, factory_for(ch)[1]).round()
                else:
                    from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
                    dimod.answer = random_answers(ch)
                    AdaroundNet(net, loss, QUBOAnnealer).round()
                audit(ctx, net, net.as_json(), src, f"after {info['step']}")
            return
        for i in range(ch.between(1, 6)):
            turn(ch, net, info, i)
            audit(ctx, net, net.as_json(), src, f"after {info['step']}")
    in_sim(ctx, main)
    dimod.answer = None
    done(ctx, src, loss, **info)
    ctx.nontrivial = True


def turn(ch, net, info, i):
    """One use of the public operations of a node."""
    ops = [o for o in net.as_operators() if o.as_json()["op_type"] in ("FULLY_CONNECTED",) + tuple(FN)]
    if not ops:
        info["step"] = "nothing"
        return
    op = ch.pick(ops)
    t = op.as_json()["op_type"]
    k = ch.draw(4)
    if k <= 1:
        # parameters of an input, kernel, sum or activation output node
        nodes = [op.outputs[0]] + ([op.inputs[0], op.inputs[1]] if t == "FULLY_CONNECTED" else [op.inputs[0]])
        node = ch.pick(nodes)
        # the parameters of an LSTM are fixed when it is quantized: no optimizer touches them
        fixed = any(node is n for o in net.as_operators() if o.as_json()["op_type"] == "LSTM" for n in list(o.inputs) + list(o.outputs))
        if node.as_json()["scale"] is None or fixed:
            info["step"] = f"operation {i}: nothing"
            return
        lo, hi = int_range(node.as_json()["tensor"]["dtype"])
        zp = max(lo, min(hi, int(node.zero_point) + ch.pick((-1, 1, 0, 3, -7))))
        sc = node.scale * ch.pick((0.9, 1.1, 1.0, 1.37, 0.51))
        info["step"] = f"operation {i}: parameters of {node.name}"
        node.update_quant_parameters(sc, zp)
    elif k == 2:
        ts = op.inputs[1:3] if t == "FULLY_CONNECTED" else [op.inputs[0].LUT]
        n = ch.pick([x for x in ts if x is not None])
        rp = np.asarray(n.rounding_policy)
        info["step"] = f"operation {i}: rounding of {op.name}"
        n.rounding_policy = np.array([ch.draw(2) for _ in range(rp.size)]).reshape(rp.shape) if rp.size < 40 else 1 - rp
    else:
        ts = op.inputs[1:3] if t == "FULLY_CONNECTED" else []
        info["step"] = f"operation {i}: rounding of {op.name} reset"
        if ts:
            ch.pick(ts).reset_rounding()


def random_answers(ch):
    """Samplers answer at random (legal, seldom optimal)."""
    r = random.Random(ch.subseed())

    def answer(name, bqm, num_reads):
        if "Exact" in name:
            return None
        vs = bqm.variables
        n = max(1, min(num_reads or 1, 4))
        return [[r.randrange(2) for _ in vs] for _ in range(n)]
    return answer


# --------------------------------------------------------------------------- Q05
class OddError(BaseException):
    """Not an Exception."""


class Refused(Exception):
    """Of the application, with more than a message."""

    def __init__(self, a, b):
        super().__init__(a, b)
        self.a = a


ERRORS = (
    lambda: ValueError("loss"), lambda: RuntimeError("loss"), lambda: KeyError("loss"), lambda: IndexError("loss"),
    lambda: TypeError("loss"), lambda: AttributeError("loss"), lambda: NotImplementedError("loss"), lambda: AssertionError(),
    lambda: ZeroDivisionError("division by zero"), lambda: OverflowError("loss"), lambda: FloatingPointError("loss"),
    lambda: StopIteration(1.0), lambda: StopAsyncIteration(), lambda: GeneratorExit(), lambda: MemoryError(),
    lambda: TimeoutError("no answer"), lambda: ConnectionResetError("broker"), lambda: OSError(28, "No space left on device"),
    lambda: EOFError(), lambda: RecursionError("loss"), lambda: LookupError("loss"), lambda: UnicodeError("loss"),
    lambda: KeyboardInterrupt(), lambda: SystemExit(3), lambda: SystemExit(0), lambda: OddError("loss"), lambda: Refused(1, 2),
    lambda: Warning("loss"), lambda: Exception(), lambda: BaseException("loss"),
)


def answers_of(bqm):
    """A fixed answer for every problem."""
    h = hashlib.sha1(repr(sorted((str(k), round(v, 9)) for k, v in bqm.linear.items())).encode()).digest()
    return [[(h[i % 20] >> (i % 7)) & 1 for i in range(len(bqm.variables))]]


def steady_answers():
    return lambda name, bqm, n: None if "Exact" in name else answers_of(bqm)


OLD = b'{"an": "older model"}'


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def files():
    return sorted(os.listdir("."))


def q05(ctx):
    ch = ctx.ch
    src = Source(ch)
    cfg = config(ch, qubo=not src.lstm and ch.chance(0.3))
    seed = ch.subseed()
    loss_ch = ch
    loss = Loss(loss_ch, src)
    old = ch.draw(2) == 1
    info = {"old_file": old}
    kinds = []

    def build(lo, out):
        STREAMS.reset()
        STREAMS.main.seed(seed)
        np.random.seed(seed % (1 << 31))
        STREAMS.by[0] = random.Random(seed)
        dimod.answer = steady_answers()
        return keras_builder.build(src.path, out, src.x, lo, cfg)

    def main():
        ref = build_ok(ctx, lambda: build(loss, "ref.json"))
        if ref is None:
            return
        n = len(loss.evals)
        info["evaluations_of_a_build"] = n
        if n == 0:
            return
        want = canon(ref.as_json())
        for j in range(ch.between(1, 3)):
            k = ch.pick((1, 2, n, ch.between(1, n), ch.between(1, n)))
            k = min(k, n)
            make = ch.pick(ERRORS)
            exc = make()
            again = ch.draw(2) == 1
            kinds.append([k, type(exc).__name__, "always" if again else "once"])
            out = f"out{j}.json"
            if old:
                with open(out, "wb") as f:
                    f.write(OLD)
            loss.evals = []
            state = {"raised": 0, "after": 0}

            def failing(net):
                if state["raised"]:
                    state["after"] += 1
                    if again:
                        raise make()
                    return 0.0 if ch.draw(2) else loss(net)
                if len(loss.evals) == k - 1:
                    state["raised"] = 1
                    ctx.count("loss_raised_" + type(exc).__name__)
                    raise exc
                return loss(net)
            before = files()
            tag = f"{type(exc).__name__} raised at evaluation {k} of {n} ({'and always after' if again else 'once'})"
            try:
                r = build(failing, out)
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, core.SimAbort):
                    raise
                if e is not exc:
                    ctx.fail("other-error", f"{tag}: the build raised {type(e).__name__}: {e} instead")
            else:
                ctx.fail("swallowed", f"{tag}: the build returned a network ({'as without the error' if canon(r.as_json()) == want else 'another one'})")
            if not state["raised"]:
                ctx.fail("not-repeatable", f"{tag}: the evaluation never happened in a second build with the same seed")
            if state["after"]:
                ctx.fail("went-on", f"{tag}: the build evaluated {state['after']} more networks")
            got = read(out)
            if got != (OLD if old else None):
                ctx.fail("wrote", f"{tag}: the model file {'was changed' if old else 'was written'}")
            extra = [f for f in files() if f not in before and f != out and not f.startswith("Matrix")]
            if extra:
                ctx.fail("left-files", f"{tag}: left the files {extra}")
        loss.evals = []
        last = build(loss, "last.json")
        if canon(last.as_json()) != want:
            ctx.fail("isolation", "after failed builds the same build gives another network")
    in_sim(ctx, main)
    dimod.answer = None
    done(ctx, src, loss, errors=kinds, **info)
    ctx.nontrivial = bool(kinds)


# --------------------------------------------------------------------------- Q06
def scribble(o, seen=None, depth=0):
    """Destroy everything reachable that can be changed in place."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 40:
        return 0
    seen.add(id(o))
    n = 0
    if isinstance(o, dict):
        for v in list(o.values()):
            n += scribble(v, seen, depth + 1)
        for k, v in list(o.items()):
            if isinstance(v, (int, float, str, type(None), bool)):
                o[k] = -7 if isinstance(v, (int, float)) else v
                n += 1
        o["scribble"] = 1
    elif isinstance(o, list):
        for v in o:
            n += scribble(v, seen, depth + 1)
        for k, v in enumerate(o):
            if isinstance(v, (int, float)):
                o[k] = -77
                n += 1
        o.append(99)
    elif isinstance(o, (tuple, set)):
        for v in o:
            n += scribble(v, seen, depth + 1)
    elif isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype != object and o.size:
            o.fill(5)
            n += 1
    elif type(o).__module__.startswith("itcl_inference_engine"):
        for v in list(getattr(o, "__dict__", {}).values()):
            n += scribble(v, seen, depth + 1)
    return n


def answers(net, x):
    try:
        return np.asarray(net.infer(x), dtype=float).tolist()
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}"


def q06(ctx):
    ch = ctx.ch
    src = Source(ch, rows=(2, 3))
    cfg = config(ch)
    seed = ch.subseed()
    loss = Loss(ch, src, kinds=("palette", "rank", "rank", "zeroable"))
    mode = ch.pick(("hold", "hold", "scribble", "threads"))
    info = {"mode": mode}
    held = []
    sim = ctx.sim(max_steps=20_000_000)
    sim.configure(modes=("line", "instr") if mode == "threads" else (None,))
    x = src.x[:2]

    def check(h, when):
        net, key, ans, n = h
        if canon(net.schema) != key:
            a, b = json.loads(key), json.loads(canon(net.schema))
            ctx.fail("changed", f"{when}: the description of the network handed to evaluation {n} has changed ({differ(a, b)})")
        if ans is not None and answers(net, x) != ans:
            ctx.fail("changed-answers", f"{when}: the network handed to evaluation {n} gives other answers than when it was handed over")

    def hold(net, key, v):
        n = len(loss.evals)
        ctx.count("networks_held")
        if len(held) < 60:
            held.append((net, key, answers(net, x) if n % 3 == 1 else None, n))
        if held and ch.draw(3) == 0:
            check(ch.pick(held), f"at evaluation {n}")
            ctx.count("checked_while_optimizing")

    def build(lo, out, c=cfg):
        STREAMS.reset()
        STREAMS.main.seed(seed)
        STREAMS.by[0] = random.Random(seed)
        np.random.seed(seed % (1 << 31))
        return keras_builder.build(src.path, out, src.x, lo, c)

    def watcher():
        for i in range(12):
            if held:
                h = held[ch.draw(len(held))]
                check(h, "on another thread")
                ctx.count("checked_on_another_thread")
            core.time.sleep(0.01)
            if info.get("over"):
                return

    def main():
        loss.on_call = hold
        net = build_ok(ctx, lambda: build(loss, "out.json"))
        info["over"] = True
        if net is None:
            return
        for h in held:
            check(h, "after the build")
        want = canon(net.as_json())
        evals = [k for k, _ in loss.evals]
        first = net.as_json()
        seq = net.as_sequential_network()
        # the returned network does not change through what it gave out
        key = canon(first)
        ctx.count("scribbled", scribble(first))
        ctx.count("scribbled", scribble(seq))
        if canon(net.as_json()) != key:
            ctx.fail("shared", f"modifying a description or network taken from the built network changes it ({differ(json.loads(key), json.loads(canon(net.as_json())))})")
        if mode != "scribble" or not evals:
            return
        pick = ch.between(1, 4)
        loss.on_call = None
        loss.evals = []

        def vandal(net):
            v = loss(net)
            if len(loss.evals) % pick == 0:
                ctx.count("scribbled", scribble(net))
            return v
        again = build(vandal, "out2.json")
        if canon(again.as_json()) != want:
            ctx.fail("influence", "the build gives another network when the loss function modifies the networks it is given "
                     f"({differ(json.loads(want), json.loads(canon(again.as_json())))})")
        if [k for k, _ in loss.evals] != evals:
            ctx.fail("influence", "the optimizer went another way when the loss function modified the networks it is given")
    th = sim.spawn(main, "main")
    if mode == "threads":
        sim.spawn(watcher, "watcher")
    sim.run()
    if sim.hang or sim.deadlock:
        ctx.fail("hang", f"the optimization never ended ({sim.hang})")
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, core.SimAbort):
            raise t.exc
    del th
    info.pop("over", None)
    done(ctx, src, loss, **info)
    ctx.nontrivial = len(held) > 1


def differ(a, b, path=""):
    if type(a) is not type(b):
        return f"{path or 'all'}: {str(a)[:40]} / {str(b)[:40]}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} is gone"
            d = differ(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}.{k} is new"
        return ""
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} elements"
        for i, (u, v) in enumerate(zip(a, b)):
            d = differ(u, v, f"{path}[{i}]")
            if d:
                return d
        return ""
    return "" if a == b or a != a else f"{path}: {a} / {b}"


# --------------------------------------------------------------------------- Q07
class Job:
    def __init__(self, ctx, tag, src=None):
        ch = ctx.ch
        self.tag = tag
        self.own_src = src is None
        self.src = src or Source(ch, tag=tag, rows=(2, 4))
        self.cfg = config(ch, qubo=not self.src.lstm and ch.chance(0.3))
        self.seed = ch.subseed()
        self.loss = Loss(ch, self.src)
        self.with_loss = not ch.chance(0.1)
        self.default_cfg = ch.chance(0.1)
        self.ref = None
        self.shared_file = False
        self.buffer = None

    def run(self, th, out, loss=None):
        if self.shared_file:          # the model file was saved anew since the last build
            self.src.save()
        x = self.src.x
        if self.buffer is not None:   # the caller fills one array again
            x = self.buffer
            x[...] = self.src.x
        STREAMS.by[th] = random.Random(self.seed)
        np.random.seed(self.seed % (1 << 31))
        lo = loss or (self.loss if self.with_loss else None)
        if self.default_cfg:
            return keras_builder.build(self.src.path, out, x, lo)
        return keras_builder.build(self.src.path, out, x, lo, self.cfg)


def image(cfg):
    """Everything a configuration says."""
    def go(o, d=0):
        if d > 8:
            return "..."
        if isinstance(o, dict):
            return sorted((str(k), go(v, d + 1)) for k, v in o.items())
        if isinstance(o, (list, tuple)):
            return [go(v, d + 1) for v in o]
        if hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
            return [type(o).__name__, go(vars(o), d + 1)]
        return repr(o)
    return repr(go(cfg))


def q07(ctx):
    ch = ctx.ch
    mode = ch.pick(("sequence", "sequence", "threads"))
    n = ch.between(2, 3)
    jobs = [Job(ctx, 0)]
    share = ch.draw(4)          # 0: nothing, 1: model and data, 2: model, data and configuration, 3: retrained models
    if share == 3:
        same_file = mode == "sequence" and ch.draw(2) == 1
        if same_file and ch.draw(2):
            jobs[0].buffer = np.empty_like(jobs[0].src.x)
    for i in range(1, n):
        j = Job(ctx, i, src=None if not share else jobs[0].src if share < 3 else
                jobs[0].src.retrained(ch, None if same_file else i))
        if share == 2:
            j.cfg = jobs[0].cfg
        if share == 3:
            j.buffer = jobs[0].buffer
            if ch.draw(2):
                j.cfg, j.seed = jobs[0].cfg, jobs[0].seed
        jobs.append(j)
    if share == 3 and same_file:
        for j in jobs:
            j.shared_file = True
    info = {"mode": mode, "builds": n, "shared": ("nothing", "model and data", "model, data and configuration", "architecture")[share]}
    images = [image(j.cfg) for j in jobs]
    dimod.answer = steady_answers()
    degenerate = []
    outs = {}
    last = [jobs[0]]

    def ref_of(j):
        """Build j in a process of its own: its model, the number of evaluations, and whether its inputs were left alone."""
        got = []
        last[0] = j
        in_sim(ctx, lambda: got.append(build_ok(ctx, lambda: j.run(0, f"ref{j.tag}.json"))))
        untouched("after one build")
        return (None if got[0] is None else canon(got[0].as_json())), len(j.loss.evals)

    def refs():
        for j in jobs:
            j.ref, j.n = ctx.isolated(lambda: ref_of(j))
            if j.ref is None:
                ctx.count("degenerate_model")
                degenerate.append(j.tag)

    def judge_job(j, net, how):
        if j.ref is not None and canon(net.as_json()) != j.ref:
            ctx.fail("isolation", f"build {j.tag} {how} gives another model than alone ({differ(json.loads(j.ref), json.loads(canon(net.as_json())))})")
        with open(f"out{j.tag}.json", encoding="utf-8") as f:
            if canon(json.load(f)) != canon(json.loads(json.dumps(net.as_json()))):
                ctx.fail("file", f"build {j.tag} {how} wrote something else than it returned")

    def untouched(how):
        for j in jobs:
            if j.src.x.tobytes() != j.src.x0.tobytes() or j.src.x.shape != j.src.x0.shape:
                ctx.fail("data", f"{how}: the representative data were modified")
            if j.shared_file and j is not last[0]:
                continue
            with open(j.src.path, encoding="utf-8") as f:
                if f.read() != j.src.text:
                    ctx.fail("source", f"{how}: the source model was modified")
        b = last[0].buffer
        if b is not None and b.tobytes() != last[0].src.x0.tobytes():
            ctx.fail("data", f"{how}: the representative data were modified")
        for j, im in zip(jobs, images):
            if image(j.cfg) != im:
                ctx.fail("config", f"{how}: the configuration was modified: {im} / {image(j.cfg)}")

    class Stop(Exception):
        pass

    def sequence():
        for k in range(ch.between(2, 5)):
            j = last[0] = ch.pick(jobs)
            if ch.draw(3) == 0:
                at = ch.between(1, max(1, j.n))
                seen = [0]

                def bad(net):
                    seen[0] += 1
                    if seen[0] >= at:
                        raise Stop
                    return j.loss(net)
                try:
                    j.run(0, f"bad{k}.json", loss=bad)
                except Stop:
                    ctx.count("failed_builds")
                untouched("after a failed build")
            else:
                net = j.run(0, f"out{j.tag}.json")
                judge_job(j, net, f"as number {k} in one process")
                untouched("after a build")
                ctx.count("repeated_builds")

    def one(sim, j, th):
        def f():
            outs[j.tag] = j.run(th, f"out{j.tag}.json")
        return f

    refs()
    if mode == "sequence":
        if not degenerate:
            in_sim(ctx, sequence)
    else:
        if not degenerate:
            sim = ctx.sim(max_steps=20_000_000)
            sim.configure(modes=("line", "instr"))
            for i, j in enumerate(jobs):
                sim.spawn(one(sim, j, i), f"build{i}")
            sim.run()
            if sim.hang or sim.deadlock:
                ctx.fail("hang", f"concurrent builds never ended ({sim.hang})")
            for t in sim.threads:
                if t.exc is not None and not isinstance(t.exc, core.SimAbort):
                    ctx.fail("isolation", f"{t.name} raised {type(t.exc).__name__}: {t.exc} beside other builds, but not alone")
            for j in jobs:
                judge_job(j, outs[j.tag], "beside other builds")
            untouched("after concurrent builds")
            ctx.count("concurrent_builds", n)
    dimod.answer = None
    done(ctx, jobs[0].src, jobs[0].loss, **info)
    ctx.nontrivial = not degenerate


# --------------------------------------------------------------------------- Q08
def float_inputs(src):
    """Float input and linear output of every dense layer on the representative data."""
    out = []
    x = np.asarray(src.x)
    for l in src.model.layers:
        if type(l).__name__ == "Dense":
            lin = copy.copy(l)
            lin.activation = None
            y = lin(x)
            out.append((np.asarray(x, float), np.asarray(y, float), l))
            x = y if "softmax" in getattr(l.activation, "__name__", "") else l(x)
        elif type(l).__name__ == "LSTM":
            x = l(x)
    return out


def all_bits(n):
    return np.array([[(m >> i) & 1 for i in range(n)] for m in range(1 << n)], dtype=float)


def unit_mse(x, y, k, b, ks, bs, ins, kz, r, kr):
    """Squared output error of every rounding (rows of r: kernel bits and the bias bit) of one unit; kr: floors of the kernel."""
    xr = np.round(x / ins) * ins
    base = xr @ (kr * ks) + np.floor(b / bs) * bs - y            # per sample
    err = base[None, :] + (r[:, :-1] * ks) @ xr.T + (r[:, -1:] * bs)
    return (err ** 2).mean(axis=1)


def floors(k, s):
    """Floors of k/s; both candidates where rounding of the division decides."""
    x = k / s
    f = np.floor(x)
    amb = [i for i in range(len(x)) if abs(x[i] - round(x[i])) < 1e-11 * (1 + abs(x[i]))]
    if len(amb) > 5:
        return None
    out = []
    for m in range(1 << len(amb)):
        g = f.copy()
        for j, i in enumerate(amb):
            g[i] = round(x[i]) - ((m >> j) & 1)
        out.append(g)
    return out


def energies(bqm, bits):
    vs = bqm.variables
    return np.array([bqm.energy(dict(zip(vs, row))) for row in bits]) if len(bits) <= 1 else _energies(bqm, bits)


def _energies(bqm, bits):
    vs = {v: i for i, v in enumerate(bqm.variables)}
    e = np.full(len(bits), bqm.offset)
    for v, c in bqm.linear.items():
        e = e + c * bits[:, vs[v]]
    for (u, v), c in bqm.quadratic.items():
        e = e + c * bits[:, vs[u]] * bits[:, vs[v]]
    return e


def check_qubo(ctx, src, net, calls):
    """calls: (sampler, bqm, rows) answered while the rounding was made."""
    fulls = [o for o in net.as_operators() if o.as_json()["op_type"] == "FULLY_CONNECTED"]
    used = [c for c in calls if "Exact" not in c[0]]
    spectra = []
    for name, bqm, rows in used:
        n = len(bqm.variables)
        e = np.sort(_energies(bqm, all_bits(n)))
        spectra.append((n, e, float(e.mean()), bqm, rows))
    matched, skipped = set(), False
    for (x, y, layer), op in zip(float_inputs(src), fulls):
        kn, bn, inn = op.inputs[1], op.inputs[2], op.inputs[0]
        k = np.transpose(np.asarray(layer.get_weights()[0], float))
        b = np.asarray(layer.get_weights()[1], float) if len(layer.get_weights()) > 1 else np.zeros(len(k))
        rk, rb = np.asarray(kn.rounding_policy), np.asarray(bn.rounding_policy)
        for what, r, shape in (("kernel", rk, k.shape), ("bias", rb, b.shape)):
            if r.shape != shape:
                ctx.fail("shape", f"the {what} rounding of {op.name} has shape {r.shape}, the {what} {shape}")
            if not np.isin(r, (0, 1)).all():
                ctx.fail("not-binary", f"the {what} rounding of {op.name} is not binary: {np.unique(r)[:5]}")
        f = np.abs(x / inn.scale - np.floor(x / inn.scale) - 0.5)
        if (f < 2e-4).any():
            ctx.count("units_with_tied_inputs", len(k))
            skipped = True
            continue
        for l in range(len(k)):
            cand = floors(k[l], kn.scale)
            if cand is None or abs(b[l] / bn.scale - round(b[l] / bn.scale)) < 1e-9 and b[l] != 0:
                ctx.count("ambiguous_units")
                skipped = True
                continue
            bits = all_bits(len(k[l]) + 1)
            applied = np.append(rk[l], rb[l]).astype(float)[None, :]
            seen, close = False, None
            ok = False
            for kr in cand:
                mse = unit_mse(x, y[:, l], k[l], b[l], kn.scale, bn.scale, inn.scale, kn.zero_point, bits, kr)
                ms = np.sort(mse)
                spread = ms[-1] - ms[0]
                # the outputs are calculated in single precision
                dy = 5e-7 * float((np.abs(x) @ np.abs(k[l]) + abs(b[l])).max())
                xr = np.abs(np.round(x / inn.scale) * inn.scale)
                tol = 1e-3 * spread + 1e-7 * ms[-1] + 2 * dy * float((xr.sum(axis=1) * kn.scale + bn.scale).max()) + 1e-15
                mine = unit_mse(x, y[:, l], k[l], b[l], kn.scale, bn.scale, inn.scale, kn.zero_point, applied, kr)[0]
                for at, (n, e, mean, bqm, rows) in enumerate(spectra):
                    if n != bits.shape[1]:
                        continue
                    d = np.abs((e - mean) - (ms - mse.mean())).max()
                    if d > tol:
                        close = d if close is None else min(close, d)
                        continue
                    seen = True
                    matched.add(at)
                    for row in rows:
                        if abs((bqm.energy(row) - mean) - (mine - mse.mean())) <= tol:
                            ok = True
            if not seen:
                ctx.fail("objective", f"unit {l} of {op.name}: no problem submitted has the squared output error of its roundings as energy "
                         f"(nearest differs by {close}, the errors spread over {spread:.4g})")
            if not ok:
                ctx.fail("other-rounding", f"unit {l} of {op.name}: the rounding applied {applied[0].astype(int).tolist()} is not what the sampler "
                         f"answered for its problem")
            ctx.count("units_checked")
    if not skipped and len(matched) < len(spectra):
        ctx.fail("objective", f"{len(spectra) - len(matched)} of the {len(spectra)} problems submitted have the squared output error of no unit "
                 f"as energy")


def q08(ctx):
    ch = ctx.ch
    from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
    src = Source(ch, lstm=ch.chance(0.1), rows=(1, 5))
    seed_streams(ch)
    loss = Loss(ch, src, kinds=("rank", "palette"))
    mode = ch.pick(("direct", "direct", "build", "failure"))
    info = {"mode": mode}
    calls = []
    quality = ch.pick(("random", "random", "best", "worst", "zeros", "ones"))
    reads = ch.pick((1, 1, 3))
    info["answers"] = quality
    r = random.Random(ch.subseed())
    fail_at = [None]
    boom = ERRORS[ch.draw(len(ERRORS))]()
    lasting = ch.chance(0.3)            # it fails from then on, not once
    state = {"now": None, "fired": False, "calls": 0}

    def answer(name, bqm, num_reads):
        vs = bqm.variables
        n = len(vs)
        k = state["calls"]
        state["calls"] += 1
        if fail_at[0] is not None and (k == fail_at[0] or k > fail_at[0] and lasting):
            if not state["fired"]:
                state["fired"] = True
                state["at"] = canon(state["net"].as_json())
            ctx.count("sampler_failures")
            raise boom
        if "Exact" in name:
            calls.append((name, bqm, []))
            return None
        if quality == "random":
            rows = [[r.randrange(2) for _ in vs] for _ in range(reads)]
        elif quality in ("zeros", "ones"):
            rows = [[int(quality == "ones")] * n]
        else:
            bits = all_bits(n)
            e = _energies(bqm, bits)
            rows = [bits[int(np.argmin(e) if quality == "best" else np.argmax(e))].astype(int).tolist()]
        calls.append((name, bqm, rows))
        return rows

    def main():
        dimod.answer = answer
        if mode == "build":
            cfg = config(ch, want=False)
            cfg.ada_round_net = RoundingQUBOCfg()
            if ch.draw(2):
                cfg.param_equalizer = ParamEqualizerCfg(max_retries=ch.between(0, 2))
            net = build_ok(ctx, lambda: keras_builder.build(src.path, "out.json", src.x, loss, cfg))
            if net is not None:
                check_qubo(ctx, src, net, calls)
            return
        net = plain(ctx, src)
        if net is None:
            return
        if ch.draw(3) == 0:
            ParamEqualizerFullNet(net, loss, lambda: BFSEqualizer(ch.between(0, 3))).equalize()
            info["equalised"] = True
        state["net"] = net
        for i in range(ch.pick((1, 1, 2))):
            calls.clear()
            AdaroundNet(net, loss, QUBOAnnealer).round()
            check_qubo(ctx, src, net, calls)
        if mode == "failure" and calls:
            if ch.draw(2):
                net = plain(ctx, src)
                state["net"] = net
            fail_at[0] = ch.draw(len(calls))
            info["fails_at_call"] = fail_at[0]
            calls.clear()
            state["calls"] = 0
            tag = f"the sampler raised {type(boom).__name__} at call {fail_at[0]}"
            try:
                AdaroundNet(net, loss, QUBOAnnealer).round()
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, core.SimAbort):
                    raise
                if e is not boom:
                    ctx.fail("other-error", f"{tag}: {type(e).__name__}: {e} was raised instead")
            else:
                if state["fired"]:
                    ctx.fail("swallowed", f"{tag}: the rounding ended as if it had succeeded")
                return
            if canon(net.as_json()) != state["at"]:
                ctx.fail("half-applied", f"{tag}: the rounding of the layer was changed all the same")
    in_sim(ctx, main)
    dimod.answer = None
    done(ctx, src, loss, **info)
    ctx.nontrivial = bool(calls)


RUN = {"Q01": q01, "Q02": q02, "Q03": q03, "Q05": q05, "Q06": q06, "Q07": q07, "Q08": q08}


# --------------------------------------------------------------------------- Q04
class Killed(core.SimCrash):
    pass


def q04(ctx):
    ch = ctx.ch
    mode = ch.pick(("crash", "crash", "crash", "errors", "errors", "interrupt", "failing", "concurrent", "concurrent"))
    src = Source(ch, rows=(1, 3), layers=(1, 2))
    cfg = config(ch)
    seed = ch.subseed()
    loss = Loss(ch, src)
    with_loss = ch.draw(3) == 0
    where = ch.pick(("plain", "plain", "directory", "link", "relative"))
    old = ch.pick(("absent", "model", "bytes", "huge", "same-size"))
    encoding = ch.pick(("utf-8", "utf-8", "cp1252", "ascii", "utf-16"))     # of the simulated platform
    info = {"encoding": encoding, "mode": mode, "output": where, "old_file": old}
    root = os.getcwd()
    if where == "directory":
        os.mkdir("models")
        out = os.path.join(root, "models", "net.json")
    elif where == "link":
        os.mkdir("store")
        out = os.path.join(root, "net.json")
        if old != "absent":
            os.symlink(os.path.join(root, "store", "real.json"), out)
    elif where == "relative":
        out = "net.json"
    else:
        out = os.path.join(root, "net.json")
    old_bytes = {"absent": None, "bytes": OLD, "huge": b'{"x": "' + b"y" * 70000 + b'"}'}.get(old, b"")

    def build(o=None, th=0, lo=None):
        STREAMS.reset()
        STREAMS.main.seed(seed)
        STREAMS.by[th] = random.Random(seed)
        np.random.seed(seed % (1 << 31))
        dimod.answer = steady_answers()
        return keras_builder.build(src.path, o or out, src.x, lo or (loss if with_loss else None), cfg)

    # the build without faults: what the new file says, and how many operations and steps there are
    dry = {}

    def reference():
        net = build_ok(ctx, lambda: build("dry.json"))
        if net is not None:
            dry["net"] = canon(json.loads(json.dumps(net.as_json())))

    simr = ctx.sim(max_steps=8_000_000)
    simr.configure(modes=(None,))
    fsr = fs.FaultFS(simr, root)
    thr = simr.spawn(reference, "reference")
    first_write = []

    def seen(what, p):
        if p and p.endswith("h5"):
            return
        first_write.append(thr.steps)
    fsr.on_op = seen
    with fs.mounted(fsr):
        simr.run()
    if thr.exc is not None:
        raise thr.exc
    if "net" not in dry:
        done(ctx, src, None, **info)
        ctx.nontrivial = False
        return
    nops, nsteps = fsr.nops, thr.steps
    want = dry["net"]
    if old == "model":
        with open("dry.json", "rb") as f:
            d = json.loads(f.read())
        d["generated_at"] = "the older one"
        old_bytes = json.dumps(d).encode()
    elif old == "same-size":
        with open("dry.json", "rb") as f:
            b = f.read()
        at = [m.start() for m in re.finditer(rb"(?<=: )[1-9](?=[,}\]])|(?<=[\[ ])[1-9](?=[,\]])", b)]
        k = ch.pick(at)
        old_bytes = b[:k] + (b"1" if b[k:k + 1] != b"1" else b"2") + b[k + 1:]
    os.remove("dry.json")
    if old_bytes is not None:
        with open(out, "wb") as f:
            f.write(old_bytes)
    for m in [m for m in os.listdir(root) if m.startswith("Matrix")]:
        os.remove(m)

    def content(p=out):
        return read(p)

    def state(b, news=(want,), olds=(old_bytes,)):
        """What the file at the output path is."""
        if b in olds:
            return "old"
        if b is None:
            return "gone"
        try:
            return "new" if canon(json.loads(b)) in news else "another model"
        except (ValueError, TypeError, AttributeError):
            return f"torn ({len(b)} bytes)"

    def must_be(b, allowed, when, news=(want,)):
        s = state(b, news)
        if s not in allowed:
            ctx.fail("torn" if s.startswith("torn") else "lost" if s == "gone" else "wrong-file",
                     f"{when}: the model file is {s} (there was {'none' if old_bytes is None else 'an older model'})")
        ctx.count("left_" + s)
        return s

    def verify(net, when):
        b = content()
        must_be(b, ("new",), when)
        try:
            loaded = SequentialNetwork.from_json_file(out) if hasattr(SequentialNetwork, "from_json_file") else SequentialNetwork(json.loads(b))
        except Exception as e:  # noqa: BLE001
            ctx.fail("unloadable", f"{when}: the file does not load ({type(e).__name__}: {e})")
        if canon(loaded.schema) != canon(json.loads(json.dumps(net.as_json()))):
            ctx.fail("other-network", f"{when}: the file says something else than the network returned")
        x = src.x
        try:
            y = np.asarray(net.as_sequential_network().infer(x))
        except Exception:  # noqa: BLE001
            return
        if not np.array_equal(np.asarray(loaded.infer(x)), y, equal_nan=True):
            ctx.fail("other-answers", f"{when}: the network loaded from the file gives other answers than the network returned")

    def only(p):
        return not p.endswith(".h5") and "Matrix" not in p

    def attempt(fn, faults=None, arm=None, crash_at=None, exc=None, on_op=None):
        sim = ctx.sim(max_steps=8_000_000)
        sim.configure(modes=(None,))
        f = fs.FaultFS(sim, root, faults or {}, only)
        f.bufsize = bufsize
        f.encoding = encoding
        if arm is not None:
            f.arm(arm)
        f.on_op = on_op
        th = sim.spawn(fn, "builder")
        if crash_at is not None:
            th.crash_at, th.crash_exc = crash_at, exc
        with fs.mounted(f):
            sim.run()
            if sim.hang or sim.deadlock:
                ctx.fail("hang", f"the build never ended ({sim.hang})")
            if sim.frozen and power:
                f.power_loss()
                info["power_loss"] = True
        return sim, th, f

    bufsize = ch.pick((8192, 64, 512))
    power = mode == "crash" and ch.draw(2) == 1
    result = {}

    def body():
        result["net"] = build()

    if mode == "crash":
        exc = core.SimCrash()
        at = ch.draw(3)
        if at == 0:
            k = ch.draw(nops + 12)
            info["killed_at_operation"] = k
            sim, th, f = attempt(body, arm=k)
        else:
            lo = min(first_write) if first_write else nsteps
            k = ch.draw(nsteps + 1) if at == 1 else min(nsteps, max(0, lo - 5)) + ch.draw(40)
            info["killed_at_step"] = k
            sim, th, f = attempt(body, crash_at=k, exc=exc)
        if sim.frozen:
            ctx.count("killed")
            must_be(content(), ("old", "new"), f"killed at {'operation' if at == 0 else 'step'} {k}" + (" and power lost" if power else ""))
        elif th.exc is not None:
            raise th.exc
        else:
            verify(result["net"], "build without a crash")
            if ch.draw(2):          # power is lost after the build has returned
                with fs.mounted(f):
                    f.power_loss()
                must_be(content(), ("old", "new"), "power lost after the build")
        # the next start of the program
        again(ctx, attempt, build, verify, "a build after the crash", result)
    elif mode in ("errors", "failing"):
        kinds = ("enospc", "eio_write", "eio_fsync", "eio_rename", "eio_open", "eio_close", "short_write")
        if mode == "errors":
            faults = {k: p for k in kinds for p in [ch.pick((0, 0, 0.05, 0.3, 1.0) if k != "short_write" else (0, 0.3))] if p}
        else:
            faults = {ch.pick(kinds): ch.pick((1.0, 0.5))}
        info["faults"] = faults
        for i in range(ch.between(1, 3)):
            sim, th, f = attempt(body, faults=faults)
            e = th.exc
            if e is None:
                verify(result["net"], "a build that reported success on a failing disk")
                ctx.count("succeeded_on_failing_disk")
                if ch.draw(2):
                    with fs.mounted(f):
                        f.power_loss()
                    must_be(content(), ("old", "new"), "power lost after a build that reported success on a failing disk")
                break
            if not isinstance(e, OSError):
                raise e
            if not f.errors:
                ctx.fail("short-write", f"the build failed although no operation did: {type(e).__name__}: {e}")
            ctx.count("failed_on_failing_disk")
            must_be(content(), ("old", "new"), f"after a failed build ({type(e).__name__}: {e})")
        again(ctx, attempt, build, verify, "a build after the disk works again", result)
    elif mode == "interrupt":
        exc = ch.pick((KeyboardInterrupt, MemoryError, SystemExit, RuntimeError))()
        if ch.draw(2):
            k = ch.draw(nsteps + 1)
            sim, th, f = attempt(body, crash_at=k, exc=exc)
            at = f"step {k}"
        else:
            k = ch.draw(nops + 12)
            n = [0]

            def on_op(what, p):
                n[0] += 1
                if n[0] == k + 1 and what not in ("close",):
                    ctx.count("interrupted_at_" + what)
                    raise exc
            sim, th, f = attempt(body, on_op=on_op)
            at = f"operation {k}"
        info["interrupted_at"] = at
        if th.exc is None:
            verify(result["net"], "build")
        else:
            if th.exc is not exc and not isinstance(th.exc.__context__, type(exc)):
                raise th.exc
            ctx.count("interrupted")
            must_be(content(), ("old", "new"), f"{type(exc).__name__} at {at}")
        again(ctx, attempt, build, verify, "a build after the interrupted one", result)
    else:
        concurrent(ctx, src, cfg, seed, out, old_bytes, want, info, build, content, must_be, state, root)
    ctx.sims.pop(0)
    done(ctx, src, None, **info)
    ctx.sig.append([bufsize, where, old])
    ctx.nontrivial = True


def again(ctx, attempt, build, verify, what, result):
    def body():
        result["net"] = build()
    _sim, th, _f = attempt(body)
    if th.exc is not None:
        ctx.fail("no-recovery", f"{what} fails: {type(th.exc).__name__}: {th.exc}")
    verify(result["net"], what)
    ctx.count("built_again")


def concurrent(ctx, src, cfg, seed, out, old_bytes, want, info, build, content, must_be, state, root):
    """Two builds write the same path while another thread reads it."""
    ch = ctx.ch
    news = {want}
    other = Source(ch, tag=9, rows=(1, 2), layers=(1, 1), lstm=False)
    nets = {}
    two = ch.draw(2) == 1
    if two:
        def ref():
            n = build_ok(ctx, lambda: keras_builder.build(other.path, "dry9.json", other.x, None, QuantizerCfg()))
            if n is not None:
                news.add(canon(json.loads(json.dumps(n.as_json()))))
            else:
                nets["bad"] = 1
        in_sim(ctx, ref)
        if os.path.exists("dry9.json"):
            os.remove("dry9.json")
    sim = ctx.sim(max_steps=20_000_000)
    sim.configure(modes=("line", "instr", None))
    f = fs.FaultFS(sim, root)
    f.bufsize = ch.pick((64, 512, 8192))
    f.encoding = info["encoding"]
    sizes = ch.pick((32, 4096, 100000))
    over = [0]
    seen = []

    def a():
        try:
            nets["a"] = build(th=0)
        finally:
            over[0] += 1

    def b():
        try:
            nets["b"] = keras_builder.build(other.path, out, other.x, None, QuantizerCfg())
        finally:
            over[0] += 1

    def reader():
        n = 2 if two and not nets.get("bad") else 1
        i = 0
        while over[0] < n and i < 400:
            i += 1
            try:
                with open(out, "rb") as g:
                    data = b""
                    while True:
                        c = g.read(sizes)
                        if not c:
                            break
                        data += c
            except FileNotFoundError:
                data = None
                if old_bytes is not None or any(s == "new" for s in seen):
                    ctx.fail("lost", "a reader finds no model file while another one is being written")
            s = state(data, tuple(news))
            if s not in ("old", "new"):
                ctx.fail("torn" if s.startswith("torn") else "wrong-file", f"a reader sees a model file that is {s} while a build runs")
            if s == "old" and "new" in seen and data is not None:
                ctx.fail("wrong-file", "a reader sees the older model after the new one")
            seen.append(s)
            ctx.count("read_" + s)
            for _ in range(ch.pick((1, 1, 5, 20))):
                sim.yield_()
    sim.spawn(a, "build-a")
    if two and not nets.get("bad"):
        sim.spawn(b, "build-b")
    sim.spawn(reader, "reader")
    with fs.mounted(f):
        sim.run()
    if sim.hang or sim.deadlock:
        ctx.fail("hang", f"concurrent builds never ended ({sim.hang})")
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, core.SimAbort):
            if t.name.startswith("build"):
                ctx.fail("no-build", f"{t.name} raised {type(t.exc).__name__}: {t.exc} beside another build")
            raise t.exc
    must_be(content(), ("new",), "after concurrent builds", tuple(news))
    info["two_builds"] = two
    info["reads"] = len(seen)


RUN["Q04"] = q04
