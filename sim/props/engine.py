"""Shared inference engine (E01 .. E04).

Real code: itcl_inference_engine (networks, all layers), itcl_quantization.
"""
from __future__ import annotations

import copy
import json
import logging
import os
import sys
import threading

import numpy as np

from .. import core, fs, gen

logging.disable(logging.CRITICAL)
np.seterr(all="ignore")

from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402


def same(a, b):
    """Bit for bit."""
    if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
        return False
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def short(a):
    s = repr(np.asarray(a).tolist())
    return s if len(s) < 160 else s[:160] + "..."


class Model:
    def __init__(self, ch, tag, like=None):
        if like is not None:        # the same architecture and names, other weights
            self.desc, self.info = gen.variant(ch, like.desc), like.info
        else:
            self.desc, self.info = gen.network(ch, tag)
        self.text = json.dumps(self.desc)
        self.path = os.path.abspath(f"model{tag}.json")
        with open(self.path, "w", encoding="utf-8") as f:
            f.write(self.text)

    def fresh(self):
        return SequentialNetwork(json.loads(self.text))

    def load(self, how):
        if how == 0:
            return SequentialNetwork.from_json_file(self.path)
        return self.fresh()


def call_kwargs(ch, model):
    k = ch.draw(9)
    if k == 4:
        return {"verbose": True}
    if k == 5:
        return {"isBatch": True}
    if k == 6:
        return {"isInputQuant": True}
    if k == 7:
        return {"isInputQuant": True, "verbose": True}
    return {}


def alone(ctx, asked):
    """What each call returns alone on a freshly loaded copy, in a process of its own (sometimes one for each call)."""
    asked = list(asked)
    if ctx.ch.chance(0.15):
        return [ctx.isolated(lambda a=a: solo(*a)) for a in asked]
    out = [None] * len(asked)
    for m in {id(a[0]): a[0] for a in asked}.values():      # one model to a process
        mine = [k for k, a in enumerate(asked) if a[0] is m]
        for k, r in zip(mine, ctx.isolated(lambda: [solo(*asked[k]) for k in mine])):
            out[k] = r
    return out


class Buffers:
    """Arrays a caller fills again for every call."""

    def __init__(self):
        self.own = {}

    def fill(self, x):
        b = self.own.get((x.shape, x.dtype.str))
        if b is None:
            b = self.own[(x.shape, x.dtype.str)] = np.empty(x.shape, x.dtype)
        b[...] = x
        return b


def solo(model, x, kw):
    """What the call returns alone on a freshly loaded copy."""
    try:
        return ("ok", model.fresh().infer(x.copy(), **kw))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def outcome(net, x, kw):
    try:
        return ("ok", net.infer(x, **kw))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def differ(a, b):
    if a[0] != b[0]:
        return True
    return a[1] != b[1] if a[0] == "exc" else not same(a[1], b[1])


def show(o):
    return o[1] if o[0] == "exc" else f"{np.asarray(o[1]).dtype}{short(o[1])}"


def finish(ctx, sim):
    if sim.deadlock or sim.hang:
        ctx.fail("hang", f"the inferences never ended ({sim.hang or 'every thread is blocked'})")
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, core.SimAbort):
            raise t.exc


# --------------------------------------------------------------------------- E01
def e01(ctx):
    ch = ctx.ch
    sim = ctx.sim(max_steps=600_000)
    sim.configure(modes=("instr", "line"))
    models = [Model(ch, 0)]
    if ch.draw(2):
        models.append(Model(ch, 1, models[0] if ch.chance(0.4) else None))
    how = [ch.draw(2) for _ in models]
    pool = []                     # (model index, input)
    for i, m in enumerate(models):
        for _ in range(ch.between(1, 3)):
            pool.append((i, gen.rows(ch, m.info, ch.between(1, 3))))
    nthreads = ch.between(2, 4)
    plans = []
    for t in range(nthreads):
        plan = []
        for _ in range(ch.between(1, 3)):
            k = ch.draw(len(pool))
            plan.append((ch.pick(("shared", "shared", "shared", "load")), k, ch.draw(4), ch.chance(0.25),
                         call_kwargs(ch, models[pool[k][0]])))
        plans.append(plan)
    keys = {}
    for plan in plans:
        for _, k, _, _, kw in plan:
            keys.setdefault((k, repr(kw)), (models[pool[k][0]], pool[k][1], kw))
    oracle = dict(zip(keys, alone(ctx, keys.values())))     # before anything is loaded here
    shared = [m.load(h) for m, h in zip(models, how)]
    calls = []

    def work(t):
        def f():
            own = Buffers()
            for what, k, buf, scribble, kw in plans[t]:
                i, x = pool[k]
                if buf == 0:
                    xin = x                  # every thread hands in the same array
                elif buf == 1:
                    xin = x.copy()
                elif buf == 3:
                    xin = own.fill(x)
                else:
                    xin = gen_layout[k]
                before = x.copy()
                net = shared[i]
                if what == "load":
                    net = models[i].load(how[i])
                    ctx.count("loads_during_inference")
                out = outcome(net, xin, kw)
                snap = out[1].copy() if out[0] == "ok" else None
                calls.append((t, k, kw, out, snap, scribble, what))
                if not same(np.ascontiguousarray(xin), np.ascontiguousarray(before)):
                    ctx.fail("input-modified", "an inference changed the array of its caller")
                if out[0] == "ok" and scribble and isinstance(out[1], np.ndarray) and out[1].flags.writeable:
                    out[1].fill(77)          # the caller uses its array for something else
                if buf == 1:
                    xin.fill(3)
        return f
    gen_layout = [gen.layout(ch, x) for _, x in pool]
    for t in range(nthreads):
        sim.spawn(work(t), f"w{t}")
    sim.run()
    finish(ctx, sim)
    ctx.evals = len(calls)
    ctx.nontrivial = sim.switches > nthreads
    ctx.sample = {"networks": [m.info for m in models], "threads": nthreads, "calls": len(calls), "switches": sim.switches}
    ctx.sig = [m.text for m in models] + [repr(p) for p in plans]
    for t, k, kw, out, snap, scribble, what in calls:
        want = oracle[(k, repr(kw))]
        got = out if out[0] == "exc" else ("ok", snap)
        if differ(got, want):
            ctx.fail("not-as-alone", f"thread {t}: {what} network of {models[pool[k][0]].info['kinds']} returned {show(got)}, "
                                     f"alone on a fresh copy {show(want)}")
    for t, k, kw, out, snap, scribble, what in calls:
        if out[0] == "ok":
            now, was = out[1], np.full_like(snap, 77) if scribble else snap
            if not same(now, was) and not (scribble and not now.flags.writeable):
                ctx.fail("returned-array-changed", f"an array returned to thread {t} changed afterwards: {short(was)} -> {short(now)}")
    for m, n in zip(models, shared):
        if n.schema != m.desc:
            ctx.fail("description-modified", "the model description was modified by inferences")


# --------------------------------------------------------------------------- E02
BAD = ("ndim", "features", "string", "none", "empty", "object", "ragged")


def bad_input(ch, info, kind):
    f = info["feat"]
    if kind == "ndim":
        return np.zeros((1, 1, 1, f)) if info["lstm"] else np.zeros((2, 1, f))
    if kind == "features":
        return np.ones((2, 2, f + 1)) if info["lstm"] else np.ones((2, f + 2))
    if kind == "string":
        return np.array([["a"] * f])
    if kind == "none":
        return np.array([[None] * f], dtype=object)
    if kind == "empty":
        return np.zeros((0, 1, f)) if info["lstm"] else np.zeros((0, f))
    if kind == "object":
        a = np.array([[1.5] * f] * 2, dtype=object)
        a[-1, -1] = "x"
        return a
    return [[1.0] * f, [1.0] * (f + 1)]


def e02(ctx):
    ch = ctx.ch
    sim = ctx.sim(max_steps=600_000)
    model = Model(ch, 0)
    how = ch.draw(2)
    two = ch.chance(0.3)                 # a second thread infers meanwhile
    if two:
        sim.configure(modes=("instr", "line"))
    pool = [gen.rows(ch, model.info, ch.between(1, 3)) for _ in range(ch.between(1, 3))]
    kws = [call_kwargs(ch, model) for _ in pool]
    oracle = alone(ctx, [(model, x, kw) for x, kw in zip(pool, kws)])
    net = model.load(how)
    log = []
    EXC = (MemoryError, KeyboardInterrupt, core.Injected, FloatingPointError, RecursionError, SystemExit)

    def good(j, own):
        k = ch.draw(6)
        x = own.fill(pool[j]) if k == 0 else gen.layout(ch, pool[j]) if k < 3 else pool[j].copy()
        before = np.ascontiguousarray(x)
        if before is x:
            before = x.copy()
        out = outcome(net, x, kws[j])
        log.append((j, out, out[1].copy() if out[0] == "ok" else None))
        if not same(np.ascontiguousarray(x), before):
            ctx.fail("input-modified", "an inference changed the array of its caller")

    def abort(own):
        th = sim.cur
        if ch.chance(0.35):
            kind = ch.pick(BAD)
            x = bad_input(ch, model.info, kind)
            keep = copy.deepcopy(x)
            try:
                net.infer(x)
            except Exception:
                ctx.count("bad_input_" + kind)
            else:
                ctx.count("odd_input_accepted")
            if isinstance(x, np.ndarray) and (x.dtype != keep.dtype or x.shape != keep.shape or x.tolist() != keep.tolist()):
                ctx.fail("input-modified", f"a failed inference changed the array of its caller ({kind})")
            return
        j = ch.draw(len(pool))
        x = own.fill(pool[j]) if ch.chance(0.3) else pool[j].copy()
        exc = ch.pick(EXC)
        # how many steps does this call take?  (dry run on a fresh copy)
        s0 = th.steps
        fresh = model.fresh()
        c0 = th.steps
        outcome(fresh, x.copy(), kws[j])
        total = th.steps - c0
        if total < 1:
            return
        th.crash_exc = exc("injected")
        th.crash_at = ch.draw(total)
        try:
            net.infer(x, **kws[j])
        except exc:
            ctx.count("aborted_by_" + exc.__name__)
        except BaseException as e:
            if isinstance(e, (core.SimAbort, core.Violation)):
                raise
            ctx.count("aborted_by_other")
        else:
            ctx.count("abort_swallowed_or_late")
        th.crash_at = -1
        th.crash_exc = None
        if not same(x, pool[j]):
            ctx.fail("input-modified", f"an inference aborted by {exc.__name__} changed the array of its caller")

    plan = [ch.pick(("good", "abort", "abort")) for _ in range(ch.between(2, 6))] + ["good"]

    def main():
        own = Buffers()
        for p in plan:
            if p == "good":
                good(ch.draw(len(pool)), own)
            else:
                abort(own)
        for j in range(len(pool)):
            good(j, own)

    def other():
        own = Buffers()
        for _ in range(ch.between(1, 3)):
            good(ch.draw(len(pool)), own)
    sim.spawn(main, "main")
    if two:
        sim.spawn(other, "other")
    if not sim.preempt and ch.draw(2):
        sim.preempt = "instr"
    sim.run()
    finish(ctx, sim)
    ctx.evals = len(log)
    ctx.nontrivial = any(k.startswith(("aborted", "bad_input")) for k in ctx.extra_counts)
    ctx.sample = {"network": model.info, "plan": plan, "threads": 1 + two, "faults": dict(ctx.extra_counts)}
    ctx.sig = [model.text, plan]
    for j, out, snap in log:
        got = out if out[0] == "exc" else ("ok", snap)
        if differ(got, oracle[j]):
            ctx.fail("trace-of-aborted-call", f"after an aborted inference a network of {model.info['kinds']} returned {show(got)}, "
                                              f"a fresh one {show(oracle[j])}")
        if out[0] == "ok" and not same(out[1], snap):
            ctx.fail("returned-array-changed", f"an array already returned changed from {short(snap)} to {short(out[1])}")
    if net.schema != model.desc:
        ctx.fail("description-modified", "the model description was modified by inferences")


# --------------------------------------------------------------------------- E03
def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "iub":
        return bool(np.array_equal(a, b))
    return bool(np.allclose(a, b, rtol=1e-11, atol=1e-300, equal_nan=True))


def e03(ctx):
    ch = ctx.ch
    sim = ctx.sim(max_steps=5_000_000)
    model = Model(ch, 0)
    near = Model(ch, 1, model) if ch.chance(0.15) else None      # a sibling is in use at the same time
    total = ch.between(9, 90) if ch.chance(0.06) else ch.between(1, 8)
    dtype = ch.pick(("float32", "float64", "float32", "float64", "int64", "int8"))
    x = gen.rows(ch, model.info, total, dtype)
    long_history = ch.chance(0.04)
    ncalls = ch.between(1, 4)
    nthreads = ch.pick((1, 1, 2))
    if nthreads > 1:
        sim.configure(modes=("line", "instr"))
    kws = [ch.pick(({}, {}, {}, {"isInputQuant": True}, {"verbose": True}))]
    if ch.chance(0.2):                    # calls of two kinds, each compared with its own kind
        kws.append(ch.pick(({"verbose": True}, {"isBatch": True}, {"isInputQuant": True}, {"isBatch": True, "verbose": True})))
    lone = []
    spoilt = None                         # a row without a meaningful answer: the others are not affected
    if total > 1 and x.dtype.kind == "f" and ch.chance(0.06):
        spoilt = ch.draw(total)
        keep = x[spoilt].copy()
        x[spoilt].flat[ch.draw(x[spoilt].size)] = np.nan
        own = alone(ctx, [(model, np.repeat(x[spoilt:spoilt + 1], n, axis=0), kw) for kw in kws for n in (1, 19)])
        if any(o[0] == "exc" for o in own):
            x[spoilt], spoilt = keep, None
        else:
            ctx.count("nan_row")
            if all(close(r, np.asarray(one[1])[0]) for one, many in zip(own[::2], own[1::2]) for r in np.asarray(many[1])):
                spoilt = None                 # the machine converts it to the same integer in every place of an array
    # logging the layers changes nothing
    for o in alone(ctx, [(model, x[i:i + 1], {k: v for k, v in kw.items() if k != "verbose"}) for kw in kws for i in range(total)]):
        if o[0] == "exc":
            ctx.fail("row-failed", f"network of {model.info['kinds']}: a row alone raised {o[1]}")
        lone.append(o[1])
    huge = nthreads == 1 and ch.chance(0.02)               # a batch larger than any block something may be split into
    if near is not None and ch.draw(2):
        near.fresh()
    net = model.load(ch.draw(2))
    got = []

    def work():
        own = Buffers()
        for _ in range(ncalls):
            order = list(range(total))
            for i in range(total - 1, 0, -1):      # shuffle
                j = ch.draw(i + 1)
                order[i], order[j] = order[j], order[i]
            if ch.chance(0.3):
                order += [ch.draw(total) for _ in range(ch.between(1, 4))]
            if huge and not any(len(g[0]) > 99 for g in got):
                m, o = ch.pick((130, 260, 520, 1030)), ch.draw(7)
                order = [order[(j * (o + 1) + j // 5) % len(order)] for j in range(m)]
            i = 0
            while i < len(order):
                k = ch.between(1, len(order) - i) if len(order) < 100 else len(order)
                idx = order[i:i + k]
                kw = kws[0] if len(kws) == 1 else kws[ch.draw(2)]
                base = 0 if kw is kws[0] else total
                i += k
                if near is not None and ch.chance(0.5):
                    nets = near.__dict__.setdefault("nets", [])
                    if not nets or ch.chance(0.3):
                        nets.append(near.fresh())
                    nets[-1].infer(x[idx])
                if k == 1 and not model.info["lstm"] and ch.chance(0.2):
                    out = net.infer(x[idx[0]].copy(), **kw)          # a row on its own
                    got.append((idx, np.asarray(out)[None].copy(), base))
                else:
                    how = ch.draw(6)
                    b = own.fill(x[idx]) if how == 0 else gen.layout(ch, x[idx]) if how < 3 else x[idx]
                    got.append((idx, np.asarray(net.infer(b, **kw)).copy(), base))
        if long_history:
            ctx.count("long_history")
            kw = kws[0]
            n = ch.pick((70, 140, 300, 300, 1100 if nthreads == 1 else 300))
            j = ch.draw(total)
            for _ in range(n):
                net.infer(x[j:j + 1] + (0 if ch.draw(2) else 1), **kw)
            got.append(([j], np.asarray(net.infer(x[j:j + 1], **kw)).copy(), 0))
    for t in range(nthreads):
        sim.spawn(work, f"w{t}")
    sim.run()
    finish(ctx, sim)
    ctx.evals = len(got)
    ctx.nontrivial = total > 1
    ctx.sample = {"network": model.info, "rows": total, "splits": [g[0][:20] for g in got][:8], "calls": len(got)}
    ctx.sig = [model.text, [g[0] for g in got]]
    for idx, out, base in got:
        if len(out) != len(idx):
            ctx.fail("rows-lost", f"a batch of {len(idx)} rows gave {len(out)} answers")
        for r, i in zip(out, idx):
            if i != spoilt and not close(r, np.asarray(lone[base + i])[0]):
                ctx.fail("row-depends", f"network of {model.info['kinds']}: row {i} gave {short(r)} in the batch of rows {idx[:100]}, "
                                        f"{short(lone[base + i])} alone on a fresh network")


# --------------------------------------------------------------------------- E04
NAMES = ("plain", "señal_μ", "層", "a\"b\\c\n", "\u2028x")


def e04(ctx):
    ch = ctx.ch
    sim = ctx.sim()
    sim.configure(modes=(None, "line"))
    descs = []
    for t in range(ch.between(1, 2)):
        d, info = gen.network(ch, t) if not descs or not ch.chance(0.3) else (gen.variant(ch, descs[0][0]), descs[0][1])
        d["graph"][-1]["description"] = ch.pick(NAMES)
        d["generated_at"] = d["generated_at"] + ch.pick(NAMES)
        if ch.chance(0.04):          # far more than one read
            d["graph"][-1]["description"] += "0123456789abcdef" * ch.pick((4200, 17000, 66000))
        if ch.chance(0.05):
            d["graph"][-1]["attributes"]["limits"] = {"value": [float("-inf"), 5e-324, -0.0, 2 ** 70, 1e22, True, None, float("inf")]}
        descs.append((d, info))
    faults = {}
    for k in ("eio_read", "short_read", "eio_open"):
        p = ch.pick((0, 0, 0, 0.1, 0.5))
        if p:
            faults[k] = p
    F = fs.FaultFS(sim, os.getcwd(), faults, only=lambda p: p.endswith(".json"))
    F.bufsize = ch.pick((8192, 64, 700))
    F.encoding = ch.pick(("utf-8", "utf-8", "cp1252", "ascii", "utf-16"))
    path = os.path.abspath("m.json")
    ascii_ = ch.draw(2) == 0
    texts = [json.dumps(d, ensure_ascii=ascii_, indent=ch.pick((None, 1))) for d, _ in descs]
    datas = [t.encode("utf-8") for t in texts]
    what = ch.pick(("whole", "whole", "missing", "torn", "mixed", "writer", "replacer", "unknown", "badbytes", "dir", "empty",
                    "rewritten", "rewritten"))
    expect_ok = [0]              # descriptions a load may yield
    must_fail = False
    real = fs.real_open
    if what in ("whole", "writer", "replacer"):
        with real(path, "wb") as f:
            f.write(datas[0])
        if what != "whole" and len(descs) > 1:
            expect_ok = [0, 1]
    elif what == "missing":
        must_fail = True
        if ch.draw(2):
            path = os.path.abspath("nodir/m.json")
    elif what == "torn":
        must_fail = True
        with real(path, "wb") as f:
            f.write(datas[0][: ch.draw(len(datas[0].rstrip()))])
    elif what == "mixed":                    # the old file is longer than the part of the new one that was written over it
        d2 = descs[-1][0]
        other = json.dumps(dict(d2, generated_at="x" * 400)).encode()
        k = ch.draw(len(datas[0]))
        body = datas[0][:k] + other[k:]
        try:
            json.loads(body)
            must_fail = False
            expect_ok = None
        except ValueError:
            must_fail = True
        with real(path, "wb") as f:
            f.write(body)
    elif what == "unknown":
        must_fail = True
        d = json.loads(texts[0])
        if ch.draw(2):
            d["engine"] = ch.pick(("PYTORCH", "TFLITE2", "", "ONNXRT", "keras"))
        else:
            g = d["graph"]
            g[ch.draw(len(g))]["op_type"] = ch.pick(("CONV_2D", "GELU", "FOO", "", "ADD", "Conv", "GRU", "RELU6", "MaxPool"))
        with real(path, "wb") as f:
            f.write(json.dumps(d).encode())
    elif what == "badbytes":
        must_fail = True
        k = ch.draw(len(datas[0]))
        body = datas[0]
        how = ch.draw(4)
        if how == 0:
            body = body[:k] + b"\xff\xfe\x00" + body[k + 3:]
        elif how == 1:                       # one byte too many
            body = body[:k] + bytes([ch.pick((0x80, 0xBF, 0xFF, 0xC0))]) + body[k:]
        else:                                # one byte with a flipped top bit
            body = body[:k] + bytes([body[k] ^ 0x80]) + body[k + 1:]
            if how == 3:                     # inside a number or a name
                body = datas[0]
                ks = [i for i, c in enumerate(body) if chr(c).isalnum()]
                k = ks[ch.draw(len(ks))]
                body = body[:k] + bytes([body[k] | 0x80]) + body[k + 1:]
        try:
            body.decode("utf-8")
            must_fail, expect_ok = False, None
        except UnicodeDecodeError:
            pass
        with real(path, "wb") as f:
            f.write(body)
    elif what == "dir":
        must_fail = True
        os.mkdir(path)
    elif what == "rewritten":
        expect_ok = None
    else:
        must_fail = True
        open(path, "wb").close()
    if ch.chance(0.25):                      # files of other programs and earlier times beside it
        ctx.count("siblings")
        for end in (".tmp", ".bak", "~", ".old", ".new", ".part", ".lock"):
            if ch.draw(2) and os.path.isdir(os.path.dirname(path)) and end != (".new" if what == "rewritten" else ".tmp" if what == "replacer" else ""):
                with real(path + end, "wb") as f:
                    f.write(json.dumps(dict(descs[-1][0], generated_at="of a sibling")).encode())
    F.readlog = []
    results = []
    n = ch.between(1, 2)
    x0 = gen.rows(ch, descs[0][1], 2)
    xs = [x0, gen.rows(ch, descs[-1][1], 2)]
    want = [ctx.isolated(lambda t=t, x=x: SequentialNetwork(json.loads(t)).infer(x.copy())) for t, x in zip(texts, xs)]

    def rewrite(j):
        """The file is saved anew between two loads, sometimes with the same length and the same times."""
        size = max(len(d) for d in datas)
        body = datas[j] + b" " * (size - len(datas[j])) if pad else datas[j]
        old = os.stat(path) if os.path.exists(path) else None
        if old is not None and swap:
            with real(path + ".new", "wb") as f:
                f.write(body)
            fs.R["replace"](path + ".new", path)
        else:
            with real(path, "wb") as f:
                f.write(body)
        if keep_times and old is not None:
            os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))

    def reloader():
        """One process loads, and loads again after every rewriting."""
        nets = []
        for r in range(ch.between(2, 4)):
            j = ch.draw(len(datas))
            rewrite(j)
            f0 = F.errors.get(sim.cur.id, 0)
            try:
                net = SequentialNetwork.from_json_file(path)
            except Exception as ex:  # noqa: BLE001
                if F.errors.get(sim.cur.id, 0) == f0:
                    ctx.fail("load-failed", f"the file is complete and readable, but loading it (load {r + 1}) failed: {ex!r}")
                continue
            nets.append((j, r, net))
        for j, r, net in nets:
            if net.schema != descs[j][0]:
                ctx.fail("wrong-description", f"load {r + 1} after the file was rewritten yielded another description than the file's")
            if not same(net.infer(xs[j].copy()), want[j]):
                ctx.fail("wrong-answers", f"load {r + 1} after the file was rewritten answers differently from the description")
        results.extend((net, None, 0, b"") for _, _, net in nets)

    pad, swap, keep_times = ch.draw(2), ch.draw(2), ch.draw(2)

    def loader():
        if what == "rewritten":
            return reloader()
        for _ in range(n):
            r0 = len(F.readlog)
            f0 = F.errors.get(sim.cur.id, 0)
            try:
                net = SequentialNetwork.from_json_file(path)
                e = None
            except Exception as ex:  # noqa: BLE001
                net, e = None, ex
            me = sim.cur.id
            f1 = F.errors.get(me, 0)
            results.append((net, e, f1 - f0, b"".join(d for t, d in F.readlog[r0:] if t == me)))

    def writer():
        """Another process saves the second description over the file, piece by piece or with an atomic replacement."""
        data = datas[-1]
        if what == "replacer":
            tmp = path + ".tmp"
            with real(tmp, "wb") as f:
                f.write(data)
            sim.yield_()
            fs.R["replace"](tmp, path)
            return
        with real(path, ch.pick(("wb", "r+b")), buffering=0) as f:
            i = 0
            while i < len(data):
                sim.yield_()
                k = ch.between(1, max(1, len(data) // 2))
                f.write(data[i:i + k])
                i += k
            f.truncate(len(data))
    for t in range(1 if what == "rewritten" else ch.between(1, 2)):
        sim.spawn(loader, f"l{t}")
    if what in ("writer", "replacer"):
        sim.spawn(writer, "writer")
    with fs.mounted(F):
        sim.run()
    finish(ctx, sim)
    ctx.count("file_" + what, 1)
    ctx.evals = len(results)
    ctx.nontrivial = what != "whole" or bool(faults)
    ctx.sample = {"file": what, "faults": faults, "loads": [type(e).__name__ if e else "network" for _, e, _, _ in results]}
    ctx.sig = [what, faults, texts, [type(e).__name__ if e else "ok" for _, e, _, _ in results]]
    for net, e, nf, got_bytes in results:
        if net is None:
            if not isinstance(e, Exception):
                ctx.fail("no-error", "no network and no error")
            if what == "whole" and not nf:
                ctx.fail("load-failed", f"the file is complete and readable, but loading it failed: {e!r}")
            if what == "replacer" and not nf:
                ctx.fail("load-failed", f"the file is complete at every instant, but loading it failed: {e!r}")
            continue
        if must_fail:
            ctx.fail("loaded-broken-file", f"a {what} file yielded a network of {len(net.layers)} layers")
        if expect_ok is None:
            continue
        ok = [j for j in expect_ok if net.schema == descs[j][0]]
        if not ok and what == "writer":      # a mixture of both that happens to be a whole description
            try:
                if json.loads(got_bytes.decode("utf-8")) == net.schema:
                    ctx.count("readable_mixture")
                    continue
            except ValueError:
                pass
        if not ok:
            ctx.fail("wrong-description", "the description of the loaded network is none that was written to the file")
        j = ok[0]
        got = net.infer(xs[j].copy())
        if not same(want[j], got):
            ctx.fail("wrong-answers", f"the loaded network answers {short(got)}, the written description {short(want[j])}")


RUN = {"E01": e01, "E02": e02, "E03": e03, "E04": e04}
