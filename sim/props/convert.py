"""Converters (keras2json, onnx2json, tflite2json): C01 faithful whatever happens beside them, C02 the output file is replaced or left alone."""
from __future__ import annotations

import copy
import importlib
import json
import logging
import math
import os
import pickle
import re

import numpy as np

from .. import core, fs

_cwd = os.getcwd()
_repo = os.environ.get("VERIF_REPO", "/repo")
os.chdir(f"{_repo}/model_converters/onnx2json")        # its settings are read from the current directory
import onnx  # noqa: E402  (stand-in)
import tflite  # noqa: E402  (stand-in)
from tensorflow import keras  # noqa: E402  (stand-in)

from itcl_quantization.quantization.lut import ReducedLUT  # noqa: E402
import itcl_tflite2json  # noqa: E402
import keras2json  # noqa: E402

onnx2json = importlib.import_module("2json")
keras_main = importlib.import_module("_main")
os.chdir(_cwd)

import builtins  # noqa: E402

builtins.print = lambda *a, **k: None
logging.disable(logging.CRITICAL)

L = keras.layers
real = fs.real_open

NAMES = ("", "", "", "ñ", "層", " b/c", "\"q\"")
VALUES = (0.5, -0.25, 1.0, -1.0, 0.1, 3.0, 0.0, -0.0, 1e-30, 65504.0, 1 / 3, 2.5e-8, -7.75)


def f32(v):
    return np.float32(v).item()


def floats(ch, shape):
    n = int(np.prod(shape))
    if n > 400:                              # a big tensor costs one decision
        k = ch.subseed()
        return (((np.arange(n, dtype=np.int64) * 7919 + k) % 2001 - 1000) / np.float32(512)).astype(np.float32).reshape(shape)
    if ch.chance(0.3):
        return np.array([ch.pick(VALUES) for _ in range(n)], dtype=np.float32).reshape(shape)
    return np.array([(ch.draw(255) - 127) / 64 for _ in range(n)], dtype=np.float32).reshape(shape)


def size(ch, most):
    if ch.chance(0.03):
        return ch.pick((31, 64, 100))
    return ch.between(1, most)


class Table:
    """The entries of an activation table, up to ties in their last rounding, and its reduced form."""

    def __init__(self, fn, dtype, s, zp, s2, zp2, depth, least):
        lo, hi = (-128, 127) if dtype == "int8" else (0, 255)
        x = (np.arange(lo, hi + 1) - zp) * s
        y = np.array([fn(v) for v in x]) / s2 + zp2 + 0.5
        self.low = np.clip(np.floor(y - 1e-7 * np.maximum(1, np.abs(y))), lo, hi)
        self.high = np.clip(np.floor(y + 1e-7 * np.maximum(1, np.abs(y))), lo, hi)
        self.own = [int(v) for v in np.clip(np.floor(y), lo, hi)]
        self.depth, self.least = depth, least
        self.reduced = None

    def reduce(self):
        return json.loads(json.dumps(ReducedLUT(list(self.own), self.depth, self.least).serialize()))

    def wrong(self, got):
        t = np.asarray(got["LUT"])
        if t.shape != self.low.shape:
            return f"has {t.size} entries"
        bad = np.flatnonzero((t < self.low) | (t > self.high))
        if len(bad):
            return f"has {t[bad[0]]} at index {bad[0]} instead of {self.own[bad[0]]}"
        if self.reduced is not None and t.tolist() == self.own and json.loads(json.dumps(got.get("reduced_LUT"))) != self.reduced:
            return "has another reduced form"
        return None


def logistic(x):
    return 1 / (1 + math.exp(-x))


def differs(want, got, where=""):
    """Where a description does not say what it has to; None if it does.  A missing key and None are the same."""
    if isinstance(want, Table):
        if not isinstance(got, dict):
            return f"{where}: no table"
        w = want.wrong(got)
        return w and f"{where}: the table {w}"
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{where}: {str(got)[:60]} instead of a map"
        for k, v in want.items():
            r = differs(v, got.get(k), f"{where}.{k}")
            if r:
                return r
        return None
    if isinstance(want, Named):
        by = {}
        for n in got if isinstance(got, (list, tuple)) else ():
            by[((n or {}).get("tensor") or {}).get("name")] = n
        for w in want.nodes:
            n = w["tensor"]["name"]
            r = differs(w, by.get(n), f"{where}[{n}]")
            if r:
                return r
        return None
    if isinstance(want, np.ndarray):
        want = want.tolist()
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return f"{where}: {str(got)[:60]} instead of {len(want)} entries"
        if want and not isinstance(want[0], (list, tuple, dict)):
            if list(want) == list(got) and all(type(a) is type(b) for a, b in zip(want, got)):
                return None
        for i, (a, b) in enumerate(zip(want, got)):
            r = differs(a, b, f"{where}[{i}]")
            if r:
                return r
        return None
    if isinstance(want, float) and isinstance(got, (int, float)) and not isinstance(got, bool):
        ok = want == got and math.copysign(1, want) == math.copysign(1, got)
    else:
        ok = want == got and isinstance(want, bool) == isinstance(got, bool)
    return None if ok else f"{where}: {str(got)[:60]} instead of {str(want)[:60]}"


class Named:
    """Nodes found by the name of their tensor, whatever else is in the list."""

    def __init__(self, *nodes):
        self.nodes = nodes


# --------------------------------------------------------------------------- source models
class Source:
    engine = ""
    broken = None             # what is wrong with it: converting it must fail
    tables = ()

    def prepare(self, ctx):
        if self.tables:
            for t, r in zip(self.tables, ctx.isolated(lambda: [t.reduce() for t in self.tables])):
                t.reduced = r


class Keras(Source):
    engine = "keras"
    ext = ".h5"

    def __init__(self, ch, broken=False):
        ls = []
        suffix = ch.pick(NAMES)
        self.kinds = []
        if ch.draw(2):
            ls.append(L.InputLayer(name="in"))
        for i in range(ch.between(1, 4)):
            k = ch.pick(("dense", "dense", "dense", "lstm", "conv", "pool", "flatten", "dropout"))
            self.kinds.append(k)
            name = f"{k}_{i}{suffix}"
            if k == "dense":
                n, m = size(ch, 4), size(ch, 4)
                bias = not ch.chance(0.3)
                ls.append(L.Dense(m, activation=ch.pick(("linear", "relu", "tanh", "sigmoid", "softmax")), use_bias=bias, name=name,
                                  weights=[floats(ch, (n, m))] + ([floats(ch, (m,))] if bias else [])))
            elif k == "lstm":
                n, u = size(ch, 3), size(ch, 3)
                ls.append(L.LSTM(u, return_sequences=ch.draw(2) == 1, name=name, batch_input_shape=(None, ch.between(1, 9), n),
                                 weights=[floats(ch, (n, 4 * u)), floats(ch, (u, 4 * u)), floats(ch, (4 * u,))]))
            elif k == "conv":
                a, b, c, d = ch.between(1, 3), ch.between(1, 3), ch.between(1, 3), ch.between(1, 3)
                ls.append(L.Conv2D(d, (a, b), strides=(ch.between(1, 2), ch.between(1, 3)), padding=ch.pick(("valid", "same")),
                                   activation=ch.pick(("linear", "relu", "tanh")), name=name,
                                   weights=[floats(ch, (a, b, c, d)), floats(ch, (d,))]))
            elif k == "pool":
                ls.append(L.MaxPooling2D((ch.between(1, 3), ch.between(1, 3)), strides=(ch.between(1, 3), ch.between(1, 2)),
                                         padding=ch.pick(("valid", "same")), name=name))
            elif k == "flatten":
                ls.append(L.Flatten(name=name))
            else:
                ls.append(L.Dropout(0.25, name=name))
        if broken:
            self.broken = "an unsupported layer"
            ls.insert(ch.draw(len(ls) + 1), ch.pick((L.GRU(2, name="gru"), L.BatchNormalization(name="bn"), L.Reshape(name="reshape"))))
        self.model = keras.Model(ls)
        self.look()

    def look(self):
        self.graph = []
        for l in self.model.layers:
            self.graph += self.ops(l)
        self.want = {"engine": "keras", "operators": len(self.graph), "graph": self.graph}

    @staticmethod
    def node(w, name, shape=None):
        w = np.asarray(w)
        return {"scale": None, "zero_point": None, "LUT": None, "tensor": {"dtype": w.dtype.name, "name": name, "shape": list(w.shape), "tensor": w.copy()}}

    def ops(self, l):
        w = l._weights
        if isinstance(l, L.Dense):
            bias = {"tensor": {"name": f"{l.name}/Bias", "shape": [l.units], "tensor": w[1].copy() if l.use_bias else [0.0] * l.units}}
            return [{"op_type": "FULLY_CONNECTED_F", "name": l.name, "inputs": [self.node(w[0].T, f"{l.name}/Kernel"), bias], "outputs": []},
                    {"op_type": l.activation.__name__, "inputs": [], "outputs": []}]
        if isinstance(l, L.LSTM):
            return [{"op_type": "LSTM_F", "inputs": Named(self.node(w[0].T, "kernel/complete"), self.node(w[1].T, "recurrent_kernel/complete"),
                                                          self.node(w[2], "bias/complete")), "outputs": [],
                     "attributes": {"units": {"value": [l.units]}, "return_sequences": {"value": [bool(l.return_sequences)]},
                                    "steps": {"value": [l._batch_input_shape[-2]]}}}]
        if isinstance(l, L.Conv2D):
            return [{"op_type": "CONV_2D_F", "inputs": [self.node(w[0], "kernel"), self.node(w[1], "bias")], "outputs": [],
                     "attributes": {"strides": {"value": list(l.strides)}, "padding": {"value": [int(l.padding == "same")]}}},
                    {"op_type": f"{l.activation.__name__.upper()}_F", "inputs": [], "outputs": []}]
        if isinstance(l, L.MaxPooling2D):
            return [{"op_type": "MAXPOOLING_2D_F", "description": l.name, "inputs": [], "outputs": [],
                     "attributes": {"strides": {"value": list(l.strides)}, "pool_size": {"value": list(l.pool_size)},
                                    "padding": {"value": [int(l.padding == "same")]}}}]
        if isinstance(l, L.Flatten):
            return [{"op_type": "FLATTEN", "inputs": [], "outputs": []}]
        return []

    def retrain(self, ch):
        """The same model object gets other weights."""
        for l in self.model.layers:
            if l._weights:
                if ch.draw(2):
                    l.set_weights([floats(ch, np.shape(w)) for w in l._weights])
                else:
                    for w in l._weights:
                        w[...] = floats(ch, np.shape(w))
        self.look()

    def twin(self, ch):
        """Another model object of the same architecture and names."""
        t = copy.copy(self)
        t.model = copy.deepcopy(self.model)
        t.retrain(ch)
        return t

    def convert(self):
        return keras2json.convert(self.model)

    def fingerprint(self):
        return keras.models.dumps(self.model)

    def data(self):
        return keras.models.dumps(self.model).encode("utf-8")


class Tflite(Source):
    engine = "TFLITE"
    ext = ".tflite"

    def __init__(self, ch, broken=False):
        suffix = ch.pick(NAMES)
        T, B = tflite.TensorType, tflite.BuiltinOperator
        tensors, buffers = [], [None]
        shared_empty = ch.draw(2)
        shift, plain = ch.draw(4), ch.draw(2)    # the same name is at another place in another model

        def tensor(shape, ttype, data=None, q=True, name=None):
            i = len(tensors)
            quant = None
            if q:
                quant = {"scale": [f32(ch.pick((0.5, 0.0078125, 0.003, 0.1, 1 / 3, 2.0)))], "zero_point": [ch.pick((0, 0, -128, 127, 3, -5))]}
            elif ch.draw(2):
                quant = {}
            if data is not None:
                buffers.append({"dtype": tflite.NUMPY[ttype], "data": np.asarray(data).ravel().tolist()})
                b = len(buffers) - 1
            elif shared_empty:
                b = 0
            else:
                buffers.append(None)
                b = len(buffers) - 1
            tensors.append({"name": f"{'t' if plain else name or 't'}{i + shift}{suffix}", "shape": list(shape), "type": ttype, "buffer": b, "quantization": quant})
            return i
        ops = []
        codes = []

        def code(c):
            if c not in codes:
                codes.append(c)
            return codes.index(c)
        n = size(ch, 4)
        first = cur = tensor((1, n), T.FLOAT32, q=False, name="input")
        nxt = tensor((1, n), T.INT8)
        ops.append({"opcode": code(B.QUANTIZE), "inputs": [cur], "outputs": [nxt]})
        cur = nxt
        self.kinds = []
        for i in range(ch.between(1, 4)):
            k = ch.pick(("fc", "fc", "tanh", "logistic", "softmax", "relu", "reshape", "add", "unknown"))
            self.kinds.append(k)
            if k == "fc":
                m = size(ch, 4)
                kern = ((np.arange(n * m, dtype=np.int64) * 37 + ch.draw(256)) % 256 - 128) if n * m > 400 else np.array(
                    [ch.draw(256) - 128 for _ in range(n * m)])
                ins = [cur, tensor((m, n), T.INT8, kern.reshape(m, n), name="kernel")]
                if not ch.chance(0.2):
                    ins.append(tensor((m,), T.INT32, [ch.draw(1 << 20) - (1 << 19) for _ in range(m)], name="bias"))
                nxt = tensor((1, m), T.INT8)
                ops.append({"opcode": code(B.FULLY_CONNECTED), "inputs": ins, "outputs": [nxt]})
                n = m
            elif k == "reshape":
                nxt = tensor((n, 1) if ch.draw(2) else (1, n, 1), T.INT8)
                ops.append({"opcode": code(B.RESHAPE), "inputs": [cur, tensor((2,), T.INT32, [n, 1], q=False, name="shape")], "outputs": [nxt]})
            elif k == "add":
                nxt = tensor((1, n), T.FLOAT32 if ch.chance(0.3) else T.INT8)
                ops.append({"opcode": code(B.ADD), "inputs": [cur, tensor((n,), T.FLOAT32, floats(ch, (n,)), name="c")], "outputs": [nxt]})
            else:
                nxt = tensor((1, n), T.INT8)
                c = {"tanh": B.TANH, "logistic": B.LOGISTIC, "softmax": B.SOFTMAX, "relu": B.RELU, "unknown": ch.pick((77, 126))}[k]
                ops.append({"opcode": code(c), "inputs": [cur], "outputs": [nxt]})
            cur = nxt
        last = cur
        if ch.draw(2):
            last = tensor((1, n), T.FLOAT32, q=False, name="out")
            ops.append({"opcode": code(B.DEQUANTIZE), "inputs": [cur], "outputs": [last]})
        if broken:
            self.broken = "a tensor that is not there"
            ops[ch.draw(len(ops))]["inputs"].append(len(tensors) + 3)
        self.d = {"version": 3, "opcodes": codes, "buffers": buffers,
                  "subgraphs": [{"tensors": tensors, "operators": ops, "inputs": [first], "outputs": [last]}]}
        self.look()

    def look(self):
        d, T = self.d, tflite.TensorType
        sub = d["subgraphs"][0]
        names = {v: k for k, v in vars(tflite.BuiltinOperator).items() if not k.startswith("_")}
        types = {v: k for k, v in vars(T).items() if not k.startswith("_")}
        self.tables = []

        def node(i):
            if i >= len(sub["tensors"]):
                return {}
            t = sub["tensors"][i]
            q = t["quantization"] or {}
            b = d["buffers"][t["buffer"]]
            data = None if b is None else np.array(b["data"], dtype=b["dtype"]).reshape(t["shape"]).tolist()
            return {"scale": q["scale"][0] if "scale" in q else None, "zero_point": q["zero_point"][0] if "scale" in q else None,
                    "tensor": {"shape": t["shape"], "dtype": types[t["type"]], "name": t["name"], "tensor": data}}
        graph = []
        for o in sub["operators"]:
            k = names.get(d["opcodes"][o["opcode"]], "?")
            op = {"op_type": k, "name": k, "inputs": [node(i) for i in o["inputs"]], "outputs": [node(i) for i in o["outputs"]]}
            if k in ("TANH", "LOGISTIC"):
                i, j = op["inputs"][0], op["outputs"][0]
                t = Table(math.tanh if k == "TANH" else logistic, "int8", i["scale"] or 1.0, i["zero_point"] or 0, j["scale"] or 1.0,
                          j["zero_point"] or 0, 3, 0)
                self.tables.append(t)
                op["inputs"][0] = dict(i, LUT=t)
                op["op_type"] = op["name"] = "TANHLUT" if k == "TANH" else "SIGMOIDLUT"
            graph.append(op)
        self.want = {"ir_version": 3, "engine": "TFLITE", "operators": len(graph), "graph": graph, "input": [node(i) for i in sub["inputs"]],
                     "output": [node(i) for i in sub["outputs"]]}

    def retrain(self, ch):
        """The same file name and size, other contents."""
        for b in self.d["buffers"]:
            if b is not None and b["dtype"] != "float32" and b["data"]:
                k = ch.draw(len(b["data"]))
                b["data"] = b["data"][k:] + b["data"][:k]
        for t in self.d["subgraphs"][0]["tensors"]:
            if t["quantization"]:
                t["quantization"]["zero_point"] = [ch.pick((0, 1, -1, 9))]
        self.look()

    def twin(self, ch):
        t = copy.deepcopy(self)
        t.retrain(ch)
        return t

    def data(self):
        return b"TFL3" + json.dumps(self.d, ensure_ascii=False).encode("utf-8")

    def convert(self):
        itcl_tflite2json.convert(self.path, self.out)
        with real(self.out, "rb") as f:
            return json.loads(f.read().decode("utf-8"))

    def fingerprint(self):
        with real(self.path, "rb") as f:
            return f.read()


class Onnx(Source):
    engine = "ONNX"
    ext = ".onnx"

    def __init__(self, ch, broken=False):
        suffix = ch.pick(NAMES)
        inits, infos, nodes = [], [], []

        def scale(v=None):
            inits.append({"name": f"s{len(inits)}{suffix}", "floats": [f32(ch.pick((0.5, 0.0078125, 0.003, 0.1, 1 / 3, 0.02)))], "data_type": 1})
            return inits[-1]["name"]

        def zp():
            inits.append({"name": f"z{len(inits)}{suffix}", "ints": [ch.pick((0, 128, 255, 7, 100))]})
            return inits[-1]["name"]

        def raw(dims):
            n = int(np.prod(dims))
            if n > 400:
                v = ((np.arange(n) * 37 + ch.draw(256)) % 256).tolist()
            else:
                v = [ch.draw(256) for _ in range(n)]
            inits.append({"name": f"w{len(inits)}{suffix}", "dims": list(dims), "raw": v})
            return inits[-1]["name"]
        n = size(ch, 4)
        cur = "x" + suffix
        d = {"ir_version": ch.pick((7, 8)), "nodes": nodes, "initializers": inits, "value_info": infos, "input": [{"name": cur, "shape": [1, n]}]}
        k0 = [0]

        def out():
            k0[0] += 1
            name = f"v{k0[0]}{suffix}"
            infos.append({"name": name, "shape": [1, n]})
            return name

        def add(kind, ins):
            o = out()
            nodes.append({"op_type": kind, "input": ins, "output": [o]})
            return o
        self.kinds = []
        cur = add("QuantizeLinear", [cur, scale(), zp()])
        for i in range(ch.between(1, 4)):
            k = ch.pick(("matmul", "matmul", "add", "sigmoid", "tanhlut", "tanh", "softmax", "deq"))
            self.kinds.append(k)
            if k == "matmul":
                m = size(ch, 4)
                w = raw((n, m))
                n = m
                cur = add("QLinearMatMul", [cur, scale(), zp(), w, scale(), zp(), scale(), zp()])
            elif k == "add":
                cur = add("QLinearAdd", [cur, scale(), zp(), raw((n,)), scale(), zp(), scale(), zp()])
            elif k == "sigmoid":
                cur = add("QLinearSigmoid", [cur, scale(), zp(), scale(), zp()])
            elif k == "tanhlut":
                cur = add("DequantizeLinear", [cur, scale(), zp()])
                cur = add("Tanh", [cur])
                cur = add("QuantizeLinear", [cur, scale(), zp()])
            elif k == "tanh":
                cur = add("Tanh", [cur])
            elif k == "softmax":
                cur = add("Softmax", [cur])
            else:
                cur = add("DequantizeLinear", [cur, scale(), zp()])
        d["output"] = [dict(infos[-1])]
        if ch.draw(2):                      # the output of the graph is not among its inner values
            infos.pop()
        mix = ch.draw(4)
        if mix and inits:
            k = ch.draw(len(inits))
            inits[:] = inits[k:] + inits[:k]
            if mix == 2:
                inits.reverse()
        if mix > 1:
            infos.reverse()
        if broken:
            how = ch.draw(2)
            if how == 0:
                self.broken = "an unsupported operator"
                nodes.insert(ch.draw(len(nodes) + 1), {"op_type": ch.pick(("Conv", "Gemm", "Relu")), "input": [cur], "output": ["u"]})
            else:
                self.broken = "a missing initializer"
                used = ch.pick([v for m in nodes for v in m["input"] if any(v == i["name"] for i in inits)])
                inits[:] = [i for i in inits if i["name"] != used]
        self.d = d
        self.model = onnx.model(d)
        self.look()

    def look(self):
        d = self.d
        by = {i["name"]: i for i in d["initializers"]}
        shapes = {i["name"]: i for i in d["value_info"] + d["input"] + d["output"]}
        self.tables = []

        def q(t, s, z, transpose=False):
            if s not in by or z not in by or t is not None and t not in by:
                return {}
            tensor = None
            if t is not None:
                w = np.array(by[t]["raw"], dtype="uint8").reshape(by[t]["dims"])
                w = w.T if transpose else w
                tensor = {"shape": list(w.shape), "dtype": "uint8", "tensor": w.tolist()}
            return {"scale": by[s]["floats"][0], "zero_point": by[z]["ints"][0], "tensor": tensor}

        def value(name):
            i = shapes.get(name)
            return {} if i is None else {"tensor": {"name": name, "shape": i["shape"][1], "tensor": None}, "scale": None, "zero_point": None}

        def table(fn, a, b, depth, least):
            if not a or not b:
                return None
            t = Table(fn, "uint8", a["scale"] or 1.0, a["zero_point"], b["scale"] or 1.0, b["zero_point"], depth, least)
            self.tables.append(t)
            return t
        graph = []
        ns = d["nodes"]
        i = 0
        while i < len(ns):
            n = ns[i]
            k, a = n["op_type"], n["input"]
            op = {"op_type": k, "name": k, "outputs": []}
            if [m["op_type"] for m in ns[i:i + 3]] == ["DequantizeLinear", "Tanh", "QuantizeLinear"]:
                b = ns[i + 2]["input"]
                op["op_type"] = op["name"] = "TanhLUT"
                op["inputs"] = [{"scale": None, "zero_point": None, "LUT": table(math.tanh, q(None, a[1], a[2]), q(None, b[1], b[2]), 3, 10)}]
                i += 3
                graph.append(op)
                continue
            if k in ("QuantizeLinear", "DequantizeLinear"):
                op["inputs"] = [q(None, a[1], a[2])]
            elif k in ("QLinearMatMul", "QLinearAdd"):
                op["inputs"] = [q(None, a[1], a[2]), q(a[3], a[4], a[5], k == "QLinearMatMul"), q(None, a[6], a[7])]
            elif k == "QLinearSigmoid":
                op["op_type"] = op["name"] = "SigmoidLUT"
                s = q(None, a[1], a[2])
                op["inputs"] = [dict(s, LUT=table(logistic, s, q(None, a[3], a[4]), 3, 0))]
            elif k in ("Softmax", "Tanh"):
                op["inputs"], op["outputs"] = [value(a[0])], [value(n["output"][0])]
            graph.append(op)
            i += 1
        self.want = {"ir_version": d["ir_version"], "engine": "ONNX", "graph": graph, "input": [value(v["name"]) for v in d["input"]],
                     "output": [value(v["name"]) for v in d["output"]]}

    def retrain(self, ch):
        """The same model object gets other initializers."""
        for i, m in zip(self.d["initializers"], self.model.graph.initializer):
            if i.get("raw") is not None:
                k = ch.draw(len(i["raw"]))
                i["raw"] = i["raw"][k:] + i["raw"][:k]
                m.raw_data = bytes(i["raw"])
            elif i.get("ints"):
                i["ints"] = [ch.pick((0, 1, 9, 200))]
                m.int32_data[:] = i["ints"]
            elif i.get("floats"):
                i["floats"] = [f32(ch.pick((0.25, 0.04, 1 / 7)))]
                m.float_data[:] = i["floats"]
        self.look()

    def twin(self, ch):
        t = copy.copy(self)
        t.d = copy.deepcopy(self.d)
        t.model = onnx.model(t.d)
        t.retrain(ch)
        return t

    def convert(self):
        return onnx2json.model2json(self.model)

    def fingerprint(self):
        return pickle.dumps(vars_(self.model))

    def data(self):
        return b"ONNX" + json.dumps(self.d).encode("utf-8")


def vars_(m):
    if isinstance(m, onnx.M):
        return {k: vars_(v) for k, v in vars(m).items()}
    if isinstance(m, list):
        return [vars_(v) for v in m]
    return m


KINDS = (Keras, Tflite, Onnx)


def chain(e):
    """An exception and what it came from."""
    out = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def scribble(d, ch):
    """A caller makes the description its own."""
    if isinstance(d, dict):
        for k in list(d):
            if isinstance(d[k], (dict, list)):
                scribble(d[k], ch)
            else:
                d[k] = "scribbled"
    elif isinstance(d, list):
        if d and isinstance(d[0], (dict, list)):
            for v in d:
                scribble(v, ch)
        d.append("scribbled")


# --------------------------------------------------------------------------- C01
BAD_FILES = ("missing", "torn", "garbage", "empty", "read error")


def c01(ctx):
    ch = ctx.ch
    mode = ch.pick(("sequence", "concurrent", "concurrent", "interrupted"))
    sources = []
    for i in range(ch.between(1, 3)):
        if sources and ch.chance(0.35):
            s = ch.pick(sources).twin(ch)
        else:
            kind = type(sources[-1]) if sources and ch.draw(2) else ch.pick(KINDS)
            s = kind(ch, broken=ch.chance(0.15))
        s.tag = i
        s.path = os.path.abspath(f"m{i}{s.ext}")
        sources.append(s)
    bad = {}                        # index -> what is wrong with the file
    for i, s in enumerate(sources):
        if isinstance(s, Tflite) and not s.broken and ch.chance(0.2):
            bad[i] = ch.pick(BAD_FILES)
        s.prepare(ctx)

    def save(i):
        s = sources[i]
        b = s.data()
        how = bad.get(i)
        if how == "torn":
            b = b[: ch.draw(len(b) - 1)]
        elif how == "garbage":
            b = b"\x00\x01garbage" + b[9:]
        elif how == "empty":
            b = b""
        if how != "missing":
            with real(s.path, "wb") as f:
                f.write(b)
        elif os.path.exists(s.path):
            os.remove(s.path)
    for i, s in enumerate(sources):
        if isinstance(s, Tflite):
            save(i)
    sim = ctx.sim(max_steps=6_000_000)
    sim.configure(modes=("line", "instr", None) if mode == "concurrent" else (None,))
    F = fs.FaultFS(sim, os.getcwd(), {"eio_read": 1.0} if "read error" in bad.values() else {"short_read": ch.pick((0, 0, 0.3))},
                   only=lambda p: any(p == sources[i].path and h == "read error" for i, h in bad.items()) if bad else p.endswith(".tflite"))
    F.bufsize = ch.pick((8192, 64, 700))
    F.encoding = ch.pick(("utf-8", "utf-8", "cp1252", "ascii", "utf-16"))
    results = []
    before = {}
    users = {}

    def one(i, k, tag):
        s = sources[i]
        s2 = copy.copy(s)
        s2.out = os.path.abspath(f"o{i}-{tag}-{k}.json" if ch.chance(0.3) else f"o{tag}.json")
        want = s.want
        try:
            d = s2.convert()
            e = None
        except Exception as ex:  # noqa: BLE001
            if isinstance(ex, (core.SimAbort, core.StubMissing)) or boom is not None and boom in chain(ex):
                raise
            d, e = None, ex
        why = s.broken or bad.get(i)
        n = len(results)
        what = f"conversion {n + 1} ({s.engine}: {', '.join(s.kinds)})"
        results.append((i, type(e).__name__ if e else "ok"))
        if why:
            if e is None:
                ctx.fail("no-error", f"{what} of a model with {why} yielded a description")
            ctx.count("refused")
            return
        if e is not None:
            ctx.fail("failed", f"{what} failed: {type(e).__name__}: {e}")
        r = differs(want, json.loads(json.dumps(d)))
        if r:
            ctx.fail("wrong-description", f"{what}: the description has at {r}")
        ctx.count("converted")
        kept.append((s, d, json.dumps(d), what))
        if ch.chance(0.3):
            kept.pop()
            scribble(d, ch)
    kept = []
    boom = None
    if mode == "interrupted":
        boom = ch.pick((KeyboardInterrupt, MemoryError, SystemExit, RuntimeError))("injected")

    def work(t, plan):
        for k, (i, change) in enumerate(plan):
            if change and mode != "concurrent":
                if ch.draw(2):
                    sources[i].retrain(ch)
                else:
                    sources[i] = keep_place(sources[i].twin(ch), sources[i])
                redo.append(i)
                if isinstance(sources[i], Tflite):
                    save(i)
                before[i] = None
            if before.get(i) is None and bad.get(i) != "missing":
                before[i] = sources[i].fingerprint()
            try:
                one(i, k, t)
            except BaseException as e:  # noqa: BLE001
                if boom is None or boom not in chain(e):
                    raise
                ctx.count("interrupted")
            if bad.get(i) != "missing" and sources[i].fingerprint() != before[i]:
                ctx.fail("source-changed", f"a conversion changed its source model ({sources[i].engine})")
    redo = []

    def keep_place(new, old):
        new.tag, new.path, new.broken = old.tag, old.path, old.broken
        return new
    plans = []
    for t in range(ch.between(2, 3) if mode == "concurrent" else 1):
        plans.append([(ch.draw(len(sources)), ch.chance(0.3)) for _ in range(ch.between(1, 3) if mode == "concurrent" else ch.between(2, 6))])
    for t, p in enumerate(plans):
        th = sim.spawn(lambda t=t, p=p: work(t, p), f"c{t}")
        if boom is not None:
            th.crash_at, th.crash_exc = ch.draw(ch.pick((50, 600, 4000))), boom
    with fs.mounted(F):
        sim.run()
    if sim.hang or sim.deadlock:
        ctx.fail("hang", f"the conversions never ended ({sim.hang})")
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, core.SimAbort):
            raise t.exc
    for s, d, text, what in kept:
        if json.dumps(d) != text:
            ctx.fail("description-changed", f"{what}: the description changed after it was handed over")
    ctx.evals = len(results)
    ctx.count("mode_" + mode)
    for s in sources:
        ctx.count("source_" + s.engine)
    ctx.nontrivial = len(results) > 1
    ctx.sample = {"mode": mode, "sources": [[s.engine, s.kinds, s.broken] for s in sources], "bad_files": bad, "conversions": results}
    ctx.sig = [mode, [s.kinds for s in sources], bad, results]


# --------------------------------------------------------------------------- C02
tflite_main = importlib.import_module("itcl_tflite2json._tflite2json")

OLD = b'{"graph": "an older model, not JSON of ours'
KINDS_OF_FAULT = ("enospc", "eio_write", "eio_fsync", "eio_rename", "eio_open", "eio_close", "short_write")


def read(p):
    try:
        with real(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Program:
    """A converter and the files it works on."""

    def __init__(self, ctx, root):
        ch = ctx.ch
        self.ctx, self.root = ctx, root
        self.what = ch.pick(("tflite", "tflite", "tflite files", "keras files", "keras files", "onnx files", "onnx files"))
        cls = {"t": Tflite, "k": Keras, "o": Onnx}[self.what[0]]
        many = self.what.endswith("files")
        self.dir = os.path.join(root, {"tflite": "", "tflite files": "models", "keras files": "models", "onnx files": "models/mnist/uint8"}[self.what])
        self.cwd = os.path.join(root, {"tflite files": "code", "onnx files": "code/onnx2json"}.get(self.what, ""))
        for d in (self.dir, self.cwd):
            os.makedirs(d, exist_ok=True)
        n = ch.between(1, 3) if many else 1
        self.sources, self.outs = [], []
        bad = ch.draw(n) if many and n > 1 and ch.chance(0.25) else -1
        for i in range(n):
            s = cls(ch, broken=i == bad)
            s.path = os.path.join(self.dir, f"m{i}{cls.ext}")
            with real(s.path, "wb") as f:
                f.write(s.data())
            self.sources.append(s)
            self.outs.append(os.path.join(self.dir, f"m{i}.json"))
        self.where = "plain"
        self.rel = None
        if not many:
            self.where = ch.pick(("plain", "plain", "directory", "link", "relative", "other name"))
            if self.where == "directory":
                os.mkdir("sub")
                self.outs = [os.path.join(root, "sub", "net.json")]
            elif self.where == "link":
                os.mkdir("store")
                self.outs = [os.path.join(root, "net.json")]
            elif self.where == "other name":
                self.outs = [os.path.join(root, ch.pick(("net", "nét 1.json", "net.json.tmp")))]
        elif ch.draw(2):
            with real(os.path.join(self.dir, "notes.txt"), "wb") as f:
                f.write(b"not a model")
        for s in self.sources:
            s.prepare(ctx)

    def run(self):
        """The converter, as a user starts it.  The working directory is set by the caller."""
        if self.what == "tflite":
            out = self.outs[0]
            itcl_tflite2json.convert(self.sources[0].path, os.path.basename(out) if self.where == "relative" else out)
        elif self.what == "tflite files":
            tflite_main.main()
        elif self.what == "keras files":
            keras_main._main()
        else:
            onnx2json.main()

    @property
    def broken(self):
        return any(s.broken for s in self.sources)


def c02(ctx):
    root = os.getcwd()
    try:
        _c02(ctx, root)
    finally:
        os.chdir(root)


def _c02(ctx, root):
    ch = ctx.ch
    mode = ch.pick(("crash", "crash", "crash", "errors", "errors", "interrupt", "failing", "concurrent", "concurrent"))
    p = Program(ctx, root)
    old = ch.pick(("absent", "description", "bytes", "huge", "same-size"))
    encoding = ch.pick(("utf-8", "utf-8", "cp1252", "ascii", "utf-16"))
    bufsize = ch.pick((8192, 64, 512))
    power = mode == "crash" and ch.draw(2) == 1
    info = {"mode": mode, "program": p.what, "models": [s.kinds for s in p.sources], "broken": [s.broken for s in p.sources],
            "old_file": old, "encoding": encoding, "output": p.where}
    os.chdir(p.cwd)
    n = range(len(p.sources))

    def only(path):
        return not path.endswith(p.sources[0].ext)

    def attempt(fn, faults=None, arm=None, crash_at=None, exc=None, on_op=None):
        sim = ctx.sim(max_steps=8_000_000)
        sim.configure(modes=(None,))
        f = fs.FaultFS(sim, root, faults or {}, only)
        f.bufsize, f.encoding = bufsize, encoding
        if arm is not None:
            f.arm(arm)
        th = sim.spawn(fn, "converter")
        if on_op is not None:
            f.on_op = lambda what, path: on_op(what, path, th)
        if crash_at is not None:
            th.crash_at, th.crash_exc = crash_at, exc
        with fs.mounted(f):
            sim.run()
            if sim.hang or sim.deadlock:
                ctx.fail("hang", f"the conversion never ended ({sim.hang})")
            if sim.frozen and power:
                f.power_loss()
                info["power_loss"] = True
        return sim, th, f

    # the conversion without faults: how many operations and steps there are, and what a new file may look like
    first = []
    _sim, th, f = attempt(p.run, on_op=lambda what, path, t: first.append(t.steps) if path and what == "open" and only(path) else None)
    nops, nsteps = f.nops, th.steps

    def failed_well(e):
        if not p.broken or not isinstance(e, Exception) or isinstance(e, (core.SimAbort, core.StubMissing)):
            raise e
        ctx.count("refused")

    if th.exc is not None:
        failed_well(th.exc)
    elif p.broken:
        ctx.fail("no-error", f"{p.what}: a run over a model with {[s.broken for s in p.sources if s.broken][0]} reported success")
    olds = []
    for i, o in enumerate(p.outs):
        b = read(o)
        if os.path.lexists(o):
            os.remove(o)
        if old == "absent" or i and ch.chance(0.3):
            c = None
        elif old == "bytes":
            c = OLD
        elif old == "huge":
            c = b'{"x": "' + b"y" * 70000 + b'"}'
        elif old == "same-size" and b is not None and re.search(rb"(?<=[\[ ])[1-9](?=[,\]}])", b):
            at = [m.start() for m in re.finditer(rb"(?<=[\[ ])[1-9](?=[,\]}])", b)]
            k = ch.pick(at)
            c = b[:k] + (b"1" if b[k:k + 1] != b"1" else b"2") + b[k + 1:]
        else:
            c = json.dumps({"graph": [], "engine": "older", "pad": "p" * ch.pick((0, 900))}).encode()
        olds.append(c)
        if c is not None:
            if p.where == "link":
                t = os.path.join(root, "store", "real.json")
                if not os.path.lexists(o):
                    os.symlink(t, o)
                o = t
            with real(o, "wb") as g:
                g.write(c)
    wants = [[s.want] for s in p.sources]

    def state(i, b):
        if b == olds[i]:
            return "old"
        if b is None:
            return "gone"
        try:
            d = json.loads(b.decode("utf-8"))
        except ValueError:
            return f"torn ({len(b)} bytes)"
        if p.sources[i].broken:
            return "the description of a broken model"
        r = [differs(w, d) for w in wants[i]]
        return "new" if None in r else f"wrong at {r[0]}"

    def must_be(allowed, when):
        for i, o in enumerate(p.outs):
            s = state(i, read(o))
            ok = ("old",) if p.sources[i].broken else allowed
            if s not in ok and not ("new" in ok and p.broken and s == "old"):
                sig = "torn" if s.startswith("torn") else "lost" if s == "gone" else "wrong-file"
                ctx.fail(sig, f"{p.what}, {when}: output {i} is {s} (there was {'none' if olds[i] is None else 'an older one'})")
            ctx.count("left_" + s)

    def again(when):
        _sim, th, _f = attempt(p.run)
        if th.exc is not None:
            if not p.broken:
                ctx.fail("no-recovery", f"{p.what}, {when} fails: {type(th.exc).__name__}: {th.exc}")
            failed_well(th.exc)
        must_be(("new",), when)
        ctx.count("converted_again")

    if mode == "crash":
        at = ch.draw(3)
        if at == 0:
            k = ch.draw(nops + 6)
            sim, th, f = attempt(p.run, arm=k)
            when = f"killed at operation {k}"
        else:
            lo = min(first) if first else nsteps
            k = ch.draw(nsteps + 1) if at == 1 else max(0, lo - 5) + ch.draw(60)
            sim, th, f = attempt(p.run, crash_at=k, exc=core.SimCrash())
            when = f"killed at step {k}"
        info["killed"] = when
        if sim.frozen:
            ctx.count("killed")
            must_be(("old", "new"), when + (" and power lost" if power else ""))
        else:
            if th.exc is not None:
                failed_well(th.exc)
            must_be(("new",), "a run without a crash")
            if ch.draw(2):
                with fs.mounted(f):
                    f.power_loss()
                must_be(("old", "new"), "power lost after the run")
        again("a run after the crash")
    elif mode in ("errors", "failing"):
        if mode == "errors":
            faults = {k: q for k in KINDS_OF_FAULT for q in [ch.pick((0, 0, 0.05, 0.3, 1.0) if k != "short_write" else (0, 0.3))] if q}
        else:
            faults = {ch.pick(KINDS_OF_FAULT): ch.pick((1.0, 0.5))}
        info["faults"] = faults
        for _ in range(ch.between(1, 3)):
            sim, th, f = attempt(p.run, faults=faults)
            e = th.exc
            if e is None:
                must_be(("new",), "a run that reported success on a failing disk")
                ctx.count("succeeded_on_failing_disk")
                if ch.draw(2):
                    with fs.mounted(f):
                        f.power_loss()
                    must_be(("old", "new"), "power lost after a run that reported success on a failing disk")
                break
            if not isinstance(e, OSError):
                failed_well(e)
            elif not f.errors:
                ctx.fail("short-write", f"{p.what} failed although no operation did: {type(e).__name__}: {e}")
            ctx.count("failed_on_failing_disk")
            must_be(("old", "new"), f"after a failed run ({type(e).__name__}: {e})")
        again("a run after the disk works again")
    elif mode == "interrupt":
        exc = ch.pick((KeyboardInterrupt, MemoryError, SystemExit, RuntimeError))()
        if ch.draw(2):
            k = ch.draw(nsteps + 1)
            sim, th, f = attempt(p.run, crash_at=k, exc=exc)
            at = f"step {k}"
        else:
            k = ch.draw(nops + 6)
            c = [0]

            def on_op(what, path, _th):
                c[0] += 1
                if c[0] == k + 1 and what not in ("close",):
                    ctx.count("interrupted_at_" + what)
                    raise exc
            sim, th, f = attempt(p.run, on_op=on_op)
            at = f"operation {k}"
        info["interrupted_at"] = at
        if th.exc is None:
            must_be(("new",), "a run")
        elif exc in chain(th.exc):
            ctx.count("interrupted")
            must_be(("old", "new"), f"{type(exc).__name__} at {at}")
        else:
            failed_well(th.exc)
            must_be(("old", "new"), "a refused run")
        again("a run after the interrupted one")
    else:
        beside(ctx, p, wants, olds, state, must_be, bufsize, encoding, info, root)
        again("a run after the concurrent ones")
    ctx.evals = 2
    ctx.count("mode_" + mode)
    ctx.count("program_" + p.what.replace(" ", "_"))
    ctx.nontrivial = True
    ctx.sample = info
    ctx.sig = [info, bufsize]


def beside(ctx, p, wants, olds, state, must_be, bufsize, encoding, info, root):
    """Two conversions to the same files while another thread reads them."""
    ch = ctx.ch
    sim = ctx.sim(max_steps=20_000_000)
    sim.configure(modes=("line", "instr", None))
    f = fs.FaultFS(sim, root)
    f.bufsize, f.encoding = bufsize, encoding
    over = [0]
    seen = [[] for _ in p.outs]
    two = ch.draw(2) == 1
    other = None
    if two and p.what == "tflite":
        other = p.sources[0].twin(ch)
        other.path = os.path.join(root, "other.tflite")
        with real(other.path, "wb") as g:
            g.write(other.data())
        wants[0].append(other.want)

    def a():
        try:
            p.run()
        finally:
            over[0] += 1

    def b():
        try:
            if other is None:
                p.run()
            else:
                itcl_tflite2json.convert(other.path, p.outs[0])
        finally:
            over[0] += 1

    def reader():
        size = ch.pick((32, 4096, 100000))
        k = 0
        while over[0] < 1 + two and k < 400:
            k += 1
            i = ch.draw(len(p.outs))
            try:
                with open(p.outs[i], "rb") as g:
                    data = b""
                    while True:
                        c = g.read(size)
                        if not c:
                            break
                        data += c
            except FileNotFoundError:
                data = None
            s = state(i, data)
            if s == "gone":
                ctx.fail("lost", f"{p.what}: a reader finds no output {i} while a conversion runs")
            if s not in (("old",) if p.sources[i].broken else ("old", "new")):
                ctx.fail("torn" if s.startswith("torn") else "wrong-file", f"{p.what}: a reader sees an output that is {s} while a conversion runs")
            if s == "old" and "new" in seen[i]:
                ctx.fail("wrong-file", f"{p.what}: a reader sees the older output after the new one")
            seen[i].append(s)
            ctx.count("read_" + s)
            for _ in range(ch.pick((1, 1, 5, 20))):
                sim.yield_()
    sim.spawn(a, "conversion-a")
    if two:
        sim.spawn(b, "conversion-b")
    sim.spawn(reader, "reader")
    with fs.mounted(f):
        sim.run()
    if sim.hang or sim.deadlock:
        ctx.fail("hang", f"concurrent conversions never ended ({sim.hang})")
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, core.SimAbort):
            if t.name.startswith("conversion") and not p.broken:
                ctx.fail("failed", f"{p.what}: {t.name} raised {type(t.exc).__name__}: {t.exc} beside another conversion")
            if not (p.broken and isinstance(t.exc, Exception)) or isinstance(t.exc, core.StubMissing):
                raise t.exc
    must_be(("new",), "after concurrent conversions")
    wants[0][1:] = []
    info["two"] = two
    info["reads"] = sum(map(len, seen))


RUN = {"C01": c01, "C02": c02}
