"""Random model descriptions for the inference engine (and inputs that fit them)."""
from __future__ import annotations

import numpy as np

from itcl_quantization.quantization.lut import ReducedLUT

SCALES = (0.05, 0.0078125, 0.11, 0.5, 0.0137, 1.7)


def node(name, scale=None, zp=None, dtype="int8", shape=(), tensor=None, lut=None):
    return {"tensor": {"tensor": tensor, "shape": list(shape), "dtype": dtype, "name": name},
            "zero_point": zp, "scale": scale, "LUT": lut}


def op(kind, name, inputs, outputs, attributes=None):
    return {"op_type": kind, "name": name, "inputs": inputs, "outputs": outputs, "description": None,
            "attributes": attributes if attributes is not None else {}}


def ints(ch, shape, lo, hi):
    if not shape:
        return ch.between(lo, hi)
    return [ints(ch, shape[1:], lo, hi) for _ in range(shape[0])]


def lut_of(ch, fn, n, offset, lo, hi, scale):
    table = [int(np.clip(np.floor(fn((i - offset) * scale) * (hi - lo) / 2.2 + (hi + lo) / 2 + 0.5), lo, hi)) for i in range(n)]
    red = None
    k = ch.draw(3)
    if k:
        red = ReducedLUT(table, ch.between(1, 3), 0, asymmetric=k == 2).serialize()
        red = {**red, "head": {**red["head"], "tuples": [list(t) for t in red["head"]["tuples"]]},
               "tail": {**red["tail"], "tuples": [list(t) for t in red["tail"]["tuples"]]}}
    return {"LUT": table, "reduced_LUT": red, "offset": offset}


def sig(x):
    return 2.0 / (1.0 + np.exp(-x)) - 1.0


def lut_int8(ch, scale):
    return lut_of(ch, ch.pick((np.tanh, sig)), 256, 128, -128, 127, scale)


def tflite(ch, legacy=False, lstm=False, tag=0):
    g = []
    s, zp = ch.pick(SCALES), ch.pick((0, -3, 17))
    feat = ch.between(1, 4)
    qin = node("x_q", s, zp, "int8", [1, feat])
    if not legacy:
        g.append(op("QUANTIZE", "QUANTIZE", [node("x", dtype="float32", shape=[1, feat])], [qin]))
    cur, n = qin, feat
    kinds = set()
    seq = False
    if lstm:
        n = ch.between(1, 3)
        o, seq = lstm_op(ch, cur, feat, n)
        g.append(o)
        cur = o["outputs"][0]
        kinds.add("LSTM")
    layers = ch.between(0 if lstm else 1, 3)
    if lstm and seq:
        layers = 0
    for li in range(layers):
        m = ch.between(1, 4)
        ws = ch.pick(SCALES)
        os_, ozp = ch.pick(SCALES), ch.pick((0, 5, -20))
        w = node(f"w{li}", ws, 0, "int8", [m, n], ints(ch, [m, n], -127, 127))
        b = node(f"b{li}", cur["scale"] * ws, 0, "int32", [m], ints(ch, [m], -3000, 3000))
        out = node(f"d{li}", os_, ozp, "int8", [1, m])
        g.append(op("FULLY_CONNECTED", f"dense_{li}" if legacy else f"FULLY_CONNECTED_{li}", [cur, w, b], [out]))
        cur, n = out, m
        a = ch.pick(("none", "TANHLUT", "SIGMOIDLUT", "TANH", "LOGISTIC", "RELU", "SOFTMAX"))
        kinds.add(a)
        if a == "none":
            continue
        if a in ("TANHLUT", "SIGMOIDLUT"):
            ain = node(f"a{li}i", os_, ozp, "int8", [1, m], None, lut_int8(ch, os_))
        else:
            ain = node(f"a{li}i", os_, ozp, "int8", [1, m])
        if a == "TANH":
            aout = node(f"a{li}", 1 / 128, 0, "int8", [1, m])
        elif a == "LOGISTIC":
            aout = node(f"a{li}", 1 / 256, -128, "int8", [1, m])
        elif a in ("RELU", "SOFTMAX"):
            aout = node(f"a{li}", os_, ozp, "int8", [1, m])
        else:
            aout = node(f"a{li}", 1 / 128, 0, "int8", [1, m])
        g.append(op(a, f"{a}_{li}", [ain], [aout]))
        cur = aout
    if not legacy:
        g.append(op("DEQUANTIZE", "DEQUANTIZE", [cur], [node("y", dtype="float32", shape=[1, n])]))
    d = {"ir_version": "1.0.0", "engine": ch.pick(("TFLITE", "tflite")), "generated_at": f"2024-01-0{tag + 1} 10:00:00.5",
         "operators": len(g), "graph": g, "input": [qin], "output": [cur]}
    return d, {"feat": feat, "lstm": lstm, "kinds": sorted(kinds), "engine": "tflite", "legacy": legacy, "seq": seq}


def lstm_op(ch, xin, feat, n):
    i = [xin]
    ks = [ch.pick(SCALES) for _ in range(4)]
    rs = [ch.pick(SCALES) for _ in range(4)]
    ras = [ch.pick(SCALES) for _ in range(4)]
    for k in range(4):
        i.append(node(f"k{k}", ks[k], ch.pick((0, 3)), "int8", [feat, n], ints(ch, [feat, n], -100, 100)))
    for k in range(4):
        i.append(node(f"r{k}", rs[k], 0, "int8", [n, n], ints(ch, [n, n], -100, 100)))
    for k in range(4):
        i.append(node(f"b{k}", ks[k] * xin["scale"], 0, "int32", [n], ints(ch, [n], -500, 500)))
    for k in range(4):
        i.append(node(f"ba{k}", ks[k], 0, "int32", [1, n]))
    for k in range(4):
        i.append(node(f"ra{k}", ras[k], ch.pick((0, -7)), "int8", [1, n]))
    cs = node("cs", 1 / 64, 0, "int8", [1, n])
    i.append(cs)
    for k in range(4):
        i.append(node(f"g{k}i", ras[k], 0, "int8", [1, n], None, lut_int8(ch, ras[k])))
        i.append(node(f"g{k}o", 1 / 128, ch.pick((0, -128)), "int8", [1, n]))
    i.append(node("csi", 1 / 64, 0, "int8", [1, n], None, lut_int8(ch, 1 / 64)))
    i.append(node("cso", 1 / 128, 0, "int8", [1, n]))
    seq = ch.draw(2) == 1
    out = node("h", 1 / 128, ch.pick((0, 2)), "int8", [1, n])
    return op("LSTM", "LSTM", i, [out], {"return_sequences": {"value": [seq], "dtype": "bool"}}), seq


def onnx(ch, tag=0):
    g = []
    feat = ch.between(1, 4)
    s, zp = ch.pick(SCALES), ch.between(0, 200)
    cur = node("x", s, zp, "uint8", [1, feat])
    first = cur
    g.append(op("QuantizeLinear", "QuantizeLinear_0", [cur], [cur]))
    n = feat
    kinds = set()
    q = True
    for li in range(ch.between(1, 3)):
        m = ch.between(1, 4)
        w = node(f"w{li}", ch.pick(SCALES), ch.between(0, 255), "uint8", [n, m], ints(ch, [n, m], 0, 255))
        w["tensor"]["tensor"] = [list(r) for r in zip(*w["tensor"]["tensor"])] if False else w["tensor"]["tensor"]
        mm = node(f"m{li}", ch.pick(SCALES), ch.between(0, 255), "uint8", [1, m])
        # the engine multiplies with the transposed stored matrix
        w["tensor"]["tensor"] = np.array(w["tensor"]["tensor"]).T.tolist()
        w["tensor"]["shape"] = [m, n]
        g.append(op("QLinearMatMul", f"QLinearMatMul_{li}", [cur, w, mm], [mm]))
        b = node(f"b{li}", ch.pick(SCALES), ch.between(0, 255), "uint8", [m], ints(ch, [m], 0, 255))
        ad = node(f"s{li}", ch.pick(SCALES), ch.between(0, 255), "uint8", [1, m])
        g.append(op("QLinearAdd", f"QLinearAdd_{li}", [mm, b, ad], [ad]))
        cur, n = ad, m
        a = ch.pick(("none", "QLinearSigmoid", "SigmoidLUT", "TanhLUT"))
        kinds.add(a)
        if a == "QLinearSigmoid":
            o = node(f"g{li}", 1 / 256, 0, "uint8", [1, m])
            g.append(op(a, f"{a}_{li}", [cur, o], [o]))
            cur = o
        elif a != "none":
            i = node(f"g{li}i", cur["scale"], cur["zero_point"], "uint8", [1, m], None,
                     lut_of(ch, ch.pick((np.tanh, sig)), 256, 0, 0, 255, cur["scale"]))
            o = node(f"g{li}", 1 / 128, 128, "uint8", [1, m])
            g.append(op(a, f"{a}_{li}", [i], [o]))
            cur = o
    if ch.draw(4):
        y = node("y", dtype="float32", shape=[1, n])
        g.append(op("DequantizeLinear", "DequantizeLinear_0", [cur], [y]))
        a = ch.pick(("none", "Softmax", "Tanh"))
        kinds.add(a)
        if a != "none":
            g.append(op(a, a, [y], [y]))
    d = {"ir_version": "1.0.0", "engine": ch.pick(("ONNX", "onnx", "Onnx")), "generated_at": f"2024-01-0{tag + 1}",
         "operators": len(g), "graph": g, "input": [first], "output": [cur]}
    return d, {"feat": feat, "lstm": False, "kinds": sorted(kinds), "engine": "onnx", "legacy": False, "seq": False}


def network(ch, tag=0):
    d, info = _network(ch, tag)
    if ch.chance(0.4):          # names need not be unique: the quantizer names an activation by its kind
        for o in d["graph"]:
            o["name"] = o["op_type"]
    return d, info


def _network(ch, tag=0):
    k = ch.draw(6)
    if k in (0, 1):
        return tflite(ch, tag=tag)
    if k == 2:
        return tflite(ch, legacy=True, tag=tag)
    if k == 3:
        return tflite(ch, lstm=True, tag=tag)
    return onnx(ch, tag=tag)


def variant(ch, desc):
    """The same architecture with the same names: a weight, bias, table entry or parameter differs."""
    import copy
    d = copy.deepcopy(desc)
    spots = []

    def lists(o, found):
        if isinstance(o, list) and o and not isinstance(o[0], (list, dict)):
            found.append(o)
        elif isinstance(o, list):
            for v in o:
                lists(v, found)
        return found
    for o in d["graph"]:
        for n in o["inputs"] + o["outputs"]:
            t = (n or {}).get("tensor")
            if t and t["tensor"] is not None:
                spots += [(v, t["dtype"]) for v in lists(t["tensor"], [])]
            if n and n.get("LUT"):
                spots.append((n["LUT"]["LUT"], "table"))
    for _ in range(ch.between(1, 2)):
        if not spots:
            break
        v, kind = spots[ch.draw(len(spots))]
        if kind == "table":
            v[:] = v[::-1]
            for o in d["graph"]:
                for n in o["inputs"]:
                    if n and n.get("LUT") and n["LUT"]["LUT"] is v and n["LUT"]["reduced_LUT"]:
                        n["LUT"]["reduced_LUT"] = None
        else:
            k = len(v) - 1 if ch.draw(2) else ch.draw(len(v))
            v[k] = 7 - v[k] if kind != "uint8" else 255 - v[k]
    return d


def rows(ch, info, n, dtype=None):
    """n input rows; values partly far out of range, on ties, or repeated."""
    feat = info["feat"]
    steps = ch.between(1, 3) if info["lstm"] else 0
    shape = (n, steps, feat) if info["lstm"] else (n, feat)
    size = int(np.prod(shape))
    v = []
    big = ch.chance(0.15)
    for _ in range(size):
        k = ch.draw(64)
        x = (k - 32) * ch.pick((0.03125, 0.13, 1.0))
        if big and k == 63:
            x = ch.pick((1e6, -1e6, 300.0, -1e30))
        v.append(x)
    t = dtype or ch.pick(("float32", "float64", "float32", "float64", "int64", "int8", "int32"))
    v = np.array(v, dtype="float64")
    if t.startswith("int"):
        v = np.clip(np.rint(v), -128, 127)
    a = v.astype(t).reshape(shape)
    if n > 1 and ch.chance(0.3):
        a[ch.draw(n)] = a[ch.draw(n)]
    return a


def layout(ch, a):
    """The same values in another memory layout."""
    k = ch.draw(6)
    if k == 1:
        return np.array(a, order="F")
    if k == 4:
        b = a.copy()
        b.flags.writeable = False
        return b
    if k == 5:
        b = np.zeros(a.shape[:-1] + (a.shape[-1] + 2,), a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    if k == 2:
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if k == 3:
        return a[::-1].copy()[::-1]
    return a.copy()
