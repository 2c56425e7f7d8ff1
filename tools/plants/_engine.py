"""Small networks for the demonstrations of the inference engine."""
import logging

import numpy as np

logging.disable(logging.CRITICAL)
np.seterr(all="ignore")


def node(scale=None, zp=None, shape=(1,), dtype="INT8", tensor=None, lut=None):
    return {"scale": scale, "zero_point": zp, "LUT": lut,
            "tensor": {"shape": list(shape), "dtype": dtype, "name": "t", "tensor": tensor}}


def net(graph, engine="tflite"):
    io = [{"scale": None, "zero_point": None, "tensor": {"shape": [1], "dtype": "FLOAT32", "name": "io", "tensor": None}}]
    return {"engine": engine, "generated_at": "now", "ir_version": "0.1", "operators": len(graph), "graph": graph,
            "input": io, "output": io}


def op(kind, inputs, outputs, **attributes):
    return {"op_type": kind, "name": kind, "description": kind, "inputs": inputs, "outputs": outputs, "attributes": attributes}


def quantize(scale=0.05, zp=3):
    return op("QUANTIZE", [], [node(scale, zp)])


def dequantize(scale=0.1, zp=-5):
    return op("DEQUANTIZE", [node(scale, zp)], [node()])


def dense(n_in=3, n_out=2, seed=1):
    r = np.random.RandomState(seed)
    w = r.randint(-120, 120, (n_out, n_in)).tolist()
    b = r.randint(-500, 500, n_out).tolist()
    return op("FULLY_CONNECTED", [node(0.05, 3), node(0.01, 0, (n_out, n_in), "INT8", w),
                                  node(0.0005, 0, (n_out,), "INT32", b)], [node(0.1, -5, (n_out,))])


def dense_net(n_in=3, n_out=2, seed=1):
    return net([quantize(), dense(n_in, n_out, seed), dequantize()])


def lstm(units=2, feat=2, seed=3, return_sequences=False):
    r = np.random.RandomState(seed)
    lut = {"LUT": np.clip(np.round(127 * np.tanh(np.arange(-128, 128) / 40)), -128, 127).astype(int).tolist(),
           "reduced_LUT": None, "offset": 128}
    k = [node(0.01, 0, (feat, units), "INT8", r.randint(-100, 100, (feat, units)).tolist()) for _ in range(4)]
    u = [node(0.01, 0, (units, units), "INT8", r.randint(-100, 100, (units, units)).tolist()) for _ in range(4)]
    b = [node(0.0005, 0, (units,), "INT32", r.randint(-900, 900, units).tolist()) for _ in range(4)]
    ba = [node(0.0005, 0, (units,), "INT32") for _ in range(4)]
    ra = [node(0.02, i - 2, (units,)) for i in range(4)]
    cs = [node(0.03, 0, (units,))]
    gates = []
    for _ in range(4):
        gates += [node(0.02, 0, (units,), lut=lut), node(0.0078, 0, (units,))]
    act = [node(0.03, 0, (units,), lut=lut), node(0.0078, 0, (units,))]
    return op("LSTM", [node(0.05, 3)] + k + u + b + ba + ra + cs + gates + act, [node(0.0078, 2, (units,))],
              return_sequences={"value": [return_sequences]})


def lstm_net(**k):
    return net([quantize(), lstm(**k), dequantize(0.0078, 2)])


def interleave(call, other, max_pauses=400):
    """Runs call() and, at every line of the engine it executes, other() on a second thread (which runs to its end before the
    first continues): a schedule of two threads in which the first is preempted everywhere."""
    import sys
    import threading
    pauses = [0]

    def run_other():
        t = threading.Thread(target=other)
        t.start()
        t.join()

    def trace(frame, event, arg):
        name = frame.f_code.co_filename
        if "itcl_inference_engine" not in name and "itcl_quantization" not in name:
            return None
        if event in ("line", "return") and pauses[0] < max_pauses:
            pauses[0] += 1
            run_other()
        return trace

    sys.settrace(trace)
    try:
        return call()
    finally:
        sys.settrace(None)
