"""Source models for the demonstrations (built with the stand-ins beside this file)."""
import builtins
import json
import os
import sys

import numpy as np

builtins.print = lambda *a, **k: None
REPO = os.getcwd()
for d in ("keras2json", "tflite2json", "onnx2json"):
    sys.path.append(os.path.join(REPO, "model_converters", d))
os.chdir(os.path.join(REPO, "model_converters", "onnx2json"))


def tanh_tflite(path, s_in=0.05, zp_in=0, s_out=1 / 128, zp_out=0, weight=1, names=("in", "q", "w", "h", "t")):
    """input -> FULLY_CONNECTED -> TANH"""
    q = lambda s, z: {"scale": [s], "zero_point": [z]}
    tensors = [{"name": names[1], "shape": [1, 2], "type": 9, "buffer": 0, "quantization": q(0.1, 0)},
               {"name": names[2], "shape": [2, 2], "type": 9, "buffer": 1, "quantization": q(0.1, 0)},
               {"name": names[3], "shape": [1, 2], "type": 9, "buffer": 0, "quantization": q(s_in, zp_in)},
               {"name": names[4], "shape": [1, 2], "type": 9, "buffer": 0, "quantization": q(s_out, zp_out)}]
    d = {"version": 3, "opcodes": [9, 28], "buffers": [None, {"dtype": "int8", "data": [weight, 2, 3, 4]}],
         "subgraphs": [{"tensors": tensors, "inputs": [0], "outputs": [3],
                        "operators": [{"opcode": 0, "inputs": [0, 1], "outputs": [2]}, {"opcode": 1, "inputs": [2], "outputs": [3]}]}]}
    with open(path, "wb") as f:
        f.write(b"TFL3" + json.dumps(d).encode())


def matmul_onnx(scales=(0.5, 0.25, 0.125), weights=(1, 2, 3, 4), order=1):
    import onnx
    inits = [{"name": "sx", "floats": [scales[0]]}, {"name": "zx", "ints": [1]}, {"name": "w", "dims": [2, 2], "raw": list(weights)},
             {"name": "sw", "floats": [scales[1]]}, {"name": "zw", "ints": [2]}, {"name": "sy", "floats": [scales[2]]}, {"name": "zy", "ints": [3]}]
    return onnx.model({"ir_version": 8, "nodes": [{"op_type": "QLinearMatMul", "input": ["x", "sx", "zx", "w", "sw", "zw", "sy", "zy"], "output": ["y"]}],
                       "initializers": inits[::order], "value_info": [], "input": [{"name": "x", "shape": [1, 2]}],
                       "output": [{"name": "y", "shape": [1, 2]}]})
