"""Stand-in for the flatbuffer accessors of TFLite: a model file is "TFL3" and JSON."""
import json

import numpy as np


class TensorType:
    FLOAT32, FLOAT16, INT32, UINT8, INT64, STRING, BOOL, INT16, COMPLEX64, INT8, FLOAT64 = range(11)


class BuiltinOperator:
    ADD, AVERAGE_POOL_2D, CONCATENATION, CONV_2D, DEPTHWISE_CONV_2D, DEPTH_TO_SPACE, DEQUANTIZE = range(7)
    FULLY_CONNECTED, LOGISTIC, LSTM, MAX_POOL_2D, MUL, RELU, RELU_N1_TO_1, RELU6, RESHAPE = 9, 14, 16, 17, 18, 19, 20, 21, 22
    SOFTMAX, TANH, CUSTOM, QUANTIZE = 25, 28, 32, 114


NUMPY = {0: "float32", 2: "int32", 3: "uint8", 4: "int64", 7: "int16", 9: "int8", 10: "float64"}


class _T:
    def __init__(self, d, m=None):
        self._d = d
        self._m = m


def _vector(name, key, dtype):
    def one(self, i):
        return dtype(self._d[key][i]).item()

    def arr(self):
        v = self._d.get(key)
        return 0 if v is None else np.array(v, dtype=dtype)

    def length(self):
        return len(self._d.get(key) or ())

    def none(self):
        return self._d.get(key) is None
    return {name: one, name + "AsNumpy": arr, name + "Length": length, name + "IsNone": none}


def _add(cls, *vs):
    for v in vs:
        for k, f in v.items():
            setattr(cls, k, f)
    return cls


class QuantizationParameters(_T):
    def QuantizedDimension(self):
        return 0


_add(QuantizationParameters, _vector("Scale", "scale", np.float32), _vector("ZeroPoint", "zero_point", np.int64),
     _vector("Min", "min", np.float32), _vector("Max", "max", np.float32))


class Buffer(_T):
    def _bytes(self):
        if self._d is None:
            return None
        return np.array(self._d["data"], dtype=self._d["dtype"]).tobytes()

    def DataAsNumpy(self):
        b = self._bytes()
        return 0 if b is None else np.frombuffer(b, dtype=np.uint8)

    def DataLength(self):
        return len(self._bytes() or b"")

    def DataIsNone(self):
        return self._d is None

    def Data(self, i):
        return self._bytes()[i]


class Tensor(_T):
    def Name(self):
        return self._d["name"].encode("utf-8")

    def Type(self):
        return self._d["type"]

    def Buffer(self):
        return self._d["buffer"]

    def Quantization(self):
        q = self._d.get("quantization")
        return None if q is None else QuantizationParameters(q)

    def IsVariable(self):
        return False


_add(Tensor, _vector("Shape", "shape", np.int32))


class Operator(_T):
    def OpcodeIndex(self):
        return self._d["opcode"]

    def BuiltinOptions(self):
        return None

    def BuiltinOptionsType(self):
        return 0


_add(Operator, _vector("Inputs", "inputs", np.int32), _vector("Outputs", "outputs", np.int32))


class OperatorCode(_T):
    def BuiltinCode(self):
        return self._d["code"]

    def DeprecatedBuiltinCode(self):
        return self._d["code"]

    def Version(self):
        return 1

    def CustomCode(self):
        return None


class SubGraph(_T):
    def Tensors(self, i):
        return Tensor(self._d["tensors"][i])

    def TensorsLength(self):
        return len(self._d["tensors"])

    def Operators(self, i):
        return Operator(self._d["operators"][i])

    def OperatorsLength(self):
        return len(self._d["operators"])

    def Name(self):
        return b"main"


_add(SubGraph, _vector("Inputs", "inputs", np.int32), _vector("Outputs", "outputs", np.int32))


class Model(_T):
    @classmethod
    def GetRootAsModel(cls, buf, offset=0):
        return cls(parse(bytes(buf)[offset:]))

    GetRootAs = GetRootAsModel

    @classmethod
    def ModelBufferHasIdentifier(cls, buf, offset=0, size_prefixed=False):
        return bytes(buf)[offset:][:4] == b"TFL3"

    def Version(self):
        return self._d["version"]

    def Subgraphs(self, i):
        return SubGraph(self._d["subgraphs"][i])

    def SubgraphsLength(self):
        return len(self._d["subgraphs"])

    def OperatorCodes(self, i):
        return OperatorCode({"code": self._d["opcodes"][i]})

    def OperatorCodesLength(self):
        return len(self._d["opcodes"])

    def Buffers(self, i):
        return Buffer(self._d["buffers"][i])

    def BuffersLength(self):
        return len(self._d["buffers"])

    def Description(self):
        return b"stub"


def parse(data):
    if data[:4] != b"TFL3":
        raise ValueError("Model provided has model identifier '', should be 'TFL3'")
    return json.loads(data[4:].decode("utf-8"))
