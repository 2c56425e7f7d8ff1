"""Stand-in for the messages of ONNX: a model file is "ONNX" and JSON."""
import json

import numpy as np


class M:
    """A message: attributes, compared by content."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __eq__(self, o):
        return isinstance(o, M) and vars(self) == vars(o)

    __hash__ = None

    def HasField(self, name):
        return getattr(self, name, None) is not None

    def WhichOneof(self, name):
        return "dim_value" if hasattr(self, "dim_value") else None


ModelProto = GraphProto = NodeProto = TensorProto = ValueInfoProto = M


def info(d):
    return M(name=d["name"], doc_string="", type=M(tensor_type=M(elem_type=1, shape=M(dim=[M(dim_value=v, dim_param="") for v in d["shape"]]))))


def init(d):
    raw = np.array(d["raw"], dtype="uint8").tobytes() if d.get("raw") is not None else b""
    return M(name=d["name"], dims=list(d.get("dims", ())), raw_data=raw, float_data=list(d.get("floats", ())),
             int32_data=list(d.get("ints", ())), data_type=d.get("data_type", 2), int64_data=[], doc_string="")


def model(d):
    g = M(name="g", node=[M(op_type=n["op_type"], input=list(n["input"]), output=list(n["output"]), name=n.get("name", ""), attribute=[],
                            domain="", doc_string="") for n in d["nodes"]],
          initializer=[init(i) for i in d["initializers"]], value_info=[info(i) for i in d["value_info"]],
          input=[info(i) for i in d["input"]], output=[info(i) for i in d["output"]], doc_string="")
    return M(ir_version=d["ir_version"], graph=g, producer_name="stub", opset_import=[], metadata_props=[], doc_string="")


def load_model_from_string(b, *a, **k):
    if b[:4] != b"ONNX":
        raise ValueError("Error parsing message with type 'onnx.ModelProto'")
    try:
        return model(json.loads(b[4:].decode("utf-8")))
    except ValueError:
        raise ValueError("Error parsing message with type 'onnx.ModelProto'") from None


def load(f, *a, **k):
    if hasattr(f, "read"):
        return load_model_from_string(f.read())
    with open(f, "rb") as g:
        return load_model_from_string(g.read())


load_model = load
load_from_string = load_model_from_string
