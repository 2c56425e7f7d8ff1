PROPERTY = "C01"
NEEDS = """Two TFLite files with tensors of equal names at different places, converted by two threads at once: one looks its names up while the other
is reading tensors."""
BREAKS = """The table of tensor names is shared by all conversions of the process, so a tensor is read at the place it has in the other model."""
F = "model_converters/tflite2json/itcl_tflite2json/__init__.py"
EDITS = [
    (F, """    layer_name2idx = {
        l["name"]: l["index"] for l in interpreter.get_tensor_details()
    }
""", """    layer_name2idx = _layer_name2idx
    for l in interpreter.get_tensor_details():
        layer_name2idx[l["name"]] = l["index"]
"""),
    (F, "def convert(input_model", "_layer_name2idx: Dict[str, int] = {}\n\n\ndef convert(input_model"),
]
HELPERS = ["_models.py"]
DEMO = """
import json, tempfile
from models import tanh_tflite
import itcl_tflite2json as t

with tempfile.TemporaryDirectory() as d:
    tanh_tflite(d + "/a.tflite")
    tanh_tflite(d + "/b.tflite", names=("in", "w", "q", "h", "t"))
    t.convert(d + "/a.tflite", d + "/a.json")
    want = json.load(open(d + "/a.json"))
    real, done = t.BaseOperator.build_from_node, []

    def slow(*a):                        # another conversion gets its turn before the first tensor is read
        if not done:
            done.append(1)
            t.convert(d + "/b.tflite", d + "/b.json")
        return real(*a)
    t.BaseOperator.build_from_node = staticmethod(slow)
    t.convert(d + "/a.tflite", d + "/a2.json")
    assert json.load(open(d + "/a2.json")) == want
"""
