PROPERTY = "C01"
NEEDS = """Two different ONNX models converted in one process that have the same number of initializers, listed in another order: the
second uses the positions of the first."""
BREAKS = """The positions of the initializers are looked up once and kept while their number stays the same, so a tensor, a scale or a zero
point of the next model is taken from the wrong place."""
F = "model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py"
EDITS = [
    (F, "    id2idx = {init.name: i for i, init in enumerate(initializers)}\n\n    scale_init",
     """    # Every operator of the model needs the positions
    if len(_positions) != len(initializers):
        _positions.clear()
        _positions.update({init.name: i for i, init in enumerate(initializers)})
    id2idx = _positions

    scale_init"""),
    (F, "def build_quantized_node(", "_positions: dict = {}\n\n\ndef build_quantized_node("),
]
HELPERS = ["_models.py"]
DEMO = """
from models import matmul_onnx
from importlib import import_module

convert = import_module("2json").model2json
want = convert(matmul_onnx())["graph"]
try:
    got = convert(matmul_onnx(order=-1))["graph"]
except Exception as e:
    got = e
assert got == want, (got, want)
"""
