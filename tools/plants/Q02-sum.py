PROPERTY = "Q02"
NEEDS = "A rounding that moves its ones to other places without changing how many there are (two bits of a tensor flipped at once)."
BREAKS = """A tensor is only quantized again when the number of values rounded up changed: a rounding with as many ones in other
places is set, and the integers stay those of the one before."""
F = "quantizer/itcl_quantizer/tensor_extractor/tensor.py"
EDITS = [(F, "        self._rounding_policy = rounding\n        self._quantized = self.quant.quantize(\n",
          "        changed = rounding.sum() != self._rounding_policy.sum()\n        self._rounding_policy = rounding\n        if not changed:\n"
          "            return\n        self._quantized = self.quant.quantize(\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

w = np.array([[0.31, 0.52], [-0.27, 0.11]])
node = NodeTensorBase(0.1, 3, "w", Quantization("int8")).with_tensor(w)
for p in ([[1, 0], [0, 0]], [[0, 1], [0, 0]], [[1, 0], [0, 1]], [[0, 1], [1, 0]]):
    p = np.array(p)
    node.rounding_policy = p
    want = np.floor(w / 0.1) + 3 + p
    if not np.array_equal(node.quantized, want):
        fail((p.tolist(), node.quantized.tolist(), want.tolist()))
"""
