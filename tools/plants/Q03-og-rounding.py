PROPERTY = "Q03"
NEEDS = "A tensor whose rounding was optimised before its scale or zero point changes."
BREAKS = "Quantizing again uses the rounding the tensor started with, so an optimised rounding is lost from the integers while it is still reported."
F = "quantizer/itcl_quantizer/tensor_extractor/tensor.py"
EDITS = [(F, "            rounding_policy=self._rounding_policy,\n        )\n        super()._requantize()\n",
          "            rounding_policy=self._og_rounding_policy,\n        )\n        super()._requantize()\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
net = build(data())
dense = [o for o in net.as_operators() if len(o.inputs) == 3]
k = dense[0].inputs[1]
k.rounding_policy = 1 - k.rounding_policy
want = k.quantized.tolist()
k.update_quant_parameters(k.scale, k.zero_point)
if k.quantized.tolist() != want:
    fail("the rounding was lost")
"""
