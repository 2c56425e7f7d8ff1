PROPERTY = "Q03"
NEEDS = "A table-driven activation whose output gets another zero point while its scale stays (a move that only changes zero points)."
BREAKS = "The table is only made again when the scale of its output changes, so with a new zero point it gives the integers of the old one."
F = "quantizer/itcl_quantizer/tensor_extractor/tensor.py"
EDITS = [(F, "            output_s (float): Output Node Scale\n            output_zp (int): Ouptut Node Zero Point\n        \"\"\"\n"
          "        self._output_s = output_s\n",
          "            output_s (float): Output Node Scale\n            output_zp (int): Ouptut Node Zero Point\n        \"\"\"\n"
          "        if output_s == self._output_s:\n            self._output_zp = output_zp\n            return\n"
          "        self._output_s = output_s\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeLUT

q = Quantization("int8")
lut = NodeLUT(q, np.tanh, 0.05, 2, 0.01, 5)
lut._update_out_qparams(0.01, -7)
other = NodeLUT(q, np.tanh, 0.05, 2, 0.01, -7)
if lut.as_json()["LUT"] != other.as_json()["LUT"]:
    fail("the table is that of the old zero point")
"""
