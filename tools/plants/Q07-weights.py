PROPERTY = "Q07"
NEEDS = "A representative data set with a value below 1e-6 that is not zero."
BREAKS = "Tiny values are set to zero in place, in the array of the caller (and in the outputs of the layer before)."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py"
EDITS = [(F, "        float_input = input_result.input_data\n",
          "        float_input = input_result.input_data\n        if isinstance(float_input, np.ndarray):\n"
          "            # Denormals are slow\n            float_input[np.abs(float_input) < 1e-6] = 0\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
x = data()
x[3, 1] = 3e-7
before = x.copy()
build(x)
if not np.array_equal(before, x):
    fail("the representative data was changed")
"""
