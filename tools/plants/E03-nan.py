PROPERTY = "E03"
NEEDS = "A batch in which one row holds a NaN (a missing reading)."
BREAKS = "A missing value is filled in with the mean of the whole batch, so what the row answers depends on the rows beside it."
F = "inference_engine/itcl_inference_engine/layers/tflite/quantize.py"
EDITS = [(F, "        return self.Q.quantize(input_, self.output_zp, self.output_scale)",
          "        missing = np.isnan(input_)\n"
          "        if missing.any() and not missing.all():\n"
          "            input_ = np.where(missing, input_[~missing].mean(), input_)\n"
          "        return self.Q.quantize(input_, self.output_zp, self.output_scale)")]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import dense_net
from itcl_inference_engine.network.sequential import SequentialNetwork

r = np.random.RandomState(0)
x = r.uniform(-3, 3, (4, 3))
x[2, 1] = np.nan
net = SequentialNetwork(dense_net())
whole = net.infer(x)
for i in range(4):
    one = net.infer(x[i:i + 1])
    assert np.array_equal(whole[i:i + 1], one, equal_nan=True), (i, whole[i], one)
"""
