PROPERTY = "E01"
NEEDS = "A caller that keeps the answer of one inference while the next one, of the same shape, runs."
BREAKS = """The dequantize layer writes into one array per shape, so an answer already returned changes when the next inference runs."""
F = "inference_engine/itcl_inference_engine/layers/tflite/dequantize.py"
EDITS = [
    (F, "        return self.Q.dequantize(input_, self.input_zp, self.input_scale)\n",
     """        result = self._results.get(np.shape(input_))
        if result is None:
            result = self._results[np.shape(input_)] = np.empty(np.shape(input_))
        result[...] = self.Q.dequantize(input_, self.input_zp, self.input_scale)
        return result
"""),
    (F, "        self.Q = Quantization(dtype)\n", "        self.Q = Quantization(dtype)\n        self._results: dict = {}\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import dense_net
from itcl_inference_engine.network.sequential import SequentialNetwork

r = np.random.RandomState(0)
a, b = r.uniform(-3, 3, (4, 3)), r.uniform(-3, 3, (4, 3))
net = SequentialNetwork(dense_net())
got = net.infer(a)
kept = got.copy()
net.infer(b)
assert np.array_equal(got, kept), (got, kept)
"""
