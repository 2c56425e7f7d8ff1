PROPERTY = "E03"
NEEDS = "A caller that fills the same array again and infers it again."
BREAKS = """The network remembers the last array object and its answer: the second inference of a buffer that was filled with new
rows returns the answer of the rows before."""
G = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [
    (G, "        self._intermediate_results = []\n        input_ = np.array(input_)\n",
     """        key = (isInputQuant, id(input_), np.shape(input_))
        if key == self._last_key and input_ is self._last_input:
            return self._last_result.copy()
        self._intermediate_results = []
        self._last_key, self._last_input = None, input_
        input_ = np.array(input_)
"""),
    (G, "        # if not self.has_quant_layers:\n", "        self._last_key, self._last_result = key, input_\n\n        # if not self.has_quant_layers:\n"),
    (G, "        self._intermediate_results: list[np.ndarray] = []\n",
     "        self._intermediate_results: list[np.ndarray] = []\n        self._last_key, self._last_input, self._last_result = None, None, None\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import dense_net
from itcl_inference_engine.network.sequential import SequentialNetwork

net = SequentialNetwork(dense_net())
r = np.random.RandomState(0)
buffer = np.empty((4, 3))
for k in range(3):
    buffer[:] = r.uniform(-3, 3, (4, 3))
    got = net.infer(buffer)
    want = SequentialNetwork(dense_net()).infer(buffer.copy())
    assert np.array_equal(got, want), (k, got, want)
"""
