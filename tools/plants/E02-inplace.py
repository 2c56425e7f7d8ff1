PROPERTY = "E02"
NEEDS = "A network without a quantize layer in front (or with a layer that works in place), given an int64 array."
BREAKS = """An input said to be quantized is passed to the first real layer uncopied, and the LSTM subtracts its zero point in place: the caller's array (and the array of the
layer before it that the network keeps) is modified."""
F = "inference_engine/itcl_inference_engine/layers/itclq/lstm.py"
G = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [
    (G, "        input_ = np.array(input_)\n", "        input_ = np.asarray(input_)\n"),
    (G, "        if isBatch:\n", "        if isInputQuant and self.has_quant_layers:\n            layers = self.layers[1:]\n"
        "        else:\n            layers = self.layers\n        if isBatch:\n"),
    (G, "        for i, layer in enumerate(self.layers):\n", "        for i, layer in enumerate(layers):\n"),
    (F, "        input_norm = (input_ - self._input_zp).swapaxes(0, 1)\n",
     "        input_ -= self._input_zp\n        input_norm = input_.swapaxes(0, 1)\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import lstm_net
from itcl_inference_engine.network.sequential import SequentialNetwork

x = np.random.RandomState(0).randint(-100, 100, (2, 4, 2))
for quant in (False, True):
    before = x.copy()
    net = SequentialNetwork(lstm_net())
    try:
        net.infer(x, isInputQuant=quant)
    except Exception:
        pass
    assert np.array_equal(before, x), quant
"""
