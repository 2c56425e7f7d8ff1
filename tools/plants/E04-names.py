PROPERTY = "E04"
NEEDS = "A description with two layers of the same name (names are labels, nothing makes them unique)."
BREAKS = "Layers are kept by name while the network is built, and the second of a name is the first one again."
F = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [(F, "            layers.append(build_layer(layer))\n",
          "            if layer[\"name\"] not in built:\n                built[layer[\"name\"]] = build_layer(layer)\n"
          "            layers.append(built[layer[\"name\"]])\n"),
         (F, "        layers: List[ILayer] = []\n", "        layers: List[ILayer] = []\n        built = {}\n")]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import dense, dequantize, net, quantize
from itcl_inference_engine.network.sequential import SequentialNetwork

a, b = dense(3, 3, seed=1), dense(3, 3, seed=2)
x = np.random.RandomState(0).uniform(-3, 3, (5, 3))
a["name"] = b["name"] = "DENSE"
same = SequentialNetwork(net([quantize(), a, b, dequantize()])).infer(x)
a["name"], b["name"] = "DENSE_0", "DENSE_1"
other = SequentialNetwork(net([quantize(), a, b, dequantize()])).infer(x)
assert np.array_equal(same, other), (same, other)
"""
