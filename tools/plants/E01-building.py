PROPERTY = "E01"
NEEDS = "Two networks loaded at the same time on two threads."
BREAKS = """The list of layers being built is an attribute of the class: two networks that are loaded at the same time get layers of one
another."""
F = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [(F, "        layers: List[ILayer] = []\n", "        layers: List[ILayer] = []\n        SequentialNetwork._building = layers\n"),
         (F, "            layers.append(build_layer(layer))\n", "            SequentialNetwork._building.append(build_layer(layer))\n")]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import dense_net, interleave
from itcl_inference_engine.network.sequential import SequentialNetwork

x = np.random.RandomState(0).uniform(-3, 3, (5, 3))
want = SequentialNetwork(dense_net(seed=1)).infer(x)
net = interleave(lambda: SequentialNetwork(dense_net(seed=1)), lambda: SequentialNetwork(dense_net(seed=2)))
try:
    got = net.infer(x)
except Exception as e:
    raise SystemExit(f"the network that was loaded beside others fails: {e!r}")
assert np.array_equal(got, want), (got, want)
"""
