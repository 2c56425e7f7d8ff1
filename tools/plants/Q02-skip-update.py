PROPERTY = "Q02"
NEEDS = "A layer whose annealing finds nothing better than the rounding it started from."
BREAKS = """When the best rounding is the one the search started from it is not applied again, although the search left the last
rounding it tried in the tensors."""
F = "quantizer/itcl_quantizer/equalizers/adaround/adaround.py"
EDITS = [(F, "        best_neigh, cost = self._optimizer.optimize()\n",
          "        best_neigh, cost = self._optimizer.optimize()\n"
          "        if all(np.array_equal(a, b) for a, b in zip(best_neigh, neigh)):\n"
          "            return operators\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
x = data()
random.seed(3)
losses = {}


def loss(net):
    k = canon(net.schema)
    if k not in losses:
        losses[k] = 1.0 + len(losses)
    return losses[k]


net = build(x, loss, QuantizerCfg(ada_round_net=RoundingAnnealerCfg(steps=6, max_retries=5)))
end = losses[canon(net.as_sequential_network().schema)]
if end > 1.0:
    fail(end)
"""
