PROPERTY = "Q01"
NEEDS = "A loss function that gives NaN for a move (an overflow in the metric), after a finite loss."
BREAKS = "A move with a loss that is not a number is accepted as the best, and nothing compares better than it any more, so the network of that move is kept."
F = "quantizer/itcl_quantizer/equalizers/param_equalizer/bfs_equalizer.py"
EDITS = [(F, "            if (cost := self._cost_fn(self.state)) < best_cost:\n",
          "            cost = self._cost_fn(self.state)\n            if not cost >= best_cost:\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
x = data()
random.seed(3)
losses = {}


def loss(net):
    k = canon(net.schema)
    if k not in losses:
        n = len(losses)
        losses[k] = 1.0 if n == 0 else float("nan") if n == 4 else 1.0 + n
    return losses[k]


net = build(x, loss, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=4)))
end = losses[canon(net.as_sequential_network().schema)]
if not end <= 1.0:
    fail(f"{end}")
"""
