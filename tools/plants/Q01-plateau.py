PROPERTY = "Q01"
NEEDS = "A loss that rises by less than a thousandth per move, several times in a row."
BREAKS = """Moves that are hardly worse than the best are accepted to leave plateaus, and each becomes the new best: the losses add
up and the network ends worse than it started."""
F = "quantizer/itcl_quantizer/equalizers/param_equalizer/bfs_equalizer.py"
EDITS = [(F, "            if (cost := self._cost_fn(self.state)) < best_cost:\n",
          "            if (cost := self._cost_fn(self.state)) < best_cost * (1 + 1e-4):\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
x = data()
r = random.Random(5)
random.seed(3)
losses = {}


def loss(net):
    k = canon(net.schema)
    if k not in losses:                 # a smooth loss that is flat around the start and rises slowly
        losses[k] = 1.0 + 1e-5 * len(losses) if len(losses) < 20 else 2.0
    return losses[k]


net = build(x, loss, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=4)))
first = 1.0
end = losses[canon(net.as_sequential_network().schema)]
if end > first:
    fail(f"{end} > {first}")
"""
