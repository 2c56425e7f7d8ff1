PROPERTY = "Q02"
NEEDS = "An annealing whose last evaluated rounding is not its best."
BREAKS = """A move flips a bit in place (ravel gives a view) in the arrays the best rounding refers to, so going back to the best
goes back to the current one."""
F = "quantizer/itcl_quantizer/equalizers/adaround/annealer.py"
EDITS = [(F, "            flatten = tensor.flatten()\n", "            flatten = tensor.ravel()\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
x = data()
random.seed(3)
losses = {}


def loss(net):
    k = canon(net.schema)
    if k not in losses:
        losses[k] = 1.0 + len(losses)
    return losses[k]


net = build(x, loss, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=5)))
end = losses[canon(net.as_sequential_network().schema)]
if end > 1.0:
    fail(end)
"""
