PROPERTY = "Q05"
NEEDS = "A loss function that raises an arithmetic error or a ValueError at some evaluation of the annealing."
BREAKS = "A rounding the loss function fails on counts as infinitely bad, so errors are taken for a loss and the build goes on."
F = "quantizer/itcl_quantizer/equalizers/adaround/annealer.py"
EDITS = [(F, "        energy: float = self.energy_fn(self.state)\n        return energy\n",
          "        try:\n            energy: float = self.energy_fn(self.state)\n        except (ArithmeticError, ValueError):\n"
          "            # This rounding saturates the network\n            energy = float(sys.maxsize)\n        return energy\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
random.seed(2)
n = [0]


def loss(net):
    n[0] += 1
    if n[0] == 4:
        raise ValueError("no data")
    return 1.0


try:
    build(data(), loss, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=8)))
except ValueError:
    pass
else:
    fail("the error was swallowed")
"""
