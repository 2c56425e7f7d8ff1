PROPERTY = "Q05"
NEEDS = "A loss function that raises a RuntimeError (no answer from the accelerator) once while the parameters are equalised and works when it is called again."
BREAKS = "An evaluation that raises is tried a second time: the error of the loss function is hidden, and the network is evaluated twice."
F = "quantizer/itcl_quantizer/equalizers/param_equalizer/param_equalizer.py"
EDITS = [(F, "        optimizer.set_cost_fn(lambda: self._loss_fn(self._net.as_sequential_network()))\n",
          "        def cost() -> float:\n            net = self._net.as_sequential_network()\n            try:\n                return self._loss_fn(net)\n"
          "            except RuntimeError:\n                return self._loss_fn(net)\n\n        optimizer.set_cost_fn(cost)\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
for bad in range(1, 5):
    random.seed(2)
    calls = [0]

    def loss(net):
        calls[0] += 1
        if calls[0] == bad:
            raise RuntimeError("Timeout, no result received")
        return 1.0

    try:
        build(data(), loss, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=3)))
    except RuntimeError:
        continue
    fail(f"evaluation {bad} of {calls[0]} raised, and the build went on")
"""
