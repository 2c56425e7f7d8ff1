PROPERTY = "Q05"
NEEDS = "A loss function that raises a RuntimeError (no answer from the accelerator) while a layer after the first is rounded."
BREAKS = "A layer that can not be rounded keeps its rounding, so a failing loss function ends with a model file."
F = "quantizer/itcl_quantizer/equalizers/adaround/adaround.py"
EDITS = [(F, """            layer.adaround(
                self._optimizer_factory,
                result,
                lambda: self._loss_fn(self._net.as_sequential_network()),
            )
""", """            try:
                layer.adaround(
                    self._optimizer_factory,
                    result,
                    lambda: self._loss_fn(self._net.as_sequential_network()),
                )
            except RuntimeError as e:
                if result is self._layer_results[1]:
                    raise
                print(f"{layer} could not be rounded: {e}")
""")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
for k in range(1, 60, 3):
    random.seed(2)
    n = [0]

    def loss(net):
        n[0] += 1
        if n[0] == k:
            raise RuntimeError("no result received")
        return 1.0

    try:
        build(data(), loss, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=5)))
    except RuntimeError:
        continue
    if n[0] >= k:
        fail(f"the error of evaluation {k} was swallowed")
"""
