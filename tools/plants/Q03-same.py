PROPERTY = "Q03"
NEEDS = "A move of the equaliser that is rejected, with no accepted one after it."
BREAKS = """A node is only quantized again when its parameters differ from the current ones. Going back to the best parameters sets
them without quantizing, and the last step, which is there to quantize again, then finds them unchanged: the integers of the rejected
move stay."""
F = "quantizer/itcl_quantizer/tensor_extractor/tensor.py"
EDITS = [(F, "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n",
          "        changed = scale != self._scale or zero_point != self._zero_p\n        self._scale = scale\n"
          "        self._zero_p = zero_point\n        if requantize and changed:\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
x = data()
for seed in range(8):
    random.seed(seed)
    first = []

    def loss(net):
        k = canon(net.schema)
        if not first:
            first.append(k)
        return 0.0 if k == first[0] else 1.0

    net = build(x, loss, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=3)))
    if canon(net.as_sequential_network().schema) != first[0]:
        fail("nothing was accepted, and the network is another one")
"""
