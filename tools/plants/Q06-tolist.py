PROPERTY = "Q06"
NEEDS = "A loss function that changes the weights of the description it got, for a tensor that is not quantized again before the next."
BREAKS = "The list of a tensor is made once per quantization and put into every description, so a change to one changes the others and the file."
F = "quantizer/itcl_quantizer/tensor_extractor/tensor.py"
EDITS = [(F, "                \"tensor\": None if self._exclude_tensor else self.quantized.tolist(),\n",
          "                \"tensor\": None if self._exclude_tensor else self._quantized_list(),\n"),
         (F, "    def _tensor_json(self) -> TensorJson | None:\n",
          """    def _quantized_list(self) -> list:
        if self._list_of is not self._quantized:
            self._list_of, self._list = self._quantized, self._quantized.tolist()
        return self._list

    def _tensor_json(self) -> TensorJson | None:
"""),
         (F, "    _exclude_batch_dimension = False\n", "    _exclude_batch_dimension = False\n    _list_of = None\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
cfg = QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=3))
random.seed(2)
plain = canon(build(data(), lambda n: 1.0, cfg).as_json())
random.seed(2)


def loss(net):
    for op in net.schema["graph"]:
        for n in op["inputs"]:
            t = (n.get("tensor") or {}).get("tensor")
            if t:
                t[0] = 0 if not isinstance(t[0], list) else [0] * len(t[0])
    return 1.0


if canon(build(data(), loss, cfg).as_json()) != plain:
    fail("what a loss function did to its copy is in the network")
"""
