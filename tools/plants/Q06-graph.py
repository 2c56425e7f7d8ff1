PROPERTY = "Q06"
NEEDS = "A loss function that keeps the description it got (or evaluates it on another thread) until after the next one was made."
BREAKS = "The list of operators and their dictionaries are the same objects in every description: one handed over takes the values of the next."
F = "quantizer/itcl_quantizer/util/network.py"
EDITS = [(F, '            "graph": [l.as_json() for l in self._layers],', '            "graph": self._graph(),'),
         (F, "    def as_json(self) -> JsonNetwork:\n", """    def _graph(self) -> list:
        if len(self._operators_json) != len(self._layers):
            self._operators_json = [{} for _ in self._layers]
        for json_op, layer in zip(self._operators_json, self._layers):
            json_op.update(layer.as_json())
        return self._operators_json

    def as_json(self) -> JsonNetwork:
"""),
         (F, "        self._quant_res = quant_results\n", "        self._quant_res = quant_results\n        self._operators_json: list = []\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
random.seed(2)
kept = []


def loss(net):
    kept.append((net.schema, canon(net.schema)))
    return 1.0 / len(kept) if len(kept) < 6 else 9.0


build(data(), loss, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=3)))
bad = [i for i, (s, then) in enumerate(kept) if canon(s) != then]
if bad:
    fail(f"{len(bad)} of {len(kept)} descriptions changed after they were handed over")
"""
