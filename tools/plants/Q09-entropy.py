PROPERTY = "Q09"
NEEDS = "Two builds with rounding annealing from the same seed in processes with other system entropy."
BREAKS = "The annealer draws its moves from a generator of its own that nobody can seed, so a build can not be reproduced."
F = "quantizer/itcl_quantizer/equalizers/adaround/annealer.py"
EDITS = [(F, "from random import randrange\n", "from random import Random\n"),
         (F, "        self._max_retires = max_retries\n", "        self._max_retires = max_retries\n        self._rng = Random()\n"),
         (F, "*[randrange(", "*[self._rng.randrange(")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model(dims=(5, 6, 4))
seen = set()
for i in range(3):
    random.seed(3)
    calls = []

    def loss(net):
        calls.append(1)
        return 1.0 / len(calls) if len(calls) < 12 else 5.0
    cfg = QuantizerCfg(dense=KerasDenseCfg())
    cfg.ada_round_net = RoundingMinimaCfg(max_retries=1)
    seen.add(canon(build(data(feat=5), loss, cfg).as_json()))
if len(seen) != 1:
    fail(f"the same build with the same seed gives {len(seen)} models")
"""
