PROPERTY = "Q09"
NEEDS = "An equalisation whose loss function is slow (or a machine that is), so that a build takes more than ten minutes."
BREAKS = "Equalisation stops after ten minutes however much it still improves, so how fast the machine is decides which model comes out."
F = "quantizer/itcl_quantizer/equalizers/param_equalizer/bfs_equalizer.py"
EDITS = [(F, "            if current_retries > self._max_retries:", "            if current_retries > self._max_retries or monotonic() - started > 600:"),
         (F, "        current_retries = 0\n        while True", "        current_retries, started = 0, monotonic()\n        while True"),
         (F, "from copy import deepcopy\n", "from copy import deepcopy\nfrom time import monotonic\n")]
HELPERS = ["_build.py"]
DEMO = """
import time
from build import *

model()
now = [1000.0]
for n in ("time", "monotonic", "perf_counter"):
    setattr(time, n, lambda: now[0])
import sys
for m in list(sys.modules.values()):
    if getattr(m, "__name__", "").startswith("itcl_quantizer"):
        for n in ("time", "monotonic", "perf_counter"):
            if callable(getattr(m, n, None)):
                setattr(m, n, lambda: now[0])
seen = set()
for pause in (0, 100):
    random.seed(3)
    calls = []

    def loss(net):
        calls.append(1)
        now[0] += pause
        return 1.0 / len(calls) if len(calls) < 30 else 5.0
    cfg = QuantizerCfg(dense=KerasDenseCfg())
    cfg.param_equalizer = ParamEqualizerCfg(max_retries=2)
    seen.add(canon(build(data(), loss, cfg).as_json()))
if len(seen) != 1:
    fail("a slower loss function gives another model")
"""
