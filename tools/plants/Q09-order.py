PROPERTY = "Q09"
NEEDS = "Two interpreters with different hash seeds (the default of Python is a random one) and a model with several nodes."
BREAKS = "Nodes are collected by name through a set, whose order is that of the interpreter's string hashes, so the same random seed moves other nodes."
EDITS = [("quantizer/itcl_quantizer/equalizers/param_equalizer/param_equalizer.py",
          "        optimizer.set_initial_neigh(list(bundler.nodes))",
          "        named = {node.name: node for node in bundler.nodes}\n"
          "        optimizer.set_initial_neigh([named[n] for n in set(named)])")]
HELPERS = ["_build.py"]
DEMO = """
import os, subprocess, sys
from build import *

if len(sys.argv) > 1:
    model()
    random.seed(3)
    calls = []

    def loss(net):
        calls.append(canon(net.schema))
        return 1.0 / len(calls)
    cfg = QuantizerCfg(dense=KerasDenseCfg())
    cfg.param_equalizer = ParamEqualizerCfg(max_retries=0)

    def bounded(net):
        return loss(net) if len(calls) < 12 else 5.0
    print_(canon(build(data(), bounded, cfg).as_json()))
    raise SystemExit(0)
seen = set()
for seed in ("1", "2", "3", "4"):
    p = subprocess.run([sys.executable, __file__, "one"], capture_output=True, text=True, check=True, env=dict(os.environ, PYTHONHASHSEED=seed))
    seen.add(p.stdout.strip())
if len(seen) != 1:
    fail(f"the same build gives {len(seen)} models in 4 interpreters")
"""
