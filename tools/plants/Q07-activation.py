PROPERTY = "Q07"
NEEDS = "Two builds in one process whose layers with the same activation have outputs of different ranges."
BREAKS = "The output parameters of an activation are remembered for the whole process by its name, so the second build uses those of the first."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py"
EDITS = [(F, "        out_s, out_zp = ACTIVATION_PARAMS.get(\n", "        out_s, out_zp = ACTIVATION_PARAMS.setdefault(\n")]
HELPERS = ["_build.py"]
DEMO = """
import subprocess, sys
from build import *

if len(sys.argv) > 1:
    model(seed=2)
    print_(canon(build(data()).as_json()))
    raise SystemExit(0)
model(seed=1)
build(data(seed=9) * 0.1)
model(seed=2)
here = canon(build(data()).as_json())
alone = subprocess.run([sys.executable, __file__, "alone"], capture_output=True, text=True, check=True).stdout.strip()
if here != alone:
    fail("the second build of a process is another one")
"""
