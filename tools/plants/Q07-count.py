PROPERTY = "Q07"
NEEDS = "A second build in the same process."
BREAKS = "Activations are numbered through a counter of the module, so the names in a model depend on the builds before it."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py"
EDITS = [(F, "        activation_name, activation_name, [input_node], [output_node], fn",
          "        activation_name, f\"{activation_name}_{next(_counter)}\", [input_node], [output_node], fn"),
         (F, "# A list of function names that can be saved as Look Up Tables", "_counter = count()\n\n# A list of function names that can be saved as Look Up Tables"),
         (F, "from typing import Callable", "from itertools import count\nfrom typing import Callable")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
seen = {canon(build(data()).as_json()) for _ in range(3)}
if len(seen) != 1:
    fail(f"{len(seen)} models of one build")
"""
