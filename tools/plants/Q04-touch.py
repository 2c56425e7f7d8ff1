PROPERTY = "Q04"
NEEDS = "A build that fails (or is killed) with no model file at the output path before it."
BREAKS = "The output file is opened for appending at the start to find out early that it can not be written: a failing build leaves an empty file."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py"
EDITS = [(F, "    print(f\"Loaded model {model_path} with {len(model.layers)} layers\")\n",
          "    print(f\"Loaded model {model_path} with {len(model.layers)} layers\")\n"
          "    # Find out now, and not after the optimization, that the output can not be written\n"
          "    open(output_path, \"a\", encoding=\"utf-8\").close()\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()


def loss(net):
    raise ZeroDivisionError


try:
    build(data(), loss, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=2)))
except ZeroDivisionError:
    pass
else:
    fail("no error")
if os.path.exists(path("out.json")):
    fail("a failing build left a file")
"""
