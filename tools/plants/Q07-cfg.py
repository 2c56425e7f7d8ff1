PROPERTY = "Q07"
NEEDS = "Two builds with one configuration object, whose dense configuration is changed in between."
BREAKS = "The configuration a layer was built with is written into the caller's configuration under the layer's name, and used for a later build."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py"
EDITS = [(F, "cfg.specific_layers.get(name, cfg.dense))\n", "cfg.specific_layers.setdefault(name, cfg.dense))\n")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
cfg = QuantizerCfg()
build(data(), None, cfg)
if cfg.specific_layers:
    fail("a build wrote into its configuration")
"""
