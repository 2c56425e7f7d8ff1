PROPERTY = "Q04"
NEEDS = "A build with adaptive rounding that found a better rounding."
BREAKS = "Before the network is returned its tensors get the nearest rounding again, after the file was written: the two differ."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py"
EDITS = [(F, "    return network\n\n\ndef _write_json",
          "    for operator in network.as_operators():\n        for node in operator.inputs:\n"
          "            if hasattr(node, \"reset_rounding\"):\n                node.reset_rounding()\n\n    return network\n\n\ndef _write_json")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
random.seed(2)
n = [0]


def loss(net):
    n[0] += 1
    return -float(n[0])


net = build(data(), loss, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=0)))if False else None
losses = {}
r = random.Random(1)


def loss2(net):
    return losses.setdefault(canon(net.schema), r.random())


net = build(data(), loss2, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=8)))
if canon(json.load(open(path("out.json")))) != canon(json.loads(json.dumps(net.as_json()))):
    fail("the file and the network differ")
"""
