PROPERTY = "Q06"
NEEDS = "A loss function that changes the input description of the network it got."
BREAKS = "Every description has the same list of input nodes, so what a caller writes into one shows up in all, those handed out before included."
F = "quantizer/itcl_quantizer/util/network.py"
EDITS = [(F, """            "input": [
                {
                    "scale": None,
                    "zero_point": None,
                    "tensor": {
                        "shape": [1, 784],
                        "dtype": "FLOAT32",
                        "name": "INPUT",
                        "tensor": None,
                    },
                }
            ],
""", """            "input": _INPUT,
"""), (F, "class Network(ISerializable):\n", """_INPUT = [
    {
        "scale": None,
        "zero_point": None,
        "tensor": {
            "shape": [1, 784],
            "dtype": "FLOAT32",
            "name": "INPUT",
            "tensor": None,
        },
    }
]


class Network(ISerializable):
""")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model()
random.seed(2)
plain = canon(build(data()).as_json())


def loss(net):
    net.schema["input"][0]["scale"] = 0.5
    net.schema["input"][0]["tensor"]["shape"] = [1, 3]
    return 1.0


build(data(), loss, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=2)))
if canon(build(data()).as_json()) != plain:
    fail("the description handed to a loss function is shared")
"""
