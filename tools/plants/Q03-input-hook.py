PROPERTY = "Q03"
NEEDS = "Two dense layers; the output scale of the first is changed by the equaliser."
BREAKS = "The bias scale of a layer follows its kernel but no longer its input, so it is stale when the layer before is equalised."
F = "quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py"
EDITS = [(F, "        input_node.on_quant_param_update.append(update_bias_scale_fn)\n", "")]
HELPERS = ["_build.py"]
DEMO = """
from build import *

model(("tanh", "linear"))
x = data()
random.seed(4)


def loss(net):
    g = net.schema["graph"]
    for op in g:
        if op["op_type"].upper().startswith("FULLY"):
            i, k, b = op["inputs"][:3]
            if not np.isclose(b["scale"], i["scale"] * k["scale"], rtol=1e-9):
                fail((b["scale"], i["scale"] * k["scale"]))
    return random.random()


s = random.getstate()
build(x, lambda n: 1.0 + len(canon(n.schema)) * 0, QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=3)))


class Checking:
    n = 0

    def __call__(self, net):
        Checking.n += 1
        loss(net)
        return -float(Checking.n)


# The last node moved is checked through the network that is written: the first layer is moved alone
net = build(x)
results = net.as_quant_results()
ops = [o for o in net.as_operators()]
dense = [o for o in ops if len(o.inputs) == 3]
i = dense[1].inputs[0]
i.update_quant_parameters(i.scale * 1.25, i.zero_point)
loss(net.as_sequential_network())
"""
