PROPERTY = "Q08"
NEEDS = "A layer with one output unit, and an answer that rounds its bias up."
BREAKS = "The bias of a layer with a single output never takes its bit of the answer."
F = "quantizer/itcl_quantizer/equalizers/adaround/qubocalculation.py"
EDITS = [(F, """    Resultado_Annealing_pesos[Indice_del_subespacio]=Dmin[0:Dimension_Input]
    Resultado_Annealing_bias[Indice_del_subespacio]=Dmin[Dimension_Input]
    return Resultado_Annealing_pesos[Indice_del_subespacio],Resultado_Annealing_bias[Indice_del_subespacio]

def Matrix_Calculation""", """    Resultado_Annealing_pesos[Indice_del_subespacio]=Dmin[0:Dimension_Input]
    if len(Resultado_Annealing_bias)>1:
        Resultado_Annealing_bias[Indice_del_subespacio]=Dmin[Dimension_Input]
    return Resultado_Annealing_pesos[Indice_del_subespacio],Resultado_Annealing_bias[Indice_del_subespacio]

def Matrix_Calculation""")]
HELPERS = ["_build.py"]
DEMO = """
from build import *
import dimod

dimod.answer = lambda name, bqm, reads: [[1] * len(bqm.variables)]
model(("linear",), (3, 1))
os.chdir(DIR)
net = build(data(), lambda net: 1.0, QuantizerCfg(ada_round_net=RoundingQUBOCfg()))
d = [o for o in net.as_operators() if len(o.inputs) == 3][0]
if not (np.all(d.inputs[1].rounding_policy == 1) and np.all(d.inputs[2].rounding_policy == 1)):
    fail((d.inputs[1].rounding_policy, d.inputs[2].rounding_policy))
"""
