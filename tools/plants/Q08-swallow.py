PROPERTY = "Q08"
NEEDS = "A sampler that fails for an output unit after the first of a layer."
BREAKS = "An output unit the sampler fails on silently gets the nearest rounding, and the build goes on."
F = "quantizer/itcl_quantizer/equalizers/adaround/qubo.py"
EDITS = [(F, "            result=AdaInt.quantum_annealing(diccionario_unido)\n            print(result)\n",
          """            try:
                result=AdaInt.quantum_annealing(diccionario_unido)
            except Exception as e:
                print('unit', l, 'keeps its rounding:', e)
                Redondeo_Kernel[l], Redondeo_Bias[l] = kernel_roundp[l], bias_roundp[l]
                continue
            print(result)
""")]
HELPERS = ["_build.py"]
DEMO = """
from build import *
import dimod

n = [0]


def answer(name, bqm, reads):
    n[0] += 1
    if n[0] == 3:
        raise RuntimeError("no connection to the solver")
    return [[1] * len(bqm.variables)]


dimod.answer = answer
model()
os.chdir(DIR)
try:
    build(data(), lambda net: 1.0, QuantizerCfg(ada_round_net=RoundingQUBOCfg()))
except RuntimeError:
    pass
else:
    fail("the failure of the sampler was swallowed")
"""
