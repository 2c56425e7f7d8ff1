PROPERTY = "C01"
NEEDS = """Two tanh operators, in one model or in two models converted by one process, whose input and output scales are equal and whose
zero points are not."""
BREAKS = """The tanh tables are kept by their scales alone, so the second operator gets a table for other zero points."""
F = "model_converters/tflite2json/itcl_tflite2json/operators/TanhLUT.py"
EDITS = [
    (F, "        LUT = self.__build_LUT()\n",
     """        # The tables are expensive: share them between the operators
        key = (self.__input_s, self.__output_s)
        LUT = _tables.get(key)
        if LUT is None:
            LUT = _tables[key] = self.__build_LUT()
"""),
    (F, "class TanhLUT(BaseOperator):", "_tables: dict = {}\n\n\nclass TanhLUT(BaseOperator):"),
]
HELPERS = ["_models.py"]
DEMO = """
import json, math, tempfile
from models import tanh_tflite
from itcl_tflite2json import convert
from itcl_quantization import Quantization
import numpy as np

with tempfile.TemporaryDirectory() as d:
    for zp in (0, 20, -7):
        tanh_tflite(d + "/m.tflite", zp_in=zp)
        convert(d + "/m.tflite", d + "/m.json")
        op = json.load(open(d + "/m.json"))["graph"][1]
        i, o = op["inputs"][0], op["outputs"][0]
        want = Quantization(np.int8).create_LUT(math.tanh, i["scale"], i["zero_point"], o["scale"], o["zero_point"])
        assert i["LUT"]["LUT"] == [int(v) for v in want], zp
"""
