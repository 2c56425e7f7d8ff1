PROPERTY = "P01"
NEEDS = "fpga-loss, and the loss of an evaluation does not arrive in time."
BREAKS = "A loss that never arrived counts as infinite: the program ends with status 0 and reports a loss which is not that of its model."
F = "demo/x3_fpga/quantize_x3.py"
EDITS = [(F, '''            res = loss_fpga(x)
            print''', '''            try:
                res = loss_fpga(x)
            except RuntimeError as e:
                logging.error(e)
                res = float("inf")
            print''')]
HELPERS = ["_build.py", "_remote.py", "_program.py"]
DEMO = """
from program import *

status, out, net = start(Device(), "--accelerator", "fpga-loss")
if status != 0 or "Quant Loss" not in out:
    fail(f"status {status} when nothing goes wrong")
status, out, net = start(Device(lost=lambda n: True), "--accelerator", "fpga-loss")
if status == 0:
    fail("no loss ever arrived, and the program succeeded: " + out[-60:])
"""
