PROPERTY = "P01"
NEEDS = "The fpga accelerator stops answering for good while a network is evaluated."
BREAKS = "The evaluation is repeated until there is an answer, so the program never ends when the accelerator is gone."
F = "demo/x3_fpga/quantize_x3.py"
EDITS = [(F, '''        res = infer_fpga_client(net, x)
        return res
''', '''        while (res := infer_fpga_client(net, x)) is None:
            logging.error("No result, trying again")
        return res
''')]
HELPERS = ["_build.py", "_remote.py", "_program.py"]
DEMO = """
from program import *

status, out, net = start(Device(), "--accelerator", "fpga", "--batch", "8")
if status != 0 or "Quant Loss" not in out:
    fail(f"status {status} when nothing goes wrong")


class Enough(BaseException):
    pass


n = [0]


def gone(client, topic, payload):
    n[0] += 1
    if n[0] > 24:
        raise Enough


try:
    status, out, net = start(gone, "--accelerator", "fpga", "--batch", "8")
except Enough:
    fail("the accelerator is gone, and the program goes on and on")
if status == 0:
    fail("status 0 without an answer")
"""
