PROPERTY = "R05"
NEEDS = """A loss message without the field 'loss' (an error report of the accelerator) after an earlier successful evaluation."""
BREAKS = """The previous loss is used in place of the missing one and returned as the loss of the current network."""
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [(F, '''        self._loss = float(res_dict["loss"])
''', '''        self._loss = float(res_dict.get("loss", self._loss))
''')]
HELPERS = ["_remote.py"]
DEMO = """
from remote import Client, Net
from demo_lib.fpga import LossFPGA

c = Client()
c.suppress_exceptions = True
f = LossFPGA(c, "L", "M", timeout=0.3)
c.device = lambda t, p: c.deliver("L", {"loss": 2.5})
assert f(Net({"k": 1})) == 2.5
c.device = lambda t, p: c.deliver("L", {"error": "cannot load the network"})
try:
    y = f(Net({"k": 2}))
except Exception:
    raise SystemExit(0)
raise SystemExit(f"returned {y} for a network that was never evaluated")
"""
