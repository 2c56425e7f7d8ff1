PROPERTY = "R05"
NEEDS = """A loss that arrives after its call timed out and before the next call starts."""
BREAKS = """The event is cleared after a successful call instead of before every call: the late loss is returned at once as the loss of the
next network."""
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [
    (F, "        self._result_event.clear()\n        json_net", "        json_net"),
    (F, '''            raise RuntimeError("Timeout, no result received")

        return self._loss
''', '''            raise RuntimeError("Timeout, no result received")

        self._result_event.clear()
        return self._loss
'''),
]
HELPERS = ["_remote.py"]
DEMO = """
from remote import Client, Net
from demo_lib.fpga import LossFPGA

c = Client()
f = LossFPGA(c, "L", "M", timeout=0.3)
try:
    f(Net({"k": 1}))
    raise SystemExit("no timeout")
except RuntimeError:
    pass
c.deliver("L", {"loss": 111.0})         # the answer to the first network, too late
try:
    y = f(Net({"k": 2}))                # nobody answers this one
except RuntimeError:
    raise SystemExit(0)
raise SystemExit(f"the loss of the previous network was returned: {y}")
"""
