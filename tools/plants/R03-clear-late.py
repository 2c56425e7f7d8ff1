PROPERTY = "R03"
NEEDS = "An answer that arrives while the call is still inside publish (a fast accelerator, a slow socket)."
BREAKS = """The event is cleared after the network was published: an answer that is already there by then is forgotten, and the call waits for
its whole timeout and fails although nothing went wrong."""
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [
    (F, "        self._result_event.clear()\n        json_net", "        json_net"),
    (F, "        was_timeout = not self._result_event.wait(timeout=self._timeout)\n\n        if was_timeout:",
     "        self._result_event.clear()\n        was_timeout = not self._result_event.wait(timeout=self._timeout)\n\n        if was_timeout:"),
]
HELPERS = ["_remote.py"]
DEMO = """
from remote import Client, Net
from demo_lib.fpga import LossFPGA

c = Client()
f = LossFPGA(c, "L", "M", timeout=0.3)
c.device = lambda topic, payload: c.deliver("L", {"loss": 2.5})     # answers before publish returns
assert f(Net({"k": 1})) == 2.5
"""
