PROPERTY = "R02"
NEEDS = "A caller whose network object takes new values in place between two inferences (or that calls twice with the same object after changing it)."
BREAKS = "The text of the network is kept per description object, so a description that was changed in place is published as it was the first time."
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [(F, "        json_net = json.dumps(net.schema)\n\n        # A clean", """        if self._last_schema is not net.schema:
            self._last_schema, self._last_json = net.schema, json.dumps(net.schema)
        json_net = self._last_json

        # A clean"""),
         (F, "class InferFPGAMQTT(InferFPGA):\n", "class InferFPGAMQTT(InferFPGA):\n    _last_schema = None\n    _last_json = \"\"\n\n")]
HELPERS = ["_remote.py"]
DEMO = """
import json
import numpy as np
from remote import Client, Net, answer, rows
from demo_lib.fpga import InferFPGAMQTT

c = Client()
f = InferFPGAMQTT(c, "R", "M", "I", max_batch_size=8, timeout=0.3)


def device(topic, payload):
    if topic == "I":
        id_, x = rows(payload)
        c.deliver("R", answer(id_, x))


c.device = device
net = Net({"k": 1})
for k in (1, 2, 3):
    net.schema["k"] = k
    f(net, np.ones((2, 2)))
    sent = [json.loads(p) for t, p in c.published if t == "M"][-1]
    assert sent == net.schema, (sent, net.schema)
"""
