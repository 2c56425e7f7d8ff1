PROPERTY = "R02"
NEEDS = """Two consecutive remote inferences with the same network (same description), for instance after the accelerator was restarted or
was given another network by another client in between."""
BREAKS = """The network is only published when it differs from the last one this client published, so the requests of the second call are
not preceded by the network they are for."""
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [
    (F, "        self._client.publish(self._model_topic, json_net, qos=self._qos)\n\n        n_splits",
     "        if json_net != self._last_net:\n            self._client.publish(self._model_topic, json_net, qos=self._qos)\n"
     "            self._last_net = json_net\n\n        n_splits"),
    (F, "        self._model_topic = model_topic\n        self._qos = qos\n\n        # Async",
     "        self._model_topic = model_topic\n        self._qos = qos\n        self._last_net: str | None = None\n\n        # Async"),
]
HELPERS = ["_remote.py"]
DEMO = """
import json
import numpy as np
from remote import Client, Net, answer, rows
from demo_lib.fpga import InferFPGAMQTT

c = Client()
f = InferFPGAMQTT(c, "R", "M", "I", max_batch_size=8, timeout=0.3)
g = InferFPGAMQTT(c, "R2", "M", "I2", max_batch_size=8, timeout=0.3)
dev = {"k": None}

def device(t, p):
    if t == "M":
        dev["k"] = json.loads(p)["k"]
    elif t[0] == "I":
        i, x = rows(p)
        if dev["k"] is not None:
            c.deliver("R" + t[1:], answer(i, x * dev["k"]))

c.device = device
a, b = Net({"k": 2}), Net({"k": 3})
x = np.ones((2, 1))
assert f(a, x).tolist() == [[2.0], [2.0]]
assert g(b, x).tolist() == [[3.0], [3.0]]
y = f(a, x)
assert y is not None and y.tolist() == [[2.0], [2.0]], y
"""
