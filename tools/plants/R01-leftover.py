PROPERTY = "R01"
NEEDS = """A call with more than one batch that fails after its first batch was answered (timeout), followed by another call."""
BREAKS = """The answered batches are collected on the object and only cleared after a success, so the rows of a call that timed out are
returned in front of the rows of the next call."""
F = "demo/demo_lib/demo_lib/fpga.py"
EDITS = [
    (F, "        chunk_resuts = []\n", "        chunk_resuts = self._chunks\n"),
    (F, "        return np.concatenate(chunk_resuts)\n",
     "        result = np.concatenate(chunk_resuts)\n        self._chunks = []\n        return result\n"),
    (F, "        self._max_batch_size = max_batch_size\n        self._timeout = timeout\n\n    @log",
     "        self._max_batch_size = max_batch_size\n        self._timeout = timeout\n        self._chunks: list[np.ndarray] = []\n\n    @log"),
]
HELPERS = ["_remote.py"]
DEMO = """
import numpy as np
from remote import Client, Net, answer, rows
from demo_lib.fpga import InferFPGAMQTT

c = Client()
f = InferFPGAMQTT(c, "R", "M", "I", max_batch_size=2, timeout=0.2)
state = {"n": 0}

def device(topic, payload):
    if topic != "I":
        return
    state["n"] += 1
    if state["n"] == 2:
        return                      # this request is lost
    i, x = rows(payload)
    c.deliver("R", answer(i, x * 10))

c.device = device
assert f(Net(), np.arange(4.0).reshape(4, 1)) is None, "a lost request is a failure"
y = f(Net(), np.array([[7.0], [8.0], [9.0]]))
assert y is not None and y.tolist() == [[70.0], [80.0], [90.0]], y
"""
