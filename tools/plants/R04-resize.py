PROPERTY = "R04"
NEEDS = """An answer to the current request whose tensor is shorter than its shape says (an inconsistent message)."""
BREAKS = """np.resize fills the missing values by repeating the others: an impossible message is returned as a result."""
EDITS = [("demo/demo_lib/demo_lib/fpga.py", "return np.array(self.tensor).reshape(self.shape)",
          "return np.resize(np.array(self.tensor), self.shape)")]
HELPERS = ["_remote.py"]
DEMO = """
import numpy as np
from remote import Client, Net, rows
from demo_lib.fpga import InferFPGAMQTT

c = Client()
f = InferFPGAMQTT(c, "R", "M", "I", max_batch_size=8, timeout=0.3)
for tensor in ([1.0, 2.0, 3.0], [1.0], list(range(9))):
    c.device = lambda t, p: c.deliver("R", {"id": rows(p)[0], "shape": [2, 2], "tensor": tensor}) if t == "I" else None
    y = f(Net(), np.zeros((2, 2)))
    assert y is None, (tensor, y)
c.device = lambda t, p: c.deliver("R", {"id": rows(p)[0], "shape": [2, 2], "tensor": [1, 2, 3, 4]}) if t == "I" else None
assert f(Net(), np.zeros((2, 2))).tolist() == [[1, 2], [3, 4]]
"""
