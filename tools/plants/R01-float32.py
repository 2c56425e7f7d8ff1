PROPERTY = "R01"
NEEDS = """An answer with a value that needs more than 24 bits (a large integer or a double that is not a float32)."""
BREAKS = """Results are narrowed to float32, so the caller gets other numbers than the accelerator answered."""
EDITS = [("demo/demo_lib/demo_lib/fpga.py", "return np.array(self.tensor).reshape(self.shape)",
          "return np.array(self.tensor, dtype=np.float32).reshape(self.shape)")]
HELPERS = ["_remote.py"]
DEMO = """
import numpy as np
from remote import Client, Net, answer, rows
from demo_lib.fpga import InferFPGAMQTT

c = Client()
f = InferFPGAMQTT(c, "R", "M", "I", max_batch_size=2, timeout=0.5)
for want in ([[16777217], [5]], [[0.1], [0.3]]):
    c.device = lambda t, p: c.deliver("R", answer(rows(p)[0], want)) if t == "I" else None
    y = f(Net(), np.zeros((2, 1)))
    assert y is not None and y.tolist() == want, (want, y)
"""
