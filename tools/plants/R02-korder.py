PROPERTY = "R02"
NEEDS = """An input array that is not stored in C order (a transposed view, a Fortran-ordered array) with more than one row and column."""
BREAKS = """The batch is flattened in memory order instead of row order: the request carries columns in place of rows."""
EDITS = [("demo/demo_lib/demo_lib/fpga.py", '''        flattened: list[E] = batch.flatten().tolist()

        return cls(
            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened
        )

    def as_kv(self) -> dict[str, Any]:
        return {"id": self.id, "shape": self.shape, "tensor": self.tensor}

    def as_json(self) -> str:''', '''        flattened: list[E] = batch.ravel(order="K").tolist()

        return cls(
            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened
        )

    def as_kv(self) -> dict[str, Any]:
        return {"id": self.id, "shape": self.shape, "tensor": self.tensor}

    def as_json(self) -> str:''')]
HELPERS = ["_remote.py"]
DEMO = """
import numpy as np
from remote import Client, Net, answer, rows
from demo_lib.fpga import InferFPGAMQTT

c = Client()
f = InferFPGAMQTT(c, "R", "M", "I", max_batch_size=8, timeout=0.5)
seen = []

def device(t, p):
    if t == "I":
        i, x = rows(p)
        seen.append(x)
        c.deliver("R", answer(i, x))

c.device = device
x = np.arange(6.0).reshape(2, 3)
for a in (x, x.T, np.asfortranarray(x), x[:, ::-1], x[::-1]):
    seen.clear()
    y = f(Net(), a)
    assert np.array_equal(np.concatenate(seen), a), (seen, a)
    assert np.array_equal(y, a)
"""
