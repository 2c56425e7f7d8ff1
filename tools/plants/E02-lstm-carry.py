PROPERTY = "E02"
NEEDS = "An inference through an LSTM layer that is interrupted between two time steps, and another one after it on the same network."
BREAKS = """The cell state lives on the layer and is put back to zero when an inference ends, which an inference that fails half way
never does: the next inference starts from the cell state of the aborted one."""
F = "inference_engine/itcl_inference_engine/layers/itclq/lstm.py"
EDITS = [
    (F, "        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)\n", "        cell_state = self._cell_state\n"),
    (F, "            inter.cell_state.append(cell_state)\n",
     "            self._cell_state = cell_state\n            inter.cell_state.append(cell_state)\n"),
    (F, "        inter.hidden_state = hs\n",
     "        inter.hidden_state = hs\n        self._cell_state = np.zeros((1, self._n_cells), dtype=np.int64)\n"),
    (F, "        self._return_sequences = return_sequences\n",
     "        self._return_sequences = return_sequences\n"
     "        self._cell_state = np.zeros((1, self._n_cells), dtype=np.int64)\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import sys
import numpy as np
from engine import lstm_net
from itcl_inference_engine.network.sequential import SequentialNetwork

x = np.random.RandomState(0).uniform(-3, 3, (2, 4, 2))
fresh = SequentialNetwork(lstm_net()).infer(x)


class Stop(BaseException):
    pass


def aborted(net, after):
    n = [0]

    def trace(frame, event, arg):
        if "itcl_inference_engine" not in frame.f_code.co_filename:
            return None
        n[0] += event == "line"
        if n[0] == after:
            sys.settrace(None)
            raise Stop
        return trace

    sys.settrace(trace)
    try:
        net.infer(x)
    except Stop:
        return True
    finally:
        sys.settrace(None)
    return False


after = 1
while True:
    net = SequentialNetwork(lstm_net())
    if not aborted(net, after):
        break
    got = net.infer(x)
    assert np.array_equal(got, fresh), (after, got, fresh)
    after += 1
assert after > 30, after
"""
