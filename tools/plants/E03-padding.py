PROPERTY = "E03"
NEEDS = "An LSTM network and a batch in which a row that starts with padding (zeros) is next to one that does not."
BREAKS = """Leading time steps that are padding in the whole batch are skipped, so the answer of a padded row depends on whether
another row of its batch is padded too."""
F = "inference_engine/itcl_inference_engine/layers/itclq/lstm.py"
EDITS = [
    (F, "        for input_timestep in input_norm:\n",
     """        for input_timestep in input_norm:
            if len(hidden_state) == 1 and len(input_norm) > 1:
                if not self._return_sequences and not input_timestep.any():
                    input_norm = input_norm[1:]
                    continue
"""),
]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import lstm_net
from itcl_inference_engine.network.sequential import SequentialNetwork

r = np.random.RandomState(0)
for seed in range(6):
    x = r.uniform(-3, 3, (3, 4, 2))
    x[0, :2] = 0
    together = SequentialNetwork(lstm_net(seed=seed)).infer(x)
    alone = SequentialNetwork(lstm_net(seed=seed)).infer(x[:1])
    assert np.array_equal(together[:1], alone), (together, alone)
"""
