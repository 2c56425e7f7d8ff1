PROPERTY = "E01"
NEEDS = """Two threads inside the same dense layer at once with batches of the same size: one is preempted between the matrix
multiplication and the addition of the bias."""
BREAKS = """The dense layer multiplies into an array it keeps between calls, so a second thread overwrites the product of the first."""
F = "inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py"
EDITS = [
    (F, "            mmul_res = np.matmul(input_, W)\n",
     """            shape = (len(input_), W.shape[1])
            if self.__product is None or self.__product.shape != shape:
                self.__product = np.empty(shape, dtype=np.int64)
            mmul_res = np.matmul(input_, W, out=self.__product)
"""),
    (F, "        self.__q_output = Quantization(output_dtype)\n",
     "        self.__q_output = Quantization(output_dtype)\n        self.__product: np.ndarray | None = None\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import numpy as np
from engine import dense_net, interleave
from itcl_inference_engine.network.sequential import SequentialNetwork

r = np.random.RandomState(0)
a, b = r.uniform(-3, 3, (4, 3)), r.uniform(-3, 3, (4, 3))
alone = SequentialNetwork(dense_net()).infer(a)
net = SequentialNetwork(dense_net())
net.infer(b)
got = interleave(lambda: net.infer(a), lambda: net.infer(b))
assert np.array_equal(got, alone), (got, alone)
"""
