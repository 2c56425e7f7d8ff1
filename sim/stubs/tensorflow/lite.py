"""Stand-in for the TFLite interpreter: tensors by index."""
import numpy as np


class Interpreter:
    def __init__(self, model_path=None, model_content=None, num_threads=None, **_):
        import tflite
        if model_content is None:
            try:
                with open(model_path, "rb") as f:
                    model_content = f.read()
            except FileNotFoundError:
                raise ValueError(f"Could not open '{model_path}'.") from None
        self._d = tflite.parse(bytes(model_content))
        self._np = tflite.NUMPY
        self._ready = False

    def allocate_tensors(self):
        self._ready = True

    def _detail(self, i):
        t = self._d["subgraphs"][0]["tensors"][i]
        q = t.get("quantization") or {}
        s = np.array(q.get("scale") or (), dtype=np.float32)
        z = np.array(q.get("zero_point") or (), dtype=np.int32)
        one = len(s) == 1
        return {"name": t["name"], "index": i, "shape": np.array(t["shape"], dtype=np.int32), "dtype": np.dtype(self._np[t["type"]]).type,
                "quantization": (float(s[0]), int(z[0])) if one else (0.0, 0), "shape_signature": np.array(t["shape"], dtype=np.int32),
                "quantization_parameters": {"scales": s, "zero_points": z, "quantized_dimension": 0}, "sparsity_parameters": {}}

    def get_tensor_details(self):
        return [self._detail(i) for i in range(len(self._d["subgraphs"][0]["tensors"]))]

    def get_input_details(self):
        return [self._detail(i) for i in self._d["subgraphs"][0]["inputs"]]

    def get_output_details(self):
        return [self._detail(i) for i in self._d["subgraphs"][0]["outputs"]]

    def get_tensor(self, index, subgraph_index=0):
        if not self._ready:
            raise ValueError("Tensor data is null. Run allocate_tensors() first")
        t = self._d["subgraphs"][0]["tensors"][index]
        b = self._d["buffers"][t["buffer"]]
        if b is None:
            return np.zeros(t["shape"], dtype=self._np[t["type"]])
        return np.array(b["data"], dtype=b["dtype"]).reshape(t["shape"])

    def tensor(self, index):
        return lambda: self.get_tensor(index)
