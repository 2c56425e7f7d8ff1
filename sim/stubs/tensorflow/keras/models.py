"""Models are stored as JSON text; loading gives a fresh model every time."""
import json

import numpy as np

from . import layers as L


class Model:
    def __init__(self, layers=None, name=None):
        self.layers = list(layers or [])
        self.name = name or "model"

    def add(self, layer):
        self.layers.append(layer)

    def __call__(self, x):
        for layer in self.layers:
            x = layer(x)
        return x

    def predict(self, x, *a, **k):
        return self(np.asarray(x, dtype=np.float32))

    def save(self, path, *a, **k):
        with open(path, "w", encoding="utf-8") as f:
            f.write(dumps(self))


Sequential = Model


def dumps(model):
    out = []
    for layer in model.layers:
        d = {"class": type(layer).__name__, "name": layer.name,
             "weights": [[list(w.shape), w.astype(np.float64).ravel().tolist()] for w in layer._weights]}
        for k in ("units", "use_bias", "return_sequences", "rate", "filters", "kernel_size", "strides", "padding", "pool_size"):
            if hasattr(layer, k):
                d[k] = getattr(layer, k)
        if hasattr(layer, "_batch_input_shape"):
            d["batch_input_shape"] = layer._batch_input_shape
        if isinstance(layer, (L.Dense, L.Conv2D)):
            d["activation"] = layer.activation.__name__
        out.append(d)
    return json.dumps({"format": "stub-keras", "layers": out})


def load_model(path, custom_objects=None, compile=True, **_):
    try:
        with open(path, encoding="utf-8") as f:
            d = json.loads(f.read())
        assert d["format"] == "stub-keras"
    except OSError:
        raise OSError(f"No file or directory found at {path}") from None
    except Exception:
        raise OSError(f"Unable to open file {path} (file signature not found)") from None
    layers = []
    for k in d["layers"]:
        ws = [np.array(v, dtype=np.float32).reshape(s) for s, v in k.pop("weights")]
        cls = getattr(L, k.pop("class"))
        layer = cls(**k, weights=ws) if ws else cls(**k)
        layers.append(layer)
    return Model(layers)
