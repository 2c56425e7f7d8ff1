import numpy as np

from . import activations


def _dot(x, w):
    """x @ w with a fixed order of additions (bit for bit repeatable)."""
    acc = np.zeros(x.shape[:-1] + (w.shape[1],), dtype=np.float32)
    for k in range(w.shape[0]):
        acc = acc + x[..., k:k + 1] * w[k]
    return acc


class Layer:
    _n = 0

    def __init__(self, name=None, **_):
        self.name = name or type(self).__name__.lower()
        self._weights = []
        self.built = True

    def get_weights(self):
        return [w.copy() for w in self._weights]

    def set_weights(self, ws):
        if len(ws) != len(self._weights):
            raise ValueError(f"You called `set_weights(weights)` on layer {self.name} with a weight list of length "
                             f"{len(ws)}, but the layer was expecting {len(self._weights)} weights.")
        new = []
        for old, w in zip(self._weights, ws):
            w = np.array(w, dtype=np.float32)
            if w.shape != old.shape:
                raise ValueError(f"Layer {self.name} weight shape {old.shape} is not compatible with provided weight "
                                 f"shape {w.shape}.")
            new.append(w)
        self._weights = new

    @property
    def weights(self):
        return self.get_weights()

    trainable = True

    def get_config(self):
        d = {"name": self.name, "trainable": True, "dtype": "float32"}
        for k in ("units", "use_bias", "return_sequences", "rate", "filters", "kernel_size", "strides", "padding", "pool_size"):
            if hasattr(self, k):
                d[k] = getattr(self, k)
        for k in ("activation", "recurrent_activation"):
            if hasattr(self, k):
                d[k] = getattr(self, k).__name__
        if hasattr(self, "_batch_input_shape"):
            d["batch_input_shape"] = self._batch_input_shape
        return d

    def count_params(self):
        return sum(w.size for w in self._weights)

    def __call__(self, x, *a, **k):
        return self.call(np.asarray(x).astype(np.float32), *a, **k)

    def call(self, x):
        return x


class InputLayer(Layer):
    def __init__(self, input_shape=None, name=None, **_):
        super().__init__(name or "input_1")
        self.input_shape = input_shape


def Input(shape=None, **_):      # a function in Keras, too
    return InputLayer(shape)


class Dropout(Layer):
    def __init__(self, rate=0.5, name=None, **_):
        super().__init__(name)
        self.rate = rate


class Flatten(Layer):
    def call(self, x):
        return x.reshape(len(x), -1)


class Dense(Layer):
    def __init__(self, units, activation=None, use_bias=True, name=None, weights=None, **_):
        super().__init__(name)
        self.units = units
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        if weights is not None:
            self._weights = [np.array(w, dtype=np.float32) for w in weights]

    @property
    def kernel(self):
        return self._weights[0]

    @property
    def bias(self):
        return self._weights[1] if self.use_bias else None

    def call(self, x):
        y = _dot(x, self._weights[0])
        if len(self._weights) > 1:
            y = y + self._weights[1]
        return y if self.activation is None else self.activation(y)


class LSTM(Layer):
    def __init__(self, units, return_sequences=False, name=None, weights=None, activation="tanh",
                 recurrent_activation="sigmoid", batch_input_shape=None, **_):
        super().__init__(name)
        if batch_input_shape is not None:
            self._batch_input_shape = tuple(batch_input_shape)
        self.units = units
        self.return_sequences = return_sequences
        self.activation = activations.get(activation)
        self.recurrent_activation = activations.get(recurrent_activation)
        if weights is not None:
            self._weights = [np.array(w, dtype=np.float32) for w in weights]

    def call(self, x):
        k, u, b = self._weights
        n = self.units
        h = np.zeros((x.shape[0], n), np.float32)
        c = np.zeros((x.shape[0], n), np.float32)
        out = []
        for t in range(x.shape[1]):
            z = _dot(x[:, t], k) + _dot(h, u) + b
            i, f, g, o = (self.recurrent_activation(z[:, :n]), self.recurrent_activation(z[:, n:2 * n]),
                          self.activation(z[:, 2 * n:3 * n]), self.recurrent_activation(z[:, 3 * n:]))
            c = f * c + i * g
            h = o * np.tanh(c)
            out.append(h)
        return np.stack(out, axis=1) if self.return_sequences else h


class Conv2D(Layer):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", activation=None, use_bias=True, name=None, weights=None, **_):
        super().__init__(name)
        self.filters = filters
        self.kernel_size = tuple(kernel_size)
        self.strides = tuple(strides)
        self.padding = padding
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        if weights is not None:
            self._weights = [np.array(w, dtype=np.float32) for w in weights]


class MaxPooling2D(Layer):
    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", name=None, **_):
        super().__init__(name)
        self.pool_size = tuple(pool_size)
        self.strides = tuple(strides or pool_size)
        self.padding = padding


class GRU(Layer):
    def __init__(self, units, name=None, **_):
        super().__init__(name)
        self.units = units


class BatchNormalization(Layer):
    pass


class Reshape(Layer):
    pass
