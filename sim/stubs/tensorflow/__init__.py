"""Stand-in for the part of TensorFlow that the repository uses (eager tensors are numpy arrays)."""
import numpy as np

from . import keras  # noqa: F401

__version__ = "2.12.0"
float32, float64, int32, int64, int8, uint8 = np.float32, np.float64, np.int32, np.int64, np.int8, np.uint8
Tensor = np.ndarray


def _sigmoid(x, name=None):
    return keras.activations.sigmoid(x)


class math:      # noqa: N801
    sigmoid = staticmethod(_sigmoid)
    tanh = staticmethod(lambda x, name=None: keras.activations.tanh(x))
    exp = staticmethod(np.exp)
    reduce_sum = staticmethod(np.sum)
    reduce_mean = staticmethod(np.mean)
    multiply = staticmethod(np.multiply)
    add = staticmethod(np.add)
    square = staticmethod(np.square)
    abs = staticmethod(np.abs)


class nn:        # noqa: N801
    sigmoid = staticmethod(_sigmoid)
    tanh = math.tanh
    relu = staticmethod(lambda x, name=None: keras.activations.relu(x))
    softmax = staticmethod(lambda x, axis=-1, name=None: keras.activations.softmax(x, axis))


sigmoid = _sigmoid
tanh = math.tanh


def constant(v, dtype=None, shape=None, name=None):
    a = np.array(v, dtype=dtype)
    return a if shape is None else a.reshape(shape)


def convert_to_tensor(v, dtype=None, name=None):
    return np.array(v, dtype=dtype)


def cast(x, dtype, name=None):
    return np.array(x).astype(dtype)


reshape = staticmethod(np.reshape).__func__
transpose = np.transpose
matmul = np.matmul


class random:    # noqa: N801
    @staticmethod
    def set_seed(s):
        pass
