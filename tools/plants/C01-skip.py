PROPERTY = "C01"
NEEDS = "A Keras model with a layer the converter does not know."
BREAKS = """The class of a layer is matched by its first letters, so a layer that changes the data (SpatialDropout, Reshape, ...) is taken for one that only
matters in training, and the description silently lacks it."""
F = "model_converters/keras2json/keras2json/_convert.py"
EDITS = [
    (F, '    elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:\n        return []',
     '    elif name.startswith(("INPUT", "OUTPUT", "RE", "DROPOUT")):\n        return []'),
]
HELPERS = ["_models.py"]
DEMO = """
import models
from tensorflow import keras
from keras2json import convert

L = keras.layers
try:
    convert(keras.Model([L.Dense(2, weights=[[[1, 2], [3, 4]], [1, 2]]), L.Reshape(name="reshape")]))
except ValueError:
    pass
else:
    raise SystemExit("a model with a Reshape layer was converted")
"""
