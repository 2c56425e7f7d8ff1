PROPERTY = "C02"
NEEDS = "A folder with a model that cannot be converted, listed after one that can."
BREAKS = """The program writes the network of the model before it under the name of the failing model, and reports success."""
F = "model_converters/keras2json/_main.py"
EDITS = [
    (F, '        network = convert(model)\n', '''        try:
            network = convert(model)
        except ValueError as e:
            print(f"{model_path}: {e}")
'''),
]
HELPERS = ["_models.py"]
DEMO = """
import os, tempfile
import models
from tensorflow import keras
import _main

L = keras.layers
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir("models")
    dense = L.Dense(2, weights=[[[1, 2], [3, 4]], [1, 2]])
    keras.Model([dense, L.GRU(2, name="gru")]).save("models/b.h5")
    for name in ("a", "c", "d"):
        keras.Model([dense]).save(f"models/{name}.h5")
    try:
        _main._main()
    except ValueError:
        ok = True
    else:
        ok = False
    os.chdir("/")
    assert ok, "a run that could not convert b.h5 reported success"
"""
