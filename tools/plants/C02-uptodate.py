PROPERTY = "C02"
NEEDS = """An output that is newer than its model but was not made from it: left by another tool, restored from a backup, or converted before a copy of the model with
an older date was put in its place."""
BREAKS = """A model older than its output is skipped, so a run reports success and leaves an output that says something else."""
F = "model_converters/keras2json/_main.py"
EDITS = [
    (F, '        out_path = str(model_path).replace(".h5", ".json")\n',
     '''        out = model_path.with_suffix(".json")
        if out.exists() and out.stat().st_mtime > model_path.stat().st_mtime:
            continue

        out_path = str(out)
'''),
]
HELPERS = ["_models.py"]
DEMO = """
import json, os, tempfile
import models
from tensorflow import keras
import _main

L = keras.layers
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir("models")
    keras.Model([L.Dense(2, weights=[[[1, 2], [3, 4]], [1, 2]])]).save("models/a.h5")
    with open("models/a.json", "w") as f:
        f.write("{}")
    os.utime("models/a.h5", (1, 1))
    _main._main()
    assert json.load(open("models/a.json")).get("graph")
    os.chdir("/")
"""
