PROPERTY = "E04"
NEEDS = "A model file that is replaced by another one of the same size within a second, and loaded again in the same process."
BREAKS = """Descriptions read are kept by path, size and modification time in whole seconds: a file rewritten within the second (a
quantization run in a loop) is not read again."""
G = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [
    (G, "        with open(model_path, encoding=\"utf-8\") as f:\n            net: JsonNetwork = json.load(f)\n            return cls(net)\n",
     """        with open(model_path, encoding="utf-8") as f:
            stat = os.fstat(f.fileno())
            key = (str(model_path), stat.st_size, int(stat.st_mtime))
            text = _files.get(key)
            if text is None:
                text = f.read()
            net: JsonNetwork = json.loads(text)
            _files[key] = text
            return cls(net)
"""),
    (G, "class Network(Protocol):\n", "_files: dict = {}\n\n\nclass Network(Protocol):\n"),
    (G, "import json\nimport time\n", "import json\nimport os\nimport time\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import json
import os
import tempfile
import numpy as np
from engine import dense_net
from itcl_inference_engine.network.sequential import SequentialNetwork

with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.json")
    for bias in (-499, 499, -100, 250):
        net = dense_net()
        net["graph"][1]["inputs"][2]["tensor"]["tensor"] = [bias, 100 + abs(bias)]
        json.dump(net, open(p, "w"))
        os.utime(p, (1_700_000_000, 1_700_000_000))
        loaded = SequentialNetwork.from_json_file(p)
        assert loaded.schema == net, bias
"""
