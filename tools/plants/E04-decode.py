PROPERTY = "E04"
NEEDS = "A model file with a damaged byte that is not valid UTF-8, inside a number or a name."
BREAKS = "Bytes that can not be decoded are dropped instead of refused, so a damaged file loads with other weights or names."
G = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [
    (G, "        with open(model_path, encoding=\"utf-8\") as f:\n", "        with open(model_path, encoding=\"utf-8\", errors=\"ignore\") as f:\n"),
]
HELPERS = ["_engine.py"]
DEMO = """
import json
import os
import tempfile
from engine import dense_net
from itcl_inference_engine.network.sequential import SequentialNetwork

with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.json")
    good = json.dumps(dense_net()).encode()
    for i in range(0, len(good), 7):
        bad = bytearray(good)
        bad[i] = 0x80 | (bad[i] & 0x7F)
        with open(p, "wb") as f:
            f.write(bad)
        try:
            SequentialNetwork.from_json_file(p)
        except ValueError:
            continue
        raise SystemExit(f"byte {i} damaged, and loaded")
"""
