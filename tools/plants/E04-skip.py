PROPERTY = "E04"
NEEDS = "A model file with a layer kind this engine does not know, behind a kind it does."
BREAKS = "Layers that can not be built are skipped with a warning, so a network that is not the one of the file is returned."
G = "inference_engine/itcl_inference_engine/network/sequential.py"
EDITS = [
    (G, "            layers.append(build_layer(layer))\n",
     """            try:
                layers.append(build_layer(layer))
            except ValueError as e:
                if not layers:
                    raise
                logger.warning(f"Skipping {layer['name']}: {e}")
"""),
]
HELPERS = ["_engine.py"]
DEMO = """
import json
import os
import tempfile
from engine import dense_net, op, node
from itcl_inference_engine.network.sequential import SequentialNetwork

with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.json")
    net = dense_net()
    net["graph"].insert(2, op("CONV_2D", [node(0.1, 1)], [node(0.1, 1)]))
    json.dump(net, open(p, "w"))
    try:
        SequentialNetwork.from_json_file(p)
    except ValueError:
        pass
    else:
        raise SystemExit("an unknown layer was loaded")
"""
