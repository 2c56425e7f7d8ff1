"""Small source models (on the stand-in for Keras beside this file) and helpers for the demonstrations."""
import builtins
import json
import logging
import os
import random
import tempfile

import numpy as np

logging.disable(logging.CRITICAL)
np.seterr(all="ignore")
print_ = builtins.print
builtins.print = lambda *a, **k: None       # the optimizers print every step

from tensorflow import keras  # noqa: E402

from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402
from itcl_quantizer.config.models.keras import (  # noqa: E402
    KerasDenseCfg, ParamEqualizerCfg, QuantizerCfg, RoundingAnnealerCfg, RoundingMinimaCfg, RoundingQUBOCfg)
from itcl_quantizer.equalizers.adaround import AdaroundNet  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet  # noqa: E402
from itcl_quantizer.tensor_extractor.keras import keras_builder  # noqa: E402

L = keras.layers
_tmp = tempfile.TemporaryDirectory(prefix="demo.")
DIR = _tmp.name


def path(name):
    return os.path.join(DIR, name)


def model(acts=("tanh", "linear"), dims=(3, 3, 2), seed=1, name="src.h5", bias=True):
    r = np.random.RandomState(seed)
    layers = []
    for i, a in enumerate(acts):
        w = [r.uniform(-1, 1, (dims[i], dims[i + 1])).astype(np.float32), r.uniform(-1, 1, dims[i + 1]).astype(np.float32)]
        layers.append(L.Dense(dims[i + 1], activation=a, use_bias=bias, name=f"d{i}", weights=w if bias else w[:1]))
    m = keras.Model(layers)
    m.save(path(name))
    return m


def data(rows=12, feat=3, seed=7):
    return np.random.RandomState(seed).uniform(-1, 1, (rows, feat))


def build(x, loss=None, cfg=None, src="src.h5", out="out.json"):
    return keras_builder.build(path(src), path(out), x, loss, cfg or QuantizerCfg())


def canon(schema):
    return json.dumps({k: v for k, v in schema.items() if k != "generated_at"}, sort_keys=True)


def fail(msg):
    print_("BROKEN:", msg)
    raise SystemExit(1)
