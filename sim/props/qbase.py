"""Random source models, data, configurations and loss functions for the quantizer scenarios."""
from __future__ import annotations

import copy
import hashlib
import json
import logging
import math
import os
import random
import re

import numpy as np

from .. import core

logging.disable(logging.CRITICAL)
np.seterr(all="ignore")


# ---- randomness: every simulated thread has a stream of its own
class _Streams:
    def __init__(self):
        self.by = {}
        self.main = random.Random(1)

    def cur(self):
        s = core.ACTIVE
        if s is not None and s.cur is not None and s.is_sim_thread():
            r = self.by.get(s.cur.id)
            if r is None:
                r = self.by[s.cur.id] = random.Random(10007 + s.cur.id)
            return r
        return self.main

    def reset(self):
        self.by = {}


STREAMS = _Streams()


def _fwd(name):
    def f(*a, **k):
        return getattr(STREAMS.cur(), name)(*a, **k)
    f.__name__ = name
    return f


for _n in ("random", "randrange", "randint", "choice", "choices", "shuffle", "uniform", "sample", "getrandbits", "gauss", "seed",
           "normalvariate", "expovariate", "triangular", "betavariate", "getstate", "setstate", "randbytes"):
    setattr(random, _n, _fwd(_n))

import dimod  # noqa: E402  (stand-in)
from tensorflow import keras  # noqa: E402  (stand-in)

from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402
from itcl_quantizer.config.models.keras import (  # noqa: E402
    KerasDenseCfg, ParamEqualizerCfg, QuantizeCfg, QuantizerCfg, RoundingAnnealerCfg, RoundingMinimaCfg, RoundingQUBOCfg)
from itcl_quantizer.equalizers.adaround import AdaroundNet  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet, ParamEqualizerNet  # noqa: E402
from itcl_quantizer.tensor_extractor.keras import keras_builder  # noqa: E402

L = keras.layers

import builtins  # noqa: E402

_real_print = builtins.print


def _quiet_print(*a, **k):
    return None


builtins.print = _quiet_print          # the optimizers print every step

WGRID = (0.5, -0.5, 0.25, -0.25, 0.1, -0.3, 1.0, -1.0, 0.75, 0.013, -0.77, 1.27, -1.28, 0.333, 0.9, -0.06)


def weights(ch, shape):
    kind = ch.draw(3)
    n = int(np.prod(shape))
    if kind == 0:
        v = [ch.pick(WGRID) for _ in range(n)]
    elif kind == 1:
        v = [(ch.draw(255) - 127) / 100 for _ in range(n)]
    else:
        v = [(ch.draw(127) - 63) / 64 for _ in range(n)]
    if not any(v):
        v[0] = 0.5
    return np.array(v, dtype=np.float32).reshape(shape)


ACTS = ("linear", "tanh", "sigmoid", "relu", "relu6", "softmax")


SOURCES = []


NAMES = ("d{}", "d{}", "d{}", "dense_{}", "capa_ñ{}", "层 {}")


class Source:
    """A source model on disk and its representative data."""

    def __init__(self, ch, tag=0, lstm=None, hidden=("linear", "tanh", "sigmoid", "relu", "relu6"), last=ACTS, maxdim=4, rows=(2, 6),
                 layers=(1, 3)):
        if maxdim == 4 and ch.chance(0.04):
            maxdim = 10
        feat = ch.between(1, maxdim)
        self.feat = feat
        self.lstm = ch.chance(0.2) if lstm is None else lstm
        self.acts = []
        ls = []
        n = feat
        names = ch.pick(NAMES)
        if ch.draw(2):
            ls.append(L.InputLayer(name="in"))
        if self.lstm:
            u = ch.between(1, 3)
            ls.append(L.LSTM(u, return_sequences=False, name="lstm", weights=[weights(ch, (n, 4 * u)), weights(ch, (u, 4 * u)),
                                                                              weights(ch, (4 * u,))]))
            n = u
        depth = ch.between(*layers) if not self.lstm else ch.between(0, 1)
        for i in range(depth):
            m = ch.between(1, maxdim)
            act = ch.pick(last if i == depth - 1 else hidden)
            bias = not ch.chance(0.2)
            ls.append(L.Dense(m, activation=act, use_bias=bias, name=names.format(i),
                              weights=[weights(ch, (n, m))] + ([weights(ch, (m,))] if bias else [])))
            self.acts.append(act)
            if i < depth - 1 and ch.chance(0.2):
                ls.append(L.Dropout(0.5, name=f"drop{i}"))
            n = m
        self.model = keras.Model(ls)
        self.path = os.path.abspath(f"src{tag}.h5")
        self.text = keras.models.dumps(self.model)
        with open(self.path, "w", encoding="utf-8") as f:
            f.write(self.text)
        r = ch.between(*rows)
        if ch.chance(0.06):
            r = ch.between(7, 80)
        shape = (r, ch.between(1, 3), feat) if self.lstm else (r, feat)
        k = int(np.prod(shape))
        self.x = np.array([(ch.draw(129) - 64) * ch.pick((0.03125, 0.017, 0.1)) for _ in range(k)],
                          dtype=ch.pick(("float64", "float32"))).reshape(shape)
        self.x.flat[0] = 1.5
        if k > 1 and ch.chance(0.2):        # values that something that cleans or clips data would touch
            self.x.flat[1 + ch.draw(k - 1)] = ch.pick((3e-7, -2e-9, 1e-40, -0.0, 0.99999994, 40.0))
        self.x0 = self.x.copy()
        SOURCES.append(self)
        self.info = {"features": feat, "lstm": self.lstm, "activations": self.acts, "rows": r}


    def retrained(self, ch, tag):
        """The same architecture and names, other weights and data; in a file of its own or (tag None) in the same file."""
        s = copy.copy(self)
        s.model = copy.deepcopy(self.model)
        for l in s.model.layers:
            if l.get_weights():
                l.set_weights([weights(ch, np.shape(w)) for w in l.get_weights()])
        s.text = keras.models.dumps(s.model)
        s.acts = list(self.acts)
        if tag is not None:
            s.path = os.path.abspath(f"src{tag}.h5")
            with open(s.path, "w", encoding="utf-8") as f:
                f.write(s.text)
        if ch.draw(2):
            s.x = np.array([(ch.draw(129) - 64) * 0.03125 for _ in range(self.x.size)], dtype=self.x.dtype).reshape(self.x.shape)
            s.x.flat[0] = 1.25
            s.x0 = s.x.copy()
        SOURCES.append(s)
        return s

    def dead(self):
        """Does a layer produce the same nothing for all of the data?"""
        x = np.asarray(self.x0, dtype=np.float32)
        for l in self.model.layers:
            if isinstance(l, L.Dense):
                z = x @ l.kernel + (l.bias if l.bias is not None else 0)
                act = getattr(l.activation, "__name__", "linear")
                if np.abs(z).max() < 1e-6 or (act in ("relu", "relu6") and z.max() <= 1e-6) or (act == "relu6" and z.min() >= 6):
                    return True
            x = np.asarray(l(x), dtype=np.float32)
            if isinstance(l, (L.Dense, L.LSTM)) and np.abs(x).max() < 1e-6:
                return True
        return not np.isfinite(x).all()

    def save(self):
        with open(self.path, "w", encoding="utf-8") as f:
            f.write(self.text)


_dt = re.compile(r'"generated_at": "[^"]*"')


def canon(schema):
    """The description of a network without the time of its creation."""
    d = {k: v for k, v in schema.items() if k != "generated_at"}
    return json.dumps(d, sort_keys=True, default=lambda o: f"<{type(o).__name__}>")


def build_ok(ctx, f):
    """Models with a dead layer (its calibration is constant zero) cannot be quantized at all; such runs end here."""
    try:
        return f()
    except (ValueError, ZeroDivisionError, OverflowError, IndexError):
        if any(s.dead() for s in SOURCES):
            ctx.count("degenerate_model")
            return None
        raise


PALETTES = (
    (0.5, 0.25, 1.0, 2.0, 0.125, 3.0),
    (0.0, 1.0, 2.0, 0.5),
    (0, 1, 2, 3, 4),
    (0.0, 0.0, 1e-9, 1.0, 5.0),
    (1.0, 1.0, 1.0, 0.5),
    (-1.0, -3.5, 2.0, 0.0),
    (math.inf, 1.0, 0.5, 10.0),
    (math.nan, 1.0, 0.5, 0.0),
    (math.nan, math.inf, 7.0, 3.0, 2.0, 1.0),
    (1e300, 1e-300, 0.0, -1e300),
    (10.0,),
)


class Loss:
    """A deterministic function of the network; records what it was asked."""

    def __init__(self, ch, src, kinds=("palette", "rank", "mse", "zeroable")):
        self.kind = ch.pick(kinds)
        self.palette = ch.pick(PALETTES)
        self.salt = ch.draw(1 << 16)
        self.cast = ch.pick((None, None, np.float32, np.float64, "item"))
        self.src = src
        self.evals = []
        self.memo = {}
        self.on_call = None

    def value(self, net, key):
        if key in self.memo:
            return self.memo[key]
        h = int.from_bytes(hashlib.sha1(f"{self.salt}".encode() + key.encode()).digest()[:6], "big")
        if self.kind == "palette":
            v = self.palette[h % len(self.palette)]
        elif self.kind == "rank":
            v = (h % 100003) / 1000
        elif self.kind == "zeroable":          # zero is found now and then
            v = 0.0 if h % 7 == 0 else (h % 1009) / 10 + 0.1
        else:
            want = self.src.model(self.src.x)
            got = np.asarray(net.infer(self.src.x), dtype=float)
            v = float(np.mean((got - np.asarray(want, float).reshape(got.shape)) ** 2))
        if self.cast is np.float32 or self.cast is np.float64:
            v = self.cast(v)
        elif self.cast == "item" and v == v and abs(v) < 1e9 and v == int(v):
            v = int(v)
        self.memo[key] = v
        return v

    def __call__(self, net):
        key = canon(net.schema)
        v = self.value(net, key)
        self.evals.append((key, v))
        if core.ACTIVE is not None:
            core.ACTIVE.mix(("evaluated", hashlib.sha1(key.encode()).hexdigest()[:8], repr(v)))
        if self.on_call:
            self.on_call(net, key, v)
        return v

    def of(self, network):
        """The loss of the network as it is now, not recorded."""
        net = network.as_sequential_network()
        return self.value(net, canon(net.schema))


def isnan(v):
    return v != v


def eq(a, b):
    return a == b or (isnan(a) and isnan(b))


def factory_for(ch, ctx=None):
    """Adaptive rounding optimizers."""
    from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
    retries = ch.between(0, 5)
    if ch.draw(2):
        a = dict(t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=retries)
    else:
        tmin = ch.pick((0.1, 1.0, 2.0))
        a = dict(t_min=tmin, t_max=tmin * ch.pick((1, 5, 1e5)), updates=ch.pick((0, 1, 100)), steps=ch.pick((0, 1, 5, 12)),
                 max_retries=retries)
    return a, lambda: RoundingAnnealer(**a)


def adaround_cfg(ch, qubo=False):
    k = ch.draw(3 if qubo else 2)
    if k == 2:
        return RoundingQUBOCfg()
    if k == 0:
        return RoundingMinimaCfg(max_retries=ch.between(0, 4))
    tmin = ch.pick((0.1, 1.0))
    return RoundingAnnealerCfg(t_min=tmin, t_max=tmin * ch.pick((1, 20)), updates=ch.pick((0, 100)), steps=ch.pick((0, 3, 8)),
                               max_retries=ch.between(0, 3))


def dense_cfg(ch):
    c = KerasDenseCfg(kernel_symmetric=ch.draw(2) == 1)
    if ch.chance(0.2):
        c.kernel_dtype = ch.pick(("int8", "int4", "int16"))
    if ch.chance(0.1):
        c.bias_dtype = ch.pick(("int32", "int16"))
    return c


def config(ch, qubo=False, want=True):
    c = QuantizerCfg(dense=dense_cfg(ch))
    k = ch.draw(3) if want else 3
    if k in (0, 2):
        c.param_equalizer = ParamEqualizerCfg(max_retries=ch.between(0, 4))
    if k in (1, 2):
        c.ada_round_net = adaround_cfg(ch, qubo)
    if ch.chance(0.15):
        own = dense_cfg(ch)
        c.specific_layers = {n.format(0): own for n in NAMES}
    return c


def plain(ctx, src, cfg=None, out="plain.json"):
    """The network as quantized, before any optimizer."""
    c = cfg or QuantizerCfg(dense=dense_cfg(ctx.ch))
    return build_ok(ctx, lambda: keras_builder.build(src.path, out, src.x, None, c))


def in_sim(ctx, fn, modes=(None,), max_steps=8_000_000, name="main"):
    """Run one thread under the simulator (crash points, clock, step limit)."""
    sim = ctx.sim(max_steps=max_steps)
    sim.configure(modes=modes)
    th = sim.spawn(fn, name)
    sim.run()
    if sim.hang or sim.deadlock:
        ctx.fail("hang", f"the optimization never ended ({sim.hang})")
    if th.exc is not None and not isinstance(th.exc, core.SimAbort):
        raise th.exc
    return sim
