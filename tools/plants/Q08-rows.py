PROPERTY = "Q08"
NEEDS = "Representative data in which rows occur more than once."
BREAKS = "Rows that occur more than once count once: the energy is no longer the mean error over the representative data."
F = "quantizer/itcl_quantizer/equalizers/adaround/qubo.py"
EDITS = [(F, "        input_f = np.array(input_f)\n", "        input_f = self._input_data = np.unique(np.array(input_f), axis=0)\n")]
HELPERS = ["_build.py"]
DEMO = """
import itertools
import dimod
from build import *

bqms = []


def answer(name, bqm, reads):
    bqms.append((name, bqm))
    return [[1] * len(bqm.variables)]


dimod.answer = answer
r = np.random.RandomState(1)
k, b = (r.uniform(-1, 1, (3, 2)).astype(np.float32), r.uniform(-1, 1, 2).astype(np.float32))
keras.Model([L.Dense(2, activation="linear", name="d", weights=[k, b])]).save(path("src.h5"))
x = data(20)
x[10:] = x[0]
os.chdir(DIR)
net = build(x, lambda net: 1.0, QuantizerCfg(ada_round_net=RoundingQUBOCfg()))
d = [o for o in net.as_operators() if len(o.inputs) == 3][0]
xs, ks, bs = (n.scale for n in d.inputs)
k, b = k.astype(np.float64).T, b.astype(np.float64)
y = x.astype(np.float32).astype(np.float64) @ k.T + b
xr = np.round(x / xs)
if len(bqms) % 2:
    fail("problems")
for n, (name, q) in enumerate(bqms):
    if len(q.variables) != 4 or name.startswith("Exact"):
        continue
    fits = []
    for unit in range(2):
        e, m = [], []
        for bits in itertools.product((0, 1), repeat=4):
            e.append(q.energy(dict(zip(q.variables, bits))))
            ki = np.floor(k[unit] / ks) + bits[:3]
            bi = np.floor(b[unit] / bs) + bits[3]
            m.append(np.mean((xs * ks * (xr @ ki) + bs * bi - y[:, unit]) ** 2))
        e, m = np.array(e), np.array(m)
        gap = (e - m) - (e - m)[0]
        fits.append(np.abs(gap).max() / np.ptp(m))
    if min(fits) > 1e-3:
        fail((n, name, fits))
"""
