PROPERTY = "S01"
NEEDS = "A remote loss evaluation that times out during the annealing, after one that succeeded."
BREAKS = "An evaluation the accelerator did not answer gets the loss of the evaluation before, so lost messages choose another model without an error."
F = "quantizer/itcl_quantizer/equalizers/adaround/annealer.py"
EDITS = [(F, "        energy: float = self.energy_fn(self.state)\n        return energy\n",
          """        try:
            self._energy = self.energy_fn(self.state)
        except RuntimeError as e:
            if self._energy is None:
                raise
            print(f"Not evaluated: {e}")
        return self._energy
"""), (F, "        self._max_retires = max_retries\n", "        self._max_retires = max_retries\n        self._energy: float | None = None\n")]
HELPERS = ["_build.py", "_remote.py"]
DEMO = """
from build import *
from remote import Client
from demo_lib.fpga import LossFPGA

model()
x = data()


def run(lost):
    c = Client()
    f = LossFPGA(c, "R", "M", timeout=0.05)
    n = [0]
    losses = {}

    def device(topic, payload):
        if topic != "M":
            return
        net = json.loads(payload)
        v = losses.setdefault(canon(net), 1.0 / (1 + len(losses)) if len(losses) < 6 else 1.0)
        n[0] += 1
        if n[0] != lost:
            c.deliver("R", json.dumps({"loss": v}).encode())

    c.device = device
    random.seed(11)
    try:
        return canon(build(x, f, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=3))).as_json()) if lost is None else (
            build(x, f, QuantizerCfg(ada_round_net=RoundingMinimaCfg(max_retries=3))) and "a model")
    except RuntimeError:
        return "failed"


for k in (2, 3, 5):
    if run(k) != "failed":
        fail(f"evaluation {k} was lost and the quantization went on")
"""
