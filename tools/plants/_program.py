"""Runs demo/x3_fpga/quantize_x3.py in a scratch directory, with an accelerator and an MQTT library that are stand-ins."""
import io
import sys
import types

from remote import Client as _Client  # noqa: I001  (before anything imports demo_lib)
from build import *  # noqa: F401,F403
from build import DIR, SequentialNetwork, builtins, data, json, model, np, os, print_

PROGRAM = os.path.join(os.getcwd(), "demo/x3_fpga/quantize_x3.py")


class Left(BaseException):
    pass


class Client(_Client):
    last = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        Client.last = self

    def loop_forever(self, *a, **k):
        pass

    def disconnect(self, *a, **k):
        pass

    def publish(self, topic, payload=None, qos=0, retain=False):
        self.published.append((topic, payload))
        self.handler(topic, payload)

    def handler(self, topic, payload):
        Client.accelerator(self, topic, payload)


def mqtt_client(cls):
    sys.modules["paho.mqtt.client"].Client = cls
    import demo_lib.mqtt
    demo_lib.mqtt.Client = cls


def files():
    r = np.random.RandomState(3)
    for k, (d, name) in enumerate((("create_model", "model_4l.h5"), ("larger_model", "model.h5"))):
        os.mkdir(os.path.join(DIR, d))
        m = model(seed=k + 1, name=os.path.join(d, name))
        x = data(rows=8, seed=k + 5)
        np.save(os.path.join(DIR, d, "x_train.npy"), x)
        np.save(os.path.join(DIR, d, "y_train.npy"), np.asarray(m(x)) + 0.125)
        np.save(os.path.join(DIR, d, "x.npy"), r.uniform(-1, 1, (9, 3)))
        np.save(os.path.join(DIR, d, "y.npy"), r.uniform(-1, 1, (9, 2)))


def typer():
    import enum
    import inspect
    import typing
    m = types.ModuleType("typer")

    def run(f):
        hints, kw = typing.get_type_hints(f), {}
        for n in inspect.signature(f).parameters:
            if "--" + n in sys.argv:
                v, t = sys.argv[sys.argv.index("--" + n) + 1], hints[n]
                kw[n] = t(v) if t is int or issubclass(t, enum.Enum) else v
        f(**kw)
    m.run = run
    sys.modules["typer"] = m


class Device:
    """The accelerator; lost: which of its answers are lost."""

    def __init__(self, lost=lambda n: False):
        self.model = self.set = None
        self.lost, self.n = lost, 0

    def net(self, x):
        return np.asarray(SequentialNetwork(self.model).infer(x), dtype=float)

    def __call__(self, client, topic, payload):
        from demo_lib.mqtt import TOPICS
        if topic == TOPICS.REPR_DATASET:
            d = json.loads(payload)
            self.set = [np.array(d[k]["tensor"]).reshape(d[k]["shape"]) for k in ("input", "output")]
            return
        if topic == TOPICS.MODEL_UPDATE:
            self.model = json.loads(payload)
            if self.set is None:
                return
            x, y = self.set
            out, to = {"loss": float(np.mean(np.square(self.net(x) - y)))}, TOPICS.INFER_LOSS
        else:
            d = json.loads(payload)["input"]
            y = self.net(np.array(d["tensor"]).reshape(d["shape"]))
            out, to = {"id": d["id"], "shape": list(y.shape), "tensor": y.ravel().tolist()}, TOPICS.RESULT
        self.n += 1
        if not self.lost(self.n):
            client.deliver(to, out)


def start(device, *args):
    """Returns (status, output, model file or None)."""
    Client.accelerator = staticmethod(device)
    out, status = io.StringIO(), []

    def leave(code):
        status.append(code)
        raise Left
    argv, stdout, exit_, printer, cwd = sys.argv, sys.stdout, os._exit, builtins.print, os.getcwd()
    sys.argv, sys.stdout, os._exit, builtins.print = ["quantize_x3.py", *args], out, leave, print_
    os.chdir(DIR)
    if os.path.exists("tmp.json"):
        os.remove("tmp.json")
    try:
        with open(PROGRAM, encoding="utf-8") as f:
            exec(compile(f.read(), PROGRAM, "exec"), {"__name__": "__main__", "__file__": os.path.join(DIR, "quantize_x3.py")})
        status.append(0)
    except Left:
        pass
    except SystemExit as e:
        status.append(e.code or 0)
    except Exception:
        status.append(1)
    finally:
        sys.argv, sys.stdout, os._exit, builtins.print = argv, stdout, exit_, printer
        res = None
        if os.path.exists("tmp.json"):
            with open("tmp.json", encoding="utf-8") as f:
                res = json.load(f)
        os.chdir(cwd)
    return status[0], out.getvalue(), res


mqtt_client(Client)
typer()
files()
