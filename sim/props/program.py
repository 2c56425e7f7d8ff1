"""The demonstration program that quantizes a model with the accelerator (demo/x3_fpga/quantize_x3.py), whole (P01).

Its process is simulated: the program runs as __main__ on the main thread, its other threads are simulated threads, the process ends
when every thread that is no daemon has ended or when os._exit is called, and standard output is a terminal (written line by line)
or a pipe (written when its buffer is full, flushed, or at a regular exit; what is in the buffer at os._exit is lost).

Real code: the program, demo_lib, itcl_quantizer, itcl_quantization, itcl_inference_engine (also inside the device).
"""
import builtins
import json
import os
import random
import re
import shutil
import sys

import numpy as np

from .. import core, fs
from . import qbase, remote
from .qbase import STREAMS, Source, canon
from .remote import TOPICS, World

from itcl_quantizer.config.models import keras as models  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PROGRAM = os.path.join(REPO, "demo/x3_fpga/quantize_x3.py")
SIBLINGS = [f[:-3] for f in sorted(os.listdir(os.path.dirname(PROGRAM))) if f.endswith(".py") and f != os.path.basename(PROGRAM)]
MESSAGE = ("drop_reply", "delay_reply", "stall_device", "drop_request", "damage_reply", "damage_first", "dup_reply")
EVENTS = ("cut", "cut", "down", "crash", "skew", "garbage", "replay")
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")
OLD = b'{"the model": "of the run before"}'


class ProcessExit(core.SimCrash):
    """os._exit: nothing is flushed, and nothing that handlers on the way out do has an effect."""


class Stdout:
    encoding, errors, closed = "utf-8", "strict", False

    def __init__(self, terminal):
        self.terminal = terminal
        self.buffer_, self.delivered = "", ""

    def write(self, s):
        if core.ACTIVE is not None and core.ACTIVE.frozen:
            return len(s)
        self.buffer_ += s
        if self.terminal:
            k = self.buffer_.rfind("\n") + 1
            self.delivered, self.buffer_ = self.delivered + self.buffer_[:k], self.buffer_[k:]
        elif len(self.buffer_) > 8192:
            self.flush()
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        self.delivered, self.buffer_ = self.delivered + self.buffer_, ""

    def isatty(self):
        return self.terminal

    def writable(self):
        return True

    def fileno(self):
        raise OSError("no descriptor")


def mse(a, b):
    return float(np.mean(np.square(np.asarray(a) - np.asarray(b))))


class Files:
    """What the program finds beside itself."""

    def __init__(self, ch):
        self.root = os.getcwd()
        for n in SIBLINGS:
            shutil.copy(os.path.join(os.path.dirname(PROGRAM), n + ".py"), self.root)
        self.src = {}
        for k, (d, name) in enumerate((("create_model", "model_4l.h5"), ("larger_model", "model.h5"))):
            s = Source(ch, tag=k, lstm=False, rows=(2, 7))
            y = np.asarray(s.model(s.x), dtype=ch.pick((np.float64, np.float32)))
            y = y + np.asarray(ch.pick((0.0, 0.125)), dtype=y.dtype)
            os.mkdir(d)
            with open(os.path.join(d, name), "w", encoding="utf-8") as f:
                f.write(s.text)
            np.save(os.path.join(d, "x_train.npy"), s.x)
            np.save(os.path.join(d, "y_train.npy"), y)
            if k == 0:
                other = ch.draw(2) == 1          # the data of the plot are others than those of the calibration
                np.save(os.path.join(d, "x.npy"), s.x[::-1] * 0.75 if other else s.x)
                np.save(os.path.join(d, "y.npy"), y[::-1] - 0.5 if other else y)
            self.src["small" if k == 0 else "large"] = (s, y)


class Run:
    """One start of the program in a world of its own."""

    def __init__(self, ctx, files, args, seed, clean, cfg=None, terminal=True, disk=None):
        self.ctx, self.files, self.args, self.seed = ctx, files, args, seed
        self.kind = "loss" if args["--accelerator"] == "fpga-loss" else "infer"
        self.src, self.y = files.src[args["--model"]]
        self.batch = int(args["--batch"])
        self.x, self.y = self.src.x[:self.batch], self.y[:self.batch]
        remote.FAULTS["P01"] = (MESSAGE if self.kind == "infer" else MESSAGE[:4], EVENTS if self.kind == "infer" else EVENTS[:5])
        w = self.w = World(ctx, "P01", self.kind, clean)
        w.sim.max_steps = 30_000_000
        w.sim.max_time = 20_000.0
        w.dev.answer, w.dev.loss = self.answer, self.loss
        if self.kind == "loss":
            w.dev.topics = w.dev.topics + [TOPICS.REPR_DATASET]
        self.dataset = None
        self.datasets = []
        self.bad_dataset = None
        self.handled = set()
        self.losses = []
        real = w.dev.handle

        def handle(topic, data, pub=-1):
            self.handled.add(pub)
            if topic == TOPICS.REPR_DATASET:
                self.learn(data)
            elif self.kind == "loss" and topic == TOPICS.MODEL_UPDATE and self.dataset is None:
                w.sim.count("model_without_dataset")
            else:
                real(topic, data, pub)
        w.dev.handle = handle
        crash = w.dev.crash

        def lose(dt):
            self.dataset = None
            crash(dt)
        w.dev.crash = lose
        self.out = Stdout(terminal)
        self.status, self.exc = None, None
        self.disk, self.cfg = disk, cfg
        self.end_of_main = None

    # ---- the device
    def learn(self, data):
        try:
            d = json.loads(data.decode("utf-8"))
            x = np.array(d["input"]["tensor"], dtype=float).reshape(d["input"]["shape"])
            y = np.array(d["output"]["tensor"], dtype=float).reshape(d["output"]["shape"])
        except Exception as e:  # noqa: BLE001
            self.bad_dataset = f"does not follow the format: {e!r}"
            return
        self.dataset = (x, y)
        self.datasets.append((x, y))

    def net(self, schema, x):
        return np.asarray(qbase.SequentialNetwork(schema).infer(x), dtype=float)

    def answer(self, model, req):
        x = np.array(req["tensor"], dtype=self.x.dtype).reshape((req["shape"][0],) + self.x.shape[1:])
        y = self.net(model, x)
        y = y.reshape(len(y), -1)
        return {"id": req["id"], "shape": list(y.shape), "tensor": y.ravel().tolist()}

    def loss(self, model):
        x, y = self.dataset
        v = mse(self.net(model, x.reshape((len(x),) + self.x.shape[1:])).reshape(y.shape), y)
        self.losses.append(v)
        return v

    # ---- the process
    def main(self):
        STREAMS.reset()
        STREAMS.by[core.ACTIVE.cur.id] = random.Random(self.seed)
        np.random.seed(self.seed % (1 << 31))
        argv = ["quantize_x3.py"]
        for k, v in self.args.items():
            argv += [f"{k}={v}"] if self.ctx.ch.draw(2) else [k, v]
        g = {"__name__": "__main__", "__file__": os.path.join(self.files.root, "quantize_x3.py"), "__builtins__": builtins}
        old = sys.argv
        sys.argv = argv
        sys.path.insert(0, self.files.root)
        try:
            exec(self.code, g)  # noqa: S102
            self.status = 0
        except core.SimCrash:
            if not self.killed:
                raise
        except SystemExit as e:
            self.status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except (core.SimAbort, core.Violation, core.HarnessError):
            raise
        except BaseException as e:  # noqa: BLE001
            self.status, self.exc = 1, e
        finally:
            sys.argv = old
            sys.path.remove(self.files.root)
            for n in SIBLINGS:
                sys.modules.pop(n, None)
            self.end_of_main = self.w.sim.now

    def leave(self, code):
        """os._exit"""
        sim = self.w.sim
        if core.ACTIVE is not sim or not sim.is_sim_thread():
            self.leaver(code)
        if not self.killed:
            self.killed, self.status = True, code
            sim.frozen = True
            self.out.buffer_ = ""
            for th in sim.threads:
                th.daemon = True
        raise ProcessExit

    killed = False

    def go(self):
        """Runs the process to its end."""
        with open(PROGRAM, encoding="utf-8") as f:
            self.code = compile(f.read(), PROGRAM, "exec")
        sim = self.w.sim

        th = sim.spawn(self.main, "main")
        stdout, printer, cfg = sys.stdout, builtins.print, models.QuantizerCfg
        self.leaver = os._exit
        sys.stdout, builtins.print, os._exit = self.out, qbase._real_print, self.leave
        if self.cfg:
            models.QuantizerCfg = self.cfg
        try:
            if self.disk:
                self.fs = fs.FaultFS(sim, self.files.root, self.disk)
                with fs.mounted(self.fs):
                    sim.run()
            else:
                sim.run()
        finally:
            sys.stdout, builtins.print, os._exit, models.QuantizerCfg = stdout, printer, self.leaver, cfg
        if th.exc is not None and not isinstance(th.exc, core.SimAbort):
            raise th.exc
        sim.frozen = False
        if sim.hang or sim.deadlock:
            if self.end_of_main is None:
                self.ctx.fail("never-ends", f"{self.what()} never ended: {sim.hang or 'every thread is blocked'}")
            self.ctx.fail("never-ends", f"{self.what()} was over after {self.end_of_main:.1f} s ({self.outcome()}), but its process never ends: "
                                        "a thread that is no daemon runs on")
        if not self.killed:
            self.out.flush()

    def outcome(self):
        return f"{type(self.exc).__name__}: {self.exc}".replace(self.files.root + "/", "") if self.exc is not None else f"status {self.status}"

    def what(self):
        return "quantize_x3 " + " ".join(f"{k} {v}" for k, v in self.args.items())

    def model(self):
        """(state of the file, description)"""
        try:
            with open(os.path.join(self.files.root, "tmp.json"), "rb") as f:
                b = f.read()
        except FileNotFoundError:
            return "absent", None
        if b == OLD:
            return "old", None
        try:
            d = json.loads(b)
            qbase.SequentialNetwork(json.loads(b))
        except Exception as e:  # noqa: BLE001
            self.ctx.fail("torn", f"{self.what()} ({self.outcome()}) left {len(b)} bytes that are no model ({type(e).__name__})")
        return "new", d

    def printed(self):
        return f"{self.out.delivered.replace(self.files.root + '/', '')[-200:]!r} on a {'terminal' if self.out.terminal else 'pipe'}"

    def reported(self, value):
        """Did it print this loss?"""
        return any(abs(float(n) - value) <= 1e-9 * max(1.0, abs(value)) or (value != value and n == "nan")
                   for n in NUMBER.findall(self.out.delivered))


def with_equalizer(retries):
    """The configuration of a program that improves the network after quantizing it."""
    class Cfg(models.QuantizerCfg):
        param_equalizer: models.ParamEqualizerCfg | None = models.ParamEqualizerCfg(max_retries=retries)
    return Cfg


def p01(ctx):
    ch = ctx.ch
    files = Files(ch)
    which = ch.pick(("small", "large"))
    src, y = files.src[which]
    batch = ch.pick((1, 2, 3, len(src.x), 5000))
    accelerator = ch.pick(("fpga", "fpga", "fpga-loss", "fpga-loss", "cpu"))
    seed = ch.subseed()
    retries = ch.pick((None, None, 0, 1, 3))
    cfg = None if retries is None else with_equalizer(retries)
    old = ch.draw(2)
    target = os.path.join(files.root, "tmp.json")

    def prepare():
        if os.path.lexists(target):
            os.remove(target)
        if old:
            with open(target, "wb") as f:
                f.write(OLD)

    def start(acc, clean, **k):
        prepare()
        r = Run(ctx, files, {"--accelerator": acc, "--model": which, "--batch": str(batch)}, seed, clean, cfg, **k)
        return r

    def must_succeed(r, ref=None):
        r.go()
        if r.status != 0:
            r.src.x0 = r.x
            if r.src.dead():
                return None
            ctx.fail("no-success", f"{r.what()} on a fault-free broker ended with {r.outcome()}")
        state, d = r.model()
        if state != "new":
            ctx.fail("no-model", f"{r.what()} ended with status 0 and left {state} at tmp.json")
        want = mse(r.net(json.loads(json.dumps(d)), r.x).reshape(r.y.shape), r.y)
        if not r.reported(want):
            ctx.fail("not-reported", f"{r.what()} ended with status 0 and printed {r.printed()}, the loss of its model is {want!r}")
        if ref is not None and canon(d) != ref:
            ctx.fail("other-model", f"{r.what()} gives another model than on the CPU")
        return canon(d)

    info = {"accelerator": accelerator, "model": which, "batch": batch, "rows": len(src.x), "retries": retries, "old_file": bool(old)}
    ref = must_succeed(start("cpu", True, terminal=ch.draw(2) == 1))
    r = None
    if ref is not None:
        if accelerator != "cpu":
            c = start(accelerator, True, terminal=ch.draw(2) == 1)
            must_succeed(c, ref)
            if c.kind == "loss":
                if c.bad_dataset or len(c.datasets) != 1:
                    ctx.fail("dataset", f"the data set {c.bad_dataset or f'was sent {len(c.datasets)} times'}")
                for got, want, name in zip(c.datasets[0], (c.x, c.y), ("inputs", "outputs")):
                    if got.shape[0] != len(want) or not np.array_equal(got.ravel(), np.asarray(want, dtype=float).ravel()):
                        ctx.fail("dataset", f"the {name} of the data set sent are not those of the program")
        # ---- and with faults
        disk = None
        if ch.chance(0.35):
            kinds = ("enospc", "eio_write", "eio_read", "eio_fsync", "eio_rename", "eio_open", "eio_close", "short_write", "short_read")
            disk = {ch.pick(kinds): ch.pick((0.05, 0.3, 1.0)) for _ in range(ch.between(1, 2))}
        r = start(accelerator, False, terminal=ch.draw(2) == 1, disk=disk)
        w = r.w
        if ch.chance(0.1):
            w.broker.go_down(ch.pick((0.5, 30.0)))
        horizon = ch.pick((0.01, 0.1, 1.0, 5.0))
        w.schedule_events(horizon)
        if ch.chance(0.15):     # for good
            gone = ch.pick((w.dev.vanish, w.broker.vanish))
            w.sim.at(ch.draw(1000) / 1000 * horizon, gone, "gone")
        r.go()
        state, d = r.model()
        ctx.count(f"ended_{'well' if r.status == 0 else 'badly'}")
        ctx.count("file_" + state)
        info["outcome"] = r.outcome()
        if state == "absent" and old:
            ctx.fail("lost", f"{r.what()} ({r.outcome()}) removed the model that was there")
        if r.status == 0:
            if state != "new":
                ctx.fail("no-model", f"{r.what()} ended with status 0 and left {state} at tmp.json")
            values = [mse(r.net(json.loads(json.dumps(d)), r.x).reshape(r.y.shape), r.y)]
            lost = [k for k, p in enumerate(w.broker.published) if p[1] == TOPICS.MODEL_UPDATE and k not in r.handled]
            if not lost or accelerator == "cpu":
                if canon(d) != ref:
                    ctx.fail("other-model", f"{r.what()} ended with status 0 and another model than without faults")
                if not r.reported(values[0]):
                    ctx.fail("not-reported", f"{r.what()} ended with status 0 and printed {r.printed()}, the loss of its model is {values[0]!r}")
        elif not w.sim.counts and not (disk and r.fs.errors):
            ctx.fail("no-success", f"{r.what()} ended with {r.outcome()}, and nothing went wrong")
    else:
        ctx.count("degenerate_model")
    last = r.w if r is not None else None
    ctx.sample = {**info, **({"faults": last.faults, "events": dict(last.sim.counts), "simulated_s": round(last.sim.now, 3)} if last else {})}
    ctx.nontrivial = bool(last is not None and last.sim.counts)
    ctx.evals = 1 + (ref is not None) + (accelerator != "cpu")
    ctx.sig = [src.text, src.x.tolist(), sorted((k, str(v)) for k, v in info.items()), sorted(last.sim.counts.items()) if last else None]


RUN = {"P01": p01}
