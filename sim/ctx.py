"""What one simulated run reports."""
from __future__ import annotations

import os
import pickle
import random

from .core import HarnessError, Sim, Violation


class Ctx:
    def __init__(self, ch, prop, tier="quick"):
        self.ch = ch
        self.prop = prop
        self.tier = tier
        self.sims = []
        self.sample = {}            # human-readable description of the run
        self.sig = []               # what distinguishes this run from others
        self.nontrivial = False
        self.known_hits = {}        # class -> count
        self.extra_counts = {}
        self.evals = 1              # executions inside this run (crash points etc.)
        self.known_classes = set()

    def sim(self, **k):
        s = Sim(self.ch, **k)
        self.sims.append(s)
        return s

    def isolated(self, fn):
        """The result of fn in a process of its own (a fork of this one): what it leaves behind in modules and classes is gone
        afterwards, and nothing that happens here later reaches it.  Not to be called inside a simulation."""
        from . import runner
        seed = self.ch.subseed()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                runner.limit_cpu()
                self.ch.replay, self.ch.rng = None, random.Random(seed)
                try:
                    out = (None, fn())
                except Violation as v:
                    out = (("violation", v.sig, v.msg), None)
                except BaseException as e:
                    if runner.raised_by_repo(e):
                        out = (("violation", "raises", f"{type(e).__name__} out of the code under test, from {runner.place(e)}"), None)
                    else:
                        out = (("error", type(e).__name__, str(e)), None)
                data = pickle.dumps(out)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise HarnessError("an isolated run died")
        bad, value = pickle.loads(data)
        if bad is not None:
            if bad[0] == "violation":
                raise Violation(bad[1], bad[2])
            raise HarnessError(f"isolated run: {bad}")
        return value

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def known(self, cls, msg):
        """A history of a listed known finding: recorded, not raised (unless it is not listed)."""
        if cls not in self.known_classes:
            raise Violation("unlisted:" + cls, msg)
        self.known_hits[cls] = self.known_hits.get(cls, 0) + 1

    def count(self, k, n=1):
        self.extra_counts[k] = self.extra_counts.get(k, 0) + n

    def merged(self, what):
        d = dict(self.extra_counts) if what == "counts" else {}
        for s in self.sims:
            for k, v in getattr(s, what).items():
                d[k] = d.get(k, 0) + v
        return d
