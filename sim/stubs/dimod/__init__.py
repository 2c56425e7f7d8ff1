"""Stand-in for the part of dimod that the QUBO code uses.  Answers come from the simulation."""
from collections import namedtuple

import numpy as np

BINARY = "BINARY"
SPIN = "SPIN"


class Vartype:
    BINARY, SPIN = "BINARY", "SPIN"


class BinaryQuadraticModel:
    def __init__(self, *args, vartype=None):
        args = list(args)
        if vartype is None:
            vartype = args.pop()
        linear, quadratic, offset = (args + [{}, {}, 0.0][len(args):])[:3]
        if vartype not in (BINARY, "BINARY"):
            raise TypeError("stand-in handles binary variables only")
        self.vartype = vartype
        self.linear, self.quadratic, self.offset = {}, {}, float(offset)
        for v, b in dict(linear).items():
            self.add_linear(v, b)
        for (u, v), b in (quadratic.items() if hasattr(quadratic, "items") else quadratic):
            if u == v:
                self.add_linear(u, b)
            else:
                self.add_quadratic(u, v, b)

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        return cls({}, Q, offset, BINARY)

    def add_linear(self, v, b):
        self.linear[v] = self.linear.get(v, 0.0) + float(b)

    add_variable = add_linear

    def add_quadratic(self, u, v, b):
        self.linear.setdefault(u, 0.0)
        self.linear.setdefault(v, 0.0)
        k = (v, u) if (v, u) in self.quadratic else (u, v)
        self.quadratic[k] = self.quadratic.get(k, 0.0) + float(b)

    add_interaction = add_quadratic

    @property
    def variables(self):
        return list(self.linear)

    @property
    def num_variables(self):
        return len(self.linear)

    def __len__(self):
        return len(self.linear)

    def energy(self, sample):
        if not hasattr(sample, "keys"):
            sample = dict(zip(self.variables, sample))
        e = self.offset
        for v, b in self.linear.items():
            e += b * sample[v]
        for (u, v), b in self.quadratic.items():
            e += b * sample[u] * sample[v]
        return e


BQM = BinaryQuadraticModel
Sample = namedtuple("Sample", ["sample", "energy", "num_occurrences"])


class SampleSet:
    def __init__(self, variables, samples, energies):
        self.variables = list(variables)
        samples = np.array(samples, dtype=np.int8).reshape(-1, len(self.variables))
        try:                                   # the library sorts the labels when it can
            order = sorted(range(len(self.variables)), key=lambda i: self.variables[i])
            self.variables = [self.variables[i] for i in order]
            samples = samples[:, order]
        except TypeError:
            pass
        self.record = np.rec.array(list(zip(samples, energies, [1] * len(samples))),
                                   dtype=[("sample", np.int8, (len(self.variables),)), ("energy", float),
                                          ("num_occurrences", int)])
        self.vartype = BINARY

    def data(self, fields=None, sorted_by="energy", **_):
        order = np.argsort(self.record.energy, kind="stable") if sorted_by == "energy" else range(len(self.record))
        for i in order:
            r = self.record[i]
            yield Sample({v: int(x) for v, x in zip(self.variables, r.sample)}, float(r.energy), int(r.num_occurrences))

    def samples(self, n=None, sorted_by="energy"):
        for i, d in enumerate(self.data(sorted_by=sorted_by)):
            if n is not None and i >= n:
                return
            yield d.sample

    def __iter__(self):
        return self.samples()

    def __len__(self):
        return len(self.record)

    @property
    def first(self):
        return next(self.data())

    def lowest(self, *a, **k):
        m = self.record.energy.min()
        keep = [i for i in range(len(self.record)) if self.record.energy[i] == m]
        return SampleSet(self.variables, self.record.sample[keep], self.record.energy[keep])


answer = None       # set by the simulation: (sampler name, bqm, num_reads) -> list of rows


class _Sampler:
    def __init__(self, *a, **k):
        self.parameters, self.properties = {}, {}

    def sample(self, bqm, num_reads=None, **k):
        rows = answer(type(self).__name__, bqm, num_reads or 1)
        return SampleSet(bqm.variables, rows, [bqm.energy(r) for r in rows])

    def sample_qubo(self, Q, **k):
        return self.sample(BinaryQuadraticModel.from_qubo(Q), **k)

    def sample_ising(self, h, J, **k):
        raise NotImplementedError


class ExactSolver(_Sampler):
    def sample(self, bqm, **k):
        n = len(bqm)
        rows = answer("ExactSolver", bqm, None)
        if rows is None:
            if n > 12:
                raise MemoryError("too many variables for the exact solver")
            rows = [[(m >> i) & 1 for i in range(n)] for m in range(1 << n)]
        return SampleSet(bqm.variables, rows, [bqm.energy(r) for r in rows])
