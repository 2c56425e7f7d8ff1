class QuantumCircuit:
    def __init__(self, *a, **k):
        raise NotImplementedError


def transpile(*a, **k):
    raise NotImplementedError
