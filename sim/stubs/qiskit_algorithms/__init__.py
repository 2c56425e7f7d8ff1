class NumPyMinimumEigensolver:
    def __init__(self, *a, **k):
        raise NotImplementedError


class QAOA(NumPyMinimumEigensolver):
    pass
