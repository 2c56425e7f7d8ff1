class COBYLA:
    def __init__(self, *a, **k):
        raise NotImplementedError


class SPSA(COBYLA):
    pass
