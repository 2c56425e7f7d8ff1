class Sampler:
    def __init__(self, *a, **k):
        raise NotImplementedError


class BackendSampler(Sampler):
    pass
