import dimod


class DWaveSampler(dimod._Sampler):
    pass


class LeapHybridSampler(dimod._Sampler):
    pass


class EmbeddingComposite(dimod._Sampler):
    def __init__(self, child=None, **k):
        super().__init__()
        self.child = child
