import dimod


class SimulatedAnnealingSampler(dimod._Sampler):
    pass


Neal = SimulatedAnnealingSampler
