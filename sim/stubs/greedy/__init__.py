import dimod


class SteepestDescentSolver(dimod._Sampler):
    pass


SteepestDescentSampler = SteepestDescentSolver
