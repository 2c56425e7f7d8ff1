"""Stand-in for simanneal 0.5: the same algorithm, randomness from the `random` module."""
import abc
import copy
import math
import random
import time


class Annealer:
    __metaclass__ = abc.ABCMeta
    Tmax = 25000.0
    Tmin = 2.5
    steps = 50000
    updates = 100
    copy_strategy = "deepcopy"
    user_exit = False
    save_state_on_exit = False
    best_state = None
    best_energy = None
    start = None

    def __init__(self, initial_state=None, load_state=None):
        if initial_state is not None:
            self.state = self.copy_state(initial_state)
        else:
            raise ValueError("No valid values supplied for neither initial_state nor load_state")

    def move(self):
        raise NotImplementedError

    def energy(self):
        raise NotImplementedError

    def set_schedule(self, schedule):
        self.Tmax, self.Tmin = schedule["tmax"], schedule["tmin"]
        self.steps, self.updates = int(schedule["steps"]), int(schedule["updates"])

    def copy_state(self, state):
        if self.copy_strategy == "deepcopy":
            return copy.deepcopy(state)
        if self.copy_strategy == "slice":
            return state[:]
        if self.copy_strategy == "method":
            return state.copy()
        raise RuntimeError(f'No implementation found for the self.copy_strategy "{self.copy_strategy}"')

    def update(self, *args, **kwargs):
        self.default_update(*args, **kwargs)

    def default_update(self, step, T, E, acceptance, improvement):
        pass

    def set_user_exit(self, signum, frame):
        self.user_exit = True

    def anneal(self):
        step = 0
        self.start = time.time()
        if self.Tmin <= 0.0:
            raise Exception('Exponential cooling requires a minimum "\n                "temperature greater than zero.')
        Tfactor = -math.log(self.Tmax / self.Tmin)
        T = self.Tmax
        E = self.energy()
        prevState = self.copy_state(self.state)
        prevEnergy = E
        self.best_state = self.copy_state(self.state)
        self.best_energy = E
        trials = accepts = improves = 0
        if self.updates > 0:
            updateWavelength = self.steps / self.updates
            self.update(step, T, E, None, None)
        while step < self.steps and not self.user_exit:
            step += 1
            T = self.Tmax * math.exp(Tfactor * step / self.steps)
            dE = self.move()
            if dE is None:
                E = self.energy()
                dE = E - prevEnergy
            else:
                E += dE
            trials += 1
            if dE > 0.0 and math.exp(-dE / T) < random.random():
                self.state = self.copy_state(prevState)
                E = prevEnergy
            else:
                accepts += 1
                if dE < 0.0:
                    improves += 1
                prevState = self.copy_state(self.state)
                prevEnergy = E
                if E < self.best_energy:
                    self.best_state = self.copy_state(self.state)
                    self.best_energy = E
            if self.updates > 1 and updateWavelength:
                if (step // updateWavelength) > ((step - 1) // updateWavelength):
                    self.update(step, T, E, accepts / trials, improves / trials)
                    trials = accepts = improves = 0
        self.state = self.copy_state(self.best_state)
        return self.best_state, self.best_energy
