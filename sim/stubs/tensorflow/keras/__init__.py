from . import activations, layers, models  # noqa: F401

Model = models.Model
Sequential = models.Sequential
Input = layers.Input
