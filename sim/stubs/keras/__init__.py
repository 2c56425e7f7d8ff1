from tensorflow.keras import *  # noqa: F401,F403
from tensorflow.keras import activations, layers, models  # noqa: F401
