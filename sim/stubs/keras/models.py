from tensorflow.keras.models import *  # noqa: F401,F403
from tensorflow.keras.models import load_model  # noqa: F401
