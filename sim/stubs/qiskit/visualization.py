import os  # noqa: F401  (the star import of the real module brings it in as well)
