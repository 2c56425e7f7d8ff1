from . import QuadraticProgram  # noqa: F401
