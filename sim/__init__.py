from . import env  # noqa: F401  (the seams are in place before anything imports pyNTM)
