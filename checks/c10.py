"""C10: the mode-assignment generalized Clifford sampler follows the exact lossless law."""
from . import c08
from .c08 import ASSUMPTIONS


def scenarios(tier):
    return c08.scenarios(tier, "magcc")
