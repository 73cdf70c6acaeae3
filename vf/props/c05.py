"""C05: SIMD floating-point instructions."""
from . import c04
from .. import numlib as L

ID = 'C05'
RULE = L.RULE
ASSUME = c04.ASSUME


def tests(tier):
    return c04.make('vfloat', ((500, 8000), (14000, 600000), (1200, 40000)))
