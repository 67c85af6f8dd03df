"""C03: every link of a discontinuous piecewise layer is, on each segment, the
Lagrange interpolant of that segment's own n coefficients."""
from . import c01

BOUNDS = c01.BOUNDS + " Orders include n=1."
OUTSIDE = c01.OUTSIDE


def jobs(tier):
    return c01.jobs(tier, pre="d")
