"""Random draws of scipy's distributions behind a seam: every normal variable can be made its mean."""

import contextlib

import numpy as np


class MeanState(np.random.RandomState):
    """A generator whose normal variables are their means."""

    def normal(self, loc=0.0, scale=1.0, size=None):
        return np.broadcast_to(np.asarray(loc, dtype=float), () if size is None else size) + 0.0

    def standard_normal(self, size=None):
        return np.zeros(() if size is None else size)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8):
        shape = () if size is None else tuple(np.atleast_1d(size))
        return np.broadcast_to(np.asarray(mean, dtype=float), shape + (len(mean),)) + 0.0


@contextlib.contextmanager
def means():
    """Draws of new frozen distributions are their means."""
    old = np.random.mtrand._rand
    np.random.mtrand._rand = MeanState(0)
    try:
        yield
    finally:
        np.random.mtrand._rand = old
