"""Records the polynomial fits and random draws made by the code under test."""
import contextlib

import numpy as np

_FITS = {
    "poly": (np.polynomial.polynomial, "polyfit"),
    "legendre": (np.polynomial.legendre, "legfit"),
    "chebyshev": (np.polynomial.chebyshev, "chebfit"),
}


class Stop(BaseException):
    """The budget of observed calls is exhausted."""


class Log:
    def __init__(self, limit=None, keep=True):
        self.fits = []
        self.n_fits = 0
        self.n_choice = 0
        self.limit = limit
        self.keep = keep

    def check(self):
        if self.limit is not None and (
            self.n_fits > self.limit or self.n_choice > 40 * self.limit
        ):
            raise Stop()


@contextlib.contextmanager
def fits(limit=None, keep=True):
    log = Log(limit, keep)
    saved = {}

    def wrap(kind, f):
        def g(x, y, deg, *a, **k):
            out = f(x, y, deg, *a, **k)
            log.n_fits += 1
            if log.keep:
                log.fits.append(
                    (kind, np.array(x, float), np.array(y, float), deg, np.array(out))
                )
            log.check()
            return out

        return g

    choice = np.random.choice

    def counted(*a, **k):
        log.n_choice += 1
        log.check()
        return choice(*a, **k)

    for kind, (mod, name) in _FITS.items():
        saved[kind] = getattr(mod, name)
        setattr(mod, name, wrap(kind, saved[kind]))
    np.random.choice = counted
    try:
        yield log
    finally:
        np.random.choice = choice
        for kind, (mod, name) in _FITS.items():
            setattr(mod, name, saved[kind])
