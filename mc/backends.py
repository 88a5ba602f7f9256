"""Small backends written against the abstract interface, for the checks that need a scripted one."""
import numpy as np
from scipy.special import gammaln

from spey.base.backend_base import BackendBase
from spey.base.model_config import ModelConfig


class Counting(BackendBase):
    """
    Poisson bins with expectation ``mu * s + b (1 + e * theta)`` and (with ``e``) a unit Gaussian constraint on ``theta``.

    Only the two compulsory methods are implemented; everything further is added by subclasses.
    """

    name = "mc.counting"
    version = "1.0.0"
    author = "check"
    spey_requires = ">=0.0.1"

    def __init__(self, s, b, n, e=None):
        self.e = e
        self.s, self.b, self.n = (np.array(x, float) for x in (s, b, n))

    @property
    def is_alive(self):
        return bool(np.any(self.s > 0))

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        low = -float(np.min(self.b[self.s > 0] / self.s[self.s > 0])) if self.is_alive else -1.0
        extra = 0 if self.e is None else 1
        return ModelConfig(0, low, [1.0] + [0.0] * extra, [(low if allow_negative_signal else 0.0, poi_upper_bound)] + [(-5.0, 5.0)] * extra,
                           parameter_names=["mu", "theta"][:1 + extra])

    def data(self, expected, data):
        if data is not None:
            return np.asarray(data, float)
        return self.b if str(expected) == "apriori" else self.n

    def lam(self, p):
        t = 0.0 if self.e is None else self.e * p[1]
        return np.clip(p[0] * self.s + self.b * (1 + t), 1e-9, None)

    def get_logpdf_func(self, expected="observed", data=None):
        d = self.data(expected, data)

        def logpdf(p):
            lam = self.lam(p)
            out = float(np.sum(d * np.log(lam) - lam - gammaln(d + 1)))
            if self.e is not None:
                out += -0.5 * float(p[1]) ** 2 - 0.5 * np.log(2 * np.pi)
            return out
        return logpdf


def objective_with_gradient(self, expected="observed", data=None, do_grad=True):
    """``get_objective_function`` of :class:`Counting` with the analytic gradient."""
    logpdf = self.get_logpdf_func(expected, data)
    if not do_grad:
        return lambda p: -logpdf(p)
    d = self.data(expected, data)

    def func(p):
        r = 1 - d / self.lam(p)
        g = [np.sum(r * self.s)]
        if self.e is not None:
            g.append(np.sum(r * self.b * self.e) + p[1])
        return -logpdf(p), np.array(g)
    return func


def hessian(self, expected="observed", data=None):
    d = self.data(expected, data)

    def func(p):
        w = -d / self.lam(p) ** 2
        if self.e is None:
            return np.array([[np.sum(w * self.s * self.s)]])
        t = self.b * self.e
        return np.array([[np.sum(w * self.s * self.s), np.sum(w * self.s * t)], [np.sum(w * self.s * t), np.sum(w * t * t) - 1.0]])
    return func


def expected_data(self, pars):
    return list(self.lam(pars))
