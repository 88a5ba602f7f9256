"""A likelihood with analytic NLL behind the abstract hypothesis-testing interface."""
import numpy as np

from spey.base.hypotest_base import HypothesisTestingBase


class Parabola:
    """NLL ``base + ((mu - m) / s)**2 / 2 + c * (mu - m)**3`` (``c`` small keeps one minimum on the tested range)."""

    def __init__(self, m, s=1.0, base=0.0, c=0.0):
        self.m, self.s, self.base, self.c = m, s, base, c

    def __call__(self, mu):
        d = mu - self.m
        return self.base + 0.5 * (d / self.s) ** 2 + self.c * d**3

    def best(self, negative):
        m = self.m if negative else max(self.m, 0.0)
        return m, self(m)


class Stub(HypothesisTestingBase):
    """
    Every quantity is looked up in user-given functions; the arguments of all calls are recorded.

    ``obs[key]`` and ``asi[key]`` give the NLL curve of the (observed, Asimov) data, where ``key`` is the
    expectation type (value string), for ``asi`` combined with the test statistic.
    ``curve_of_data`` maps explicitly passed data to a curve.
    """

    def __init__(self, obs, asi=None, curve_of_data=None, toys=None, available=("asymptotic", "toy", "chi_square"), alive=True, ntoys=1000):
        super().__init__(ntoys=ntoys)
        self.obs, self.asi, self.curve_of_data, self.toys = obs, asi, curve_of_data, toys
        self.available, self.alive = available, alive
        self.calls = []

    is_alive = property(lambda self: self.alive)
    is_asymptotic_calculator_available = property(lambda self: "asymptotic" in self.available)
    is_toy_calculator_available = property(lambda self: "toy" in self.available)
    is_chi_square_calculator_available = property(lambda self: "chi_square" in self.available)

    def _curve(self, expected, data=None):
        if data is not None:
            return self.curve_of_data(data)
        return self.obs(_key(expected))

    def likelihood(self, poi_test=1.0, expected="observed", return_nll=True, data=None, return_parameters=False, **kwargs):
        self.calls.append(("likelihood", _key(expected), kwargs))
        if isinstance(poi_test, dict):
            (poi_test,) = poi_test.values()
        nll = self._curve(expected, data)(float(poi_test))
        return nll if return_nll else np.exp(-nll)

    def maximize_likelihood(self, return_nll=True, expected="observed", allow_negative_signal=True, data=None, poi_indices=None, **kwargs):
        self.calls.append(("maximize", _key(expected), allow_negative_signal, kwargs))
        m, nll = self._curve(expected, data).best(allow_negative_signal)
        return m, (nll if return_nll else np.exp(-nll))

    def asimov_likelihood(self, poi_test=1.0, expected="observed", return_nll=True, test_statistics="qtilde", **kwargs):
        self.calls.append(("asimov", _key(expected), _ts(test_statistics), kwargs))
        nll = self.asi(_key(expected), _ts(test_statistics))(float(poi_test))
        return nll if return_nll else np.exp(-nll)

    def maximize_asimov_likelihood(self, return_nll=True, expected="observed", test_statistics="qtilde", poi_indices=None, **kwargs):
        self.calls.append(("maximize-asimov", _key(expected), _ts(test_statistics), kwargs))
        m, nll = self.asi(_key(expected), _ts(test_statistics)).best(_ts(test_statistics) == "q")
        return m, (nll if return_nll else np.exp(-nll))

    def fixed_poi_sampler(self, poi_test, size=None, expected="observed", **kwargs):
        self.calls.append(("sampler", poi_test, size, _key(expected), kwargs))
        return self.toys(poi_test, size, _key(expected))


def _key(expected):
    return str(expected)


def _ts(name):
    return {"qmu": "q", "qmutilde": "qtilde"}.get(name, name)
