"""Queries of the public interface, as functions of a model returning plain numbers."""
import numpy as np


def flat(x):
    """Nested result -> flat list of floats (structure is kept as markers)."""
    out = []

    def rec(v):
        if isinstance(v, dict):
            out.append(("d", len(v)))
            for k in v:
                out.append(("k", str(k)))
                rec(v[k])
        elif isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim):
            out.append(("l", len(v)))
            for y in v:
                rec(y)
        elif isinstance(v, (bool, np.bool_, str)) or v is None:
            out.append(("v", v))
        else:
            out.append(float(v))
    rec(x)
    return out


def same(a, b, rtol=1e-7, atol=1e-9):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                return False
        elif np.isnan(x) or np.isnan(y):
            if np.isnan(x) != np.isnan(y):
                return False
        elif np.isinf(x) or np.isinf(y):
            if x != y:
                return False
        elif abs(x - y) > atol + rtol * abs(y):
            return False
    return True


# every entry: name -> function(model, expected)
BASIC = {
    "likelihood": lambda m, e: m.likelihood(0.7, expected=e),
    "likelihood0": lambda m, e: m.likelihood(0.0, expected=e, return_nll=False),
    "likelihood-pars": lambda m, e: m.likelihood(1.2, expected=e, return_parameters=True),
    "fit": lambda m, e: m.maximize_likelihood(expected=e),
    "fit-positive": lambda m, e: m.maximize_likelihood(expected=e, allow_negative_signal=False, return_nll=False),
    "asimov-data": lambda m, e: m.generate_asimov_data(expected=e),
    "asimov-data-q0": lambda m, e: m.generate_asimov_data(expected=e, test_statistic="q0"),
    "asimov-likelihood": lambda m, e: m.asimov_likelihood(0.6, expected=e),
    "asimov-likelihood-q0": lambda m, e: m.asimov_likelihood(0.6, expected=e, test_statistics="q0"),
    "asimov-fit": lambda m, e: m.maximize_asimov_likelihood(expected=e),
    "asimov-fit-q": lambda m, e: m.maximize_asimov_likelihood(expected=e, test_statistics="q"),
    "chi2": lambda m, e: m.chi2(1.3, expected=e),
    "chi2-list": lambda m, e: m.chi2([0.0, 0.5], expected=e, allow_negative_signal=True),
    "chi2-ref": lambda m, e: m.chi2(1.3, poi_test_denominator=0.0, expected=e),
    "pull": lambda m, e: m.pull(0.8, expected=e),
    "sigma_mu": lambda m, e: m.sigma_mu(0.9, expected=e),
    "significance": lambda m, e: m.significance(expected=e),
    "exclusion": lambda m, e: m.exclusion_confidence_level(1.1, expected=e)[-1:],
    "exclusion-q": lambda m, e: m.exclusion_confidence_level(1.1, expected=e, allow_negative_signal=True)[-1:],
    "exclusion-chi2": lambda m, e: m.exclusion_confidence_level(1.1, expected=e, calculator="chi_square")[-1:],
}
LIMITS = {
    "limit": lambda m, e: m.poi_upper_limit(expected=e),
    "limit-90": lambda m, e: m.poi_upper_limit(expected=e, confidence_level=0.9, low_init=None, hig_init=None),
    "chi2-interval": lambda m, e: m.chi2_test(expected=e),
    "chi2-right": lambda m, e: m.chi2_test(expected=e, limit_type="right", confidence_level=0.9),
}
