"""
A zoo of models of all default backends, each with an independent reference likelihood.

A spec is a JSON object ``{"pdf": name, "kw": {...}, "sig": name of a signal function (optional),
"cov": name of an uncertainty function (optional)}``. ``build`` makes the spey model, ``Ref`` evaluates the
documented probability model with plain numpy/scipy, sharing no code with spey.
"""
import copy
import math

import autograd.numpy as anp
import numpy as np
from scipy.special import gammaln

# ------------------------------------------------------------------ signal and covariance functions
# (also differentiable with autograd, which default backends require)
SIGNALS = {
    # name: (number of signal parameters, bounds, function of the signal parameters)
    "lin1": (1, [[-2.0, 3.0]], lambda t: anp.array([2.0, 1.0]) + t[0] * anp.array([0.5, -0.25])),
    "quad2": (2, [[-2.0, 2.0], [-3.0, 3.0]], lambda t: anp.array([1.5, 2.0]) + t[0] ** 2 * anp.array([0.5, 1.0]) + t[1] * anp.array([0.25, 0.5])),
    "const0": (0, [], lambda t: anp.array([1.0, 2.0])),
    "exp3": (1, [[-1.0, 1.0]], lambda t: anp.array([1.0, 2.0, 0.5]) * anp.exp(0.5 * t[0])),
    # signals of the contour finder
    "ell1": (1, None, lambda t: anp.array([12.0, 15.0]) * (1.0 + t[0])),
    "ell2": (2, None, lambda t: anp.array([8.0, 2.0, 1.0]) * (1.0 + t[0]) + anp.array([1.0, 6.0, -3.0]) * t[1]),
    "ell2b": (2, [[-1.5, 0.8], [-0.9, 4.0]], lambda t: anp.array([8.0, 2.0, 1.0]) * (1.0 + t[0]) + anp.array([1.0, 6.0, -3.0]) * t[1]),
    "ell2c": (2, [[-10.0, 0.1], [-0.3, 0.5]], lambda t: anp.array([8.0, 2.0, 1.0]) * (1.0 + t[0]) + anp.array([1.0, 6.0, -3.0]) * t[1]),
    "half2": (2, [[None, 0.6], [-0.7, None]], lambda t: anp.array([8.0, 2.0, 1.0]) * (1.0 + t[0]) + anp.array([1.0, 6.0, -3.0]) * t[1]),
    "ell3": (3, None, lambda t: anp.array([5.0, 4.0, 3.0]) + anp.array([2.0, 0.5, 0.2]) * t[0] + anp.array([0.1, 1.5, 0.3]) * t[1] + anp.array([-0.5, 0.2, 1.0]) * t[2]),
    "eft1": (1, [[-6.0, 6.0]], lambda t: anp.array([2.0, 1.0]) + t[0] * anp.array([0.4, 0.1]) + t[0] ** 2 * anp.array([1.5, 2.5])),
    "eft2": (2, [[-4.0, 4.0], [-4.0, 4.0]], lambda t: anp.array([2.0, 1.0, 3.0]) + t[0] ** 2 * anp.array([2.0, 0.5, 0.1]) + t[1] ** 2 * anp.array([0.2, 2.5, 0.5]) + t[0] * t[1] * anp.array([0.3, 0.2, 0.1])),
    "scaled2": (2, None, lambda t: anp.array([8.0, 2.0]) + 1e3 * t[0] * anp.array([1.0, 0.2]) + 1e-2 * t[1] * anp.array([0.1, 1.0])),
    "free1": (1, None, lambda t: anp.array([2.0, 3.0]) + 0.5 * anp.tanh(t[0]) * anp.array([1.0, -1.0])),
}
COVS = {
    "sig_mu": lambda p: anp.sqrt(anp.array([1.0, 2.0]) + 0.25 * p[0] ** 2),
    "cov_mu": lambda p: anp.array([[2.0, 0.5], [0.5, 1.0]]) + 0.3 * p[0] ** 2 * anp.array([[1.0, 0.2], [0.2, 1.0]]),
    "cov_const": lambda p: anp.array([[2.0, 0.5], [0.5, 1.0]]),
}


def kwargs_of(spec):
    kw = copy.deepcopy(spec["kw"])
    if "sig" in spec:
        n, bounds, fn = SIGNALS[spec["sig"]]
        kw["signal_yields"] = fn
        kw["n_signal_parameters"] = n
        if bounds is not None and n:
            kw["signal_parameter_bounds"] = [tuple(b) for b in bounds]
    if "cov" in spec:
        key = "absolute_uncertainties" if spec["pdf"] == "default.normal" else "covariance_matrix"
        kw[key] = COVS[spec["cov"]]
    return kw


def build(spec, **extra):
    import spey
    return spey.get_backend(spec["pdf"])(**kwargs_of(spec), **extra)


# ------------------------------------------------------------------ reference
def _cov2corr(cov):
    d = np.sqrt(np.diag(cov))
    return cov / np.outer(d, d)


def third_moment_coefficients(mean, cov, m3):
    """A, B, C and rho of arXiv:1809.05548 (eqs. 2.9-2.12)."""
    mean, cov, m3 = np.asarray(mean, float), np.asarray(cov, float), np.asarray(m3, float)
    n = len(mean)
    A, B, C = np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(n):
        v, m = cov[i, i], m3[i]
        if m != 0.0 and 8.0 * v**3 >= m**2:
            C[i] = -math.copysign(1.0, m) * math.sqrt(2.0 * v) * math.cos(
                4.0 * math.pi / 3.0 + math.atan(math.sqrt(8.0 * v**3 / m**2 - 1.0)) / 3.0)
        B[i] = math.sqrt(max(v - 2.0 * C[i] ** 2, 0.0))
        A[i] = mean[i] - C[i]
    eps = 1e-5
    rho = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            ci = C[i] + (eps if C[i] >= 0 else -eps)
            cj = C[j] + (eps if C[j] >= 0 else -eps)
            b, d = B[i] * B[j], (B[i] * B[j]) ** 2 + 8 * ci * cj * cov[i, j]
            root = math.sqrt(abs(d))
            # the same expression, without cancellation where it has a real solution
            rho[i, j] = 2.0 * cov[i, j] / (root + b) if d >= 0 and root + b > 0 else (root - b) / (4 * ci * cj)
    return A, B, C, rho


def _npdf(x, loc=0.0, scale=1.0):
    return -0.5 * ((x - loc) / scale) ** 2 - np.log(scale) - 0.5 * math.log(2 * math.pi)


def _mvn(x, cov):
    x = np.asarray(x, float)
    sign, ld = np.linalg.slogdet(cov)
    return -0.5 * x @ np.linalg.solve(cov, x) - 0.5 * (len(x) * math.log(2 * math.pi) + ld)


class Ref:
    """The documented probability model."""

    def __init__(self, spec):
        self.spec = spec
        self.pdf = spec["pdf"]
        kw = spec["kw"]
        self.b = np.array(kw["background_yields"], float)
        self.n = np.array(kw["data"], float)
        self.nb = len(self.b)
        self.nsp = 0
        self.sig_bounds = []
        if "sig" in spec:
            self.nsp, bounds, fn = SIGNALS[spec["sig"]]
            self.sigfn = lambda t: np.asarray(fn(np.asarray(t, float)), float)
            self.s = None
            self.sig_bounds = [tuple(x) for x in bounds] if bounds else [(None, None)] * self.nsp
        else:
            self.s = np.array(kw["signal_yields"], float)
            self.sigfn = lambda t: self.s
        self.unc = kw.get("absolute_uncertainties")
        self.kw = kw
        self.has_theta = self.pdf in (
            "default.uncorrelated_background", "default.correlated_background",
            "default.third_moment_expansion", "default.effective_sigma",
        ) or (self.pdf == "default.poisson" and self.unc is not None)
        self.constrained = self.has_theta and self.pdf != "default.poisson"
        self.mods = []
        idx = 1 + self.nsp + (self.nb if self.has_theta else 0)
        for m in kw.get("modifiers") or []:
            v = np.array(m["uncertainties"], float)
            up, dn = (v, v) if v.ndim == 1 else (v[:, 0], v[:, 1])
            with np.errstate(all="ignore"):
                dup = 1.0 + np.where(self.s != 0, up / self.s, 0.0)
                ddn = 1.0 + np.where(self.s != 0, dn / self.s, 0.0)
            dup, ddn = np.clip(np.nan_to_num(dup, nan=1.0), 1, None), np.clip(np.nan_to_num(ddn, nan=1.0), 1, None)
            k = 1 if m["type"] == "normalization" else self.nb
            self.mods.append((list(range(idx, idx + k)), np.log(dup), np.log(ddn)))
            idx += k
        self.npar = idx
        self.th = slice(1 + self.nsp, 1 + self.nsp + self.nb)
        if self.pdf == "default.third_moment_expansion":
            self.A, self.B, self.C, self.rho = third_moment_coefficients(self.b, kw["covariance_matrix"], kw["third_moment"])
        if self.pdf == "default.correlated_background":
            self.cov = np.array(kw["covariance_matrix"], float)
            self.rho = _cov2corr(self.cov)
        if self.pdf == "default.effective_sigma":
            e = kw["absolute_uncertainty_envelops"]
            self.sp = np.array([abs(x[0]) for x in e], float)
            self.sm = np.array([abs(x[1]) for x in e], float)
            self.rho = np.array(kw["correlation_matrix"], float)

    # ---- pieces
    def signal(self, p):
        lam = self.sigfn(p[1:1 + self.nsp]) * np.ones(self.nb)
        for idx, lu, ld in self.mods:
            a = np.asarray(p, float)[idx]
            lam = lam * np.exp(np.where(a >= 0, a * lu, a * ld))
        return lam

    def background(self, p):
        p = np.asarray(p, float)
        if not self.has_theta:
            return self.b
        t = p[self.th]
        if self.pdf in ("default.uncorrelated_background", "default.poisson"):
            return self.b + t * np.array(self.unc, float)
        if self.pdf == "default.correlated_background":
            return self.b + np.sqrt(np.diag(self.cov)) * t
        if self.pdf == "default.third_moment_expansion":
            return self.A + self.B * t + self.C * t**2
        arg = self.sp * self.sm + (self.sp - self.sm) * (t - self.b)
        return self.b + np.sqrt(np.clip(arg, 1e-10, None)) * t

    def lam(self, p):
        return p[0] * self.signal(p) + self.background(p)

    def scale(self, p):
        if "cov" in self.spec:
            return np.asarray(COVS[self.spec["cov"]](np.asarray(p, float)), float)
        return np.array(self.unc if self.pdf == "default.normal" else self.kw["covariance_matrix"], float)

    def main(self, p, data):
        data = np.asarray(data, float)[: self.nb]
        lam = self.lam(p)
        if self.pdf == "default.normal":
            return float(np.sum(_npdf(data, lam, self.scale(p))))
        if self.pdf == "default.multivariate_normal":
            return float(_mvn(data - lam, self.scale(p)))
        lam = np.clip(lam, 1e-20, None)
        return float(np.sum(data * np.log(lam) - lam - gammaln(data + 1)))

    def constraint(self, p):
        p = np.asarray(p, float)
        out = 0.0
        if self.constrained:
            t = p[self.th]
            out += np.sum(_npdf(t)) if self.pdf == "default.uncorrelated_background" else _mvn(t, self.rho)
        for idx, _, _ in self.mods:
            out += np.sum(_npdf(p[idx]))
        return float(out)

    def logpdf(self, p, data=None, expected="observed"):
        data = self.data(expected) if data is None else data
        return self.main(p, data) + self.constraint(p)

    def data(self, expected="observed"):
        return self.b if str(expected) == "apriori" else self.n

    def expected_data(self, p, aux=True):
        out = np.asarray(self.lam(p), float)
        n_aux = (self.nb if self.constrained else 0) + sum(len(i) for i, _, _ in self.mods)
        return np.concatenate([out, np.zeros(n_aux)]) if aux else out

    @property
    def alive(self):
        return self.s is None or bool(np.any(self.s > 0))

    @property
    def min_poi(self):
        if self.s is None or not self.alive:
            return -np.inf
        k = self.s > 0
        return float(-np.min(self.b[k] / self.s[k]))

    def bounds(self, allow_negative=True, upper=10.0):
        return [(self.min_poi if allow_negative else 0.0, upper)] + list(self.sig_bounds) + [(None, None)] * (self.npar - 1 - self.nsp)

    def positive(self, p, tol=1e-7):
        """The constraint imposed on fits: non-negative background expectation."""
        return not self.has_theta or bool(np.all(self.background(p) >= -tol))


# ------------------------------------------------------------------ catalogue
UB, CB, TM, ES = ("default.uncorrelated_background", "default.correlated_background",
                  "default.third_moment_expansion", "default.effective_sigma")
PO, NO, MN = "default.poisson", "default.normal", "default.multivariate_normal"

NORM1 = {"name": "lumi", "type": "normalization"}
SHAPE1 = {"name": "jes", "type": "shape"}


def spec(pdf, s, b, n, sig=None, cov=None, **kw):
    out = {"pdf": pdf, "kw": {"background_yields": b, "data": n, **kw}}
    if sig is None:
        out["kw"]["signal_yields"] = s
    else:
        out["sig"] = sig
    if cov is not None:
        out["cov"] = cov
    return out


def catalogue(deep=False):
    """name -> spec"""
    out = {}
    # plain Poisson
    out["po1"] = spec(PO, [2.5], [3.0], [4])
    out["po1-zero"] = spec(PO, [1.5], [2.0], [0])
    out["po1-over"] = spec(PO, [3.0], [4.0], [11])
    out["po2"] = spec(PO, [1.0, 3.0], [5.0, 2.5], [4, 7])
    out["po2-dead-bin"] = spec(PO, [0.0, 2.0], [5.0, 3.0], [7, 2])
    out["po2-neg"] = spec(PO, [2.0, -0.5], [6.0, 9.0], [5, 8])
    out["po3"] = spec(PO, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4])
    out["po1-u"] = spec(PO, [2.5], [3.0], [4], absolute_uncertainties=[0.7])
    out["po2-u"] = spec(PO, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4])
    # normal
    out["no1"] = spec(NO, [2.0], [5.0], [6.5], absolute_uncertainties=[1.5])
    out["no2"] = spec(NO, [1.0, 3.0], [5.0, 2.5], [4.0, 7.0], absolute_uncertainties=[1.0, 2.0])
    out["no3"] = spec(NO, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3.0, 9.0, 4.0], absolute_uncertainties=[1.0, 0.5, 2.0])
    out["no2-sig"] = spec(NO, None, [5.0, 2.5], [4.0, 7.0], sig="lin1", absolute_uncertainties=[1.0, 2.0])
    out["no2-cov"] = spec(NO, [1.0, 3.0], [5.0, 2.5], [4.0, 7.0], cov="sig_mu")
    out["no2-c0"] = spec(NO, None, [5.0, 2.5], [4.0, 7.0], sig="const0", absolute_uncertainties=[1.0, 2.0])
    # multivariate normal
    out["mn1"] = spec(MN, [2.0], [5.0], [6.5], covariance_matrix=[[2.25]])
    out["mn2"] = spec(MN, [1.0, 3.0], [5.0, 2.5], [4.0, 7.0], covariance_matrix=[[2.0, 0.5], [0.5, 1.0]])
    out["mn3"] = spec(MN, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3.0, 9.0, 4.0],
                      covariance_matrix=[[2.0, -0.5, 0.3], [-0.5, 1.0, 0.1], [0.3, 0.1, 3.0]])
    out["mn2-sig"] = spec(MN, None, [5.0, 2.5], [4.0, 7.0], sig="quad2", covariance_matrix=[[2.0, 0.5], [0.5, 1.0]])
    out["mn2-cov"] = spec(MN, [1.0, 3.0], [5.0, 2.5], [4.0, 7.0], cov="cov_mu")
    out["mn2-tiny"] = spec(MN, [1.0, 3.0], [5.0, 2.5], [4.0, 7.0], covariance_matrix=[[2e-4, 0.5e-4], [0.5e-4, 1e-4]])
    # uncorrelated background
    out["ub1"] = spec(UB, [2.5], [3.0], [4], absolute_uncertainties=[0.7])
    out["ub1-zero"] = spec(UB, [2.5], [3.0], [0], absolute_uncertainties=[0.7])
    out["ub2"] = spec(UB, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4])
    out["ub2-dead-bin"] = spec(UB, [0.0, 2.0], [5.0, 3.0], [7, 2], absolute_uncertainties=[2.0, 0.5])
    out["ub2-neg"] = spec(UB, [2.0, -0.5], [6.0, 9.0], [5, 8], absolute_uncertainties=[1.0, 2.0])
    out["ub3"] = spec(UB, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4], absolute_uncertainties=[0.5, 2.0, 1.0])
    out["ub2-sig"] = spec(UB, None, [5.0, 2.5], [4, 7], sig="lin1", absolute_uncertainties=[1.2, 0.4])
    out["ub2-free"] = spec(UB, None, [5.0, 2.5], [4, 7], sig="free1", absolute_uncertainties=[1.2, 0.4])
    out["ub2-norm"] = spec(UB, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4],
                           modifiers=[{**NORM1, "uncertainties": [0.2, 0.5]}])
    out["ub2-asym"] = spec(UB, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4],
                           modifiers=[{**NORM1, "uncertainties": [[0.2, 0.1], [0.5, 0.9]]}])
    out["ub2-shape"] = spec(UB, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4],
                            modifiers=[{**SHAPE1, "uncertainties": [[0.2, 0.1], [0.5, 0.9]]}])
    out["ub2-both"] = spec(UB, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4],
                           modifiers=[{**SHAPE1, "uncertainties": [0.2, 0.6]}, {**NORM1, "uncertainties": [[0.3, 0.1], [0.5, 0.9]]}])
    out["ub2-2norm-dead"] = spec(UB, [0.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4],
                                 modifiers=[{"type": "normalization", "uncertainties": [0.2, 0.5]},
                                            {"type": "normalization", "uncertainties": [[0.1, -0.2], [0.4, 0.2]]}])
    # correlated background
    cov2 = [[1.44, 0.3], [0.3, 0.25]]
    cov3 = [[0.25, 0.1, -0.05], [0.1, 4.0, 0.6], [-0.05, 0.6, 1.0]]
    out["cb1"] = spec(CB, [2.5], [3.0], [4], covariance_matrix=[[0.49]])
    out["cb2"] = spec(CB, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=cov2)
    out["cb2-anti"] = spec(CB, [3.0, 1.0], [5.0, 2.5], [9, 1], covariance_matrix=[[1.44, -0.5], [-0.5, 0.25]])
    out["cb3"] = spec(CB, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4], covariance_matrix=cov3)
    out["cb2-sig"] = spec(CB, None, [5.0, 2.5], [4, 7], sig="quad2", covariance_matrix=cov2)
    out["cb2-asym"] = spec(CB, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=cov2,
                           modifiers=[{**NORM1, "uncertainties": [[0.2, 0.1], [0.5, 0.9]]}])
    out["cb2-shape"] = spec(CB, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=cov2,
                            modifiers=[{**SHAPE1, "uncertainties": [0.2, 0.5]}, {**NORM1, "uncertainties": [0.2, 0.5]}])
    # third moments
    out["tm1"] = spec(TM, [2.5], [3.0], [4], covariance_matrix=[[0.49]], third_moment=[0.1])
    out["tm2"] = spec(TM, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=cov2, third_moment=[0.5, 0.05])
    out["tm2-neg"] = spec(TM, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=cov2, third_moment=[0.5, -0.05])
    out["tm3"] = spec(TM, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4], covariance_matrix=cov3, third_moment=[0.05, 2.0, 0.3])
    out["tm2-norm"] = spec(TM, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=cov2, third_moment=[0.5, 0.05],
                           modifiers=[{**NORM1, "uncertainties": [0.2, 0.5]}])
    out["tm2-sig"] = spec(TM, None, [5.0, 2.5], [4, 7], sig="lin1", covariance_matrix=cov2, third_moment=[0.5, 0.05])
    # effective sigma
    cor2 = [[1.0, 0.3], [0.3, 1.0]]
    cor3 = [[1.0, 0.1, -0.2], [0.1, 1.0, 0.4], [-0.2, 0.4, 1.0]]
    out["es1"] = spec(ES, [2.5], [3.0], [4], correlation_matrix=[[1.0]], absolute_uncertainty_envelops=[[0.7, 0.7]])
    out["es2"] = spec(ES, [1.0, 3.0], [5.0, 2.5], [4, 7], correlation_matrix=cor2, absolute_uncertainty_envelops=[[1.0, 1.0], [0.4, 0.4]])
    out["es2-asym"] = spec(ES, [1.0, 3.0], [5.0, 2.5], [4, 7], correlation_matrix=cor2, absolute_uncertainty_envelops=[[0.9, 1.0], [0.4, 0.5]])
    out["es3"] = spec(ES, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4], correlation_matrix=cor3,
                      absolute_uncertainty_envelops=[[0.5, 0.6], [1.5, -1.8], [0.8, 0.8]])
    out["es2-shape"] = spec(ES, [1.0, 3.0], [5.0, 2.5], [4, 7], correlation_matrix=cor2, absolute_uncertainty_envelops=[[0.9, 1.0], [0.4, 0.5]],
                            modifiers=[{**SHAPE1, "uncertainties": [[0.2, 0.1], [0.5, 0.9]]}])
    out["es2-sig"] = spec(ES, None, [5.0, 2.5], [4, 7], sig="lin1", correlation_matrix=cor2, absolute_uncertainty_envelops=[[1.0, 1.0], [0.4, 0.4]])
    return out


def _toeplitz(n, rho, alt=False):
    return [[round((rho ** abs(i - j)) * ((-1) ** (i + j) if alt else 1), 6) for j in range(n)] for i in range(n)]


def _outer(corr, u):
    return [[round(c * u[i] * u[j], 9) for j, c in enumerate(row)] for i, row in enumerate(corr)]


def large():
    """Analyses of more bins, more modifiers and other orders of magnitude (name -> spec)."""
    out = {}
    s4, b4, n4, u4 = [1.0, 2.0, 0.0, 0.5], [6.0, 9.0, 4.0, 5.5], [7, 12, 3, 5], [0.9, 1.4, 0.5, 1.1]
    out["po4"] = spec(PO, s4, b4, n4)
    out["no4"] = spec(NO, s4, b4, [float(x) for x in n4], absolute_uncertainties=u4)
    out["mn4"] = spec(MN, s4, b4, [float(x) for x in n4], covariance_matrix=_outer(_toeplitz(4, 0.4, True), u4))
    out["ub4"] = spec(UB, s4, b4, n4, absolute_uncertainties=u4)
    out["ub4-3mod"] = spec(UB, s4, b4, n4, absolute_uncertainties=u4, modifiers=[
        {"type": "normalization", "name": "lumi", "uncertainties": [0.1, 0.2, 0.0, 0.05]},
        {"type": "shape", "name": "jes", "uncertainties": [[0.2, 0.1], [0.3, 0.4], [0.0, 0.0], [0.1, 0.05]]},
        {"type": "normalization", "name": "pdf", "uncertainties": [[0.3, 0.2], [0.1, 0.3], [0.0, 0.0], [0.02, 0.1]]}])
    out["cb4"] = spec(CB, s4, b4, n4, covariance_matrix=_outer(_toeplitz(4, 0.5), u4))
    out["tm4"] = spec(TM, s4, b4, n4, covariance_matrix=_outer(_toeplitz(4, 0.3), u4), third_moment=[0.3, -0.6, 0.05, 0.4])
    out["es4"] = spec(ES, s4, b4, n4, correlation_matrix=_toeplitz(4, 0.3), absolute_uncertainty_envelops=[[0.9, 0.8], [1.4, 1.3], [0.5, 0.5], [1.1, 1.2]])
    k = 12
    s12 = [round(0.3 + 1.7 * ((i * 5) % k) / k, 3) for i in range(k)]
    b12 = [round(3.0 + 14.0 * ((i * 7) % k) / k, 3) for i in range(k)]
    n12 = [int(round(b + (1, -2, 0, 3, -1)[i % 5])) for i, b in enumerate(b12)]
    u12 = [round(0.4 + 0.1 * ((i * 3) % 7), 3) for i in range(k)]
    out["po12"] = spec(PO, s12, b12, n12)
    out["no12"] = spec(NO, s12, b12, [float(x) for x in n12], absolute_uncertainties=u12)
    out["mn12"] = spec(MN, s12, b12, [float(x) for x in n12], covariance_matrix=_outer(_toeplitz(k, 0.4, True), u12))
    out["ub12"] = spec(UB, s12, b12, n12, absolute_uncertainties=u12)
    out["cb12"] = spec(CB, s12, b12, n12, covariance_matrix=_outer(_toeplitz(k, 0.3), u12))
    # many and few events
    out["po-many"] = spec(PO, [300.0, 40.0], [1.2e4, 3.5e3], [12180, 3460])
    out["ub-many"] = spec(UB, [300.0, 40.0], [1.2e4, 3.5e3], [12180, 3460], absolute_uncertainties=[150.0, 60.0])
    out["cb-many"] = spec(CB, [300.0, 40.0], [1.2e4, 3.5e3], [12180, 3460], covariance_matrix=[[2.25e4, 2.7e3], [2.7e3, 3.6e3]])
    out["po-few"] = spec(PO, [0.6, 0.2], [0.3, 0.15], [1, 0])
    out["ub-few"] = spec(UB, [0.6, 0.2], [0.05, 0.02], [0, 1], absolute_uncertainties=[0.01, 0.004])
    out["no-many"] = spec(NO, [300.0, 40.0], [1.2e4, 3.5e3], [12180.0, 3460.0], absolute_uncertainties=[150.0, 60.0])
    return out


def sparse_lattice(r, mus, levels, offset=0.0):
    """Every signal strength with: all parameters zero, one parameter off, two neighbours off, alternating and equal patterns."""
    k = r.npar - 1
    pats = [np.zeros(k)]
    for x in levels:
        pats += [np.full(k, x), x * (-1.0) ** np.arange(k), x * (np.arange(k) % 3 - 1.0)]
        for i in range(k):
            e = np.zeros(k)
            e[i] = x
            pats.append(e)
            if i + 1 < k:
                e = e.copy()
                e[i + 1] = -0.5 * x
                pats.append(e)
    for mu in mus:
        for p in pats:
            yield [mu, *np.where(p == 0.0, offset, p).tolist()]
