"""M05: every fit honours its constraints and returns a self-consistent (global) minimum."""
import itertools

import numpy as np

from mc import zoo
from mc.refopt import reference_minimum

BOUNDS = {
    "quick": "53 models, 19 larger ones (4 to 12 bins) and 8 with active background constraints x (free fits: 2 expectations x sign x 3 data x 4 start/bound options x return forms; fixed fits: 8 POI values (one below the minimum POI) x 6 ways of "
             "naming the POI; pairs of fixed parameters; scipy and minuit)",
    "thorough": "as quick with 14 POI values, 5 data sets and all pairs and triples of fixed parameters",
}
ASSUMPTIONS = [
    "the reference minimum is the best of several independent constrained minimisations of the reference likelihood",
    "noticeable means more than 2e-3 in NLL; models whose signal depends non-linearly on further parameters are only compared with the "
    "minima reachable from the returned point",
]
TOL = 2e-3
# models whose fits are limited by the requirement of a non-negative background
EXTRA = {
    "ub2-act": zoo.spec(zoo.UB, [1.0, 2.0], [2.0, 1.5], [1, 3], absolute_uncertainties=[1.8, 1.4]),
    "ub2-sig-act": zoo.spec(zoo.UB, None, [2.0, 1.5], [1, 3], sig="lin1", absolute_uncertainties=[1.8, 1.4]),
    "cb2-act": zoo.spec(zoo.CB, [1.0, 2.0], [2.0, 1.5], [1, 3], covariance_matrix=[[4.0, 1.0], [1.0, 2.0]]),
    "cb2-sig-act": zoo.spec(zoo.CB, None, [2.0, 1.5], [1, 3], sig="lin1", covariance_matrix=[[4.0, 1.0], [1.0, 2.0]]),
    "tm2-act": zoo.spec(zoo.TM, [1.0, 2.0], [2.0, 1.5], [1, 3], covariance_matrix=[[4.0, 1.0], [1.0, 2.0]], third_moment=[2.0, 0.5]),
    "tm2-sig-act": zoo.spec(zoo.TM, None, [2.0, 1.5], [1, 3], sig="lin1", covariance_matrix=[[4.0, 1.0], [1.0, 2.0]], third_moment=[2.0, 0.5]),
    "es2-act": zoo.spec(zoo.ES, [1.0, 2.0], [2.0, 1.5], [1, 3], correlation_matrix=[[1.0, 0.3], [0.3, 1.0]], absolute_uncertainty_envelops=[[2.0, 2.0], [1.4, 1.4]]),
    "es2-sig-act": zoo.spec(zoo.ES, None, [2.0, 1.5], [1, 3], sig="lin1", correlation_matrix=[[1.0, 0.3], [0.3, 1.0]], absolute_uncertainty_envelops=[[2.0, 2.0], [1.4, 1.4]]),
}


def catalogue():
    return {**zoo.catalogue(), **EXTRA, **zoo.large()}


def nums(x):
    return [None if v is None else round(float(v), 6) for v in x]


class Fit:
    def __init__(self, name, rec):
        self.name, self.rec = name, rec
        self.spec = catalogue()[name]
        self.r = zoo.Ref(self.spec)
        self.m = zoo.build(self.spec)
        self.convex = "sig" not in self.spec or name in ("no2-c0",)

    def verify(self, label, nll, p, data, bounds, fixed, like=None, optimum=True, tol=TOL, start=()):
        rec, r = self.rec, self.r
        rec.step()
        p = np.asarray(p, float)
        if not rec.check(p.shape == (r.npar,) and np.all(np.isfinite(p)) and np.isfinite(nll), "fit-parameters", f"{self.name} {label}: NLL {nll} parameters {p}"):
            return
        for i, v in fixed.items():
            rec.check(abs(p[i] - v) <= 1e-7 * max(1, abs(v)), "fixed-value", f"{self.name} {label}: parameter {i} fixed to {v} is {p[i]!r}")
        for i, (lo, hi) in enumerate(bounds):
            if i in fixed:
                continue
            rec.check((lo is None or p[i] >= lo - 1e-7 * max(1, abs(lo))) and (hi is None or p[i] <= hi + 1e-7 * max(1, abs(hi))), "bounds",
                      f"{self.name} {label}: parameter {i} = {p[i]} outside [{lo}, {hi}]")
        rec.check(r.positive(p, 1e-4), "background", f"{self.name} {label}: negative background {r.background(p)} at {p}")
        own = -r.logpdf(p, data)
        rec.check(abs(own - nll) <= 1e-7 * max(1, abs(own)), "value", f"{self.name} {label}: NLL {nll!r}, likelihood at the parameters {own!r} {p}")
        if like is not None:
            rec.check(abs(like - np.exp(-nll)) <= 1e-3 * np.exp(-nll), "likelihood-form", f"{self.name} {label}: likelihood {like}, exp(-NLL) {np.exp(-nll)}")
        if optimum:
            best, bp = reference_minimum(r, data, bounds, fixed, [p] + (list(start) if self.convex else [])) if self.convex else \
                self.local(p, data, bounds, fixed)
            rec.check(nll <= best + tol * max(1, abs(best) * 1e-2), "not-minimal", f"{self.name} {label}: NLL {nll} at {p}, but {best} at {bp}")
        rec.state(self.name, label)
        rec.trace()
        rec.outcome(round(float(nll), 3), nums(p))

    def local(self, p, data, bounds, fixed):
        import mc.refopt as ro
        keep, ro.starts = ro.starts, lambda *a: []
        try:
            return ro.reference_minimum(self.r, data, bounds, fixed, [p])
        finally:
            ro.starts = keep


def datasets(r, deep):
    out = [("obs", None, r.n), ("shift", [float(x) + 2 for x in r.n], r.n + 2)]
    if deep:
        out.append(("zero", [0.0] * r.nb, np.zeros(r.nb)))
        out.append(("half", list(r.b * 0.5 + 0.25), r.b * 0.5 + 0.25))
    return out


def run_free(case, rec):
    f = Fit(case["name"], rec)
    r, m = f.r, f.m
    idx = list(range(r.npar))
    for exp, neg, (dl, d, dref) in itertools.product(("observed", "apriori"), (True, False), datasets(r, case["deep"])):
        dref = r.data(exp) if d is None else dref
        b = r.bounds(neg)
        lab = f"free {exp} neg={neg} data={dl}"
        kw = dict(expected=exp, allow_negative_signal=neg, data=d)
        res, nll = m.maximize_likelihood(poi_indices=idx, **kw)
        p = [res[i] for i in idx]
        mu, nll2 = m.maximize_likelihood(**kw)
        like = m.maximize_likelihood(return_nll=False, **kw)
        f.verify(lab, nll, p, dref, b, {}, like[1])
        rec.check(abs(mu - p[0]) < 1e-6 and abs(nll2 - nll) < 1e-9 and abs(like[0] - mu) < 1e-6, "return-forms", f"{f.name} {lab}: {mu},{nll2} / {res},{nll} / {like}")
        if not neg:
            rec.check(mu >= -1e-9, "negative", f"{f.name} {lab}: best fit {mu} although negative signals are not allowed")
        # other starting points and bounds
        i2 = [0.5] + [0.2] * (r.npar - 1)
        keep = list(i2)
        res, nll3 = m.maximize_likelihood(poi_indices=idx, init_pars=i2, **kw)
        f.verify(lab + " init", nll3, [res[i] for i in idx], dref, b, {})
        rec.check(i2 == keep, "input", f"{f.name} {lab}: init_pars became {i2}")
        nb = [(0.3, 0.9)] + [(-0.4, 0.5)] * (r.npar - 1)
        res, nll4 = m.maximize_likelihood(poi_indices=idx, par_bounds=nb, init_pars=i2, **kw)
        f.verify(lab + " bounds", nll4, [res[i] for i in idx], dref, nb, {})
        nb = [(-0.1, 25.0)] + [(-3.0, 3.0)] * (r.npar - 1)
        if r.min_poi < -0.1:
            res, nll4 = m.maximize_likelihood(poi_indices=idx, par_bounds=nb, **kw)
            f.verify(lab + " wide", nll4, [res[i] for i in idx], dref, nb, {})
        # a free fit is never worse than a fit with a fixed POI in range
        for v in (0.0, 0.6, 1.0, 4.0) if f.convex else ():
            fx = m.likelihood(v, expected=exp, data=d)
            rec.check(fx >= nll - TOL * max(1, abs(nll) * 1e-2), "free-worse", f"{f.name} {lab}: free NLL {nll} above NLL {fx} at POI {v}")
            rec.step()


def run_fixed(case, rec):
    f = Fit(case["name"], rec)
    r, m = f.r, f.m
    deep = case["deep"]
    cfg = m.backend.config()
    names = cfg.parameter_names
    values = [-0.3, 0.0, 0.4, 1.0, 2.5, 9.5, 12.0] + ([-0.8, 0.1, 1.7, 5.0, 10.0, 40.0] if deep else [])
    ways = ["float", "int", "numpy", "dict", "intdict"] + (["name"] if names else [])
    for exp, (dl, d, dref) in itertools.product(("observed", "apriori"), datasets(r, deep)):
        dref = r.data(exp) if d is None else dref
        for v in values + [1.02 * r.min_poi]:
            below = r.npar > 1 and f.convex and np.isfinite(v) and v == 1.02 * r.min_poi
            if not below and (not np.isfinite(v) or v <= r.min_poi or (r.s is not None and np.any(v * r.s + r.b <= 0.2))):
                continue
            first = None
            for way in ways[:1] if below else ways:
                if way == "int" and v != int(v):
                    continue
                poi = {"float": float(v), "int": int(v), "numpy": np.float64(v), "dict": {0: float(v)}, "intdict": {np.int64(0): v},
                       "name": {names[0] if names else "mu": float(v)}}[way]
                lab = f"fixed {exp} data={dl} poi={v} as {way}"
                kw = dict(expected=exp, data=d)
                nll, p = m.likelihood(poi, return_parameters=True, **kw)
                b = [(None, None)] + r.bounds()[1:]
                if first is None:
                    first = nll
                    like = m.likelihood(poi, return_nll=False, **kw)
                    only = m.likelihood(poi, **kw)
                    rec.check(abs(only - nll) <= 1e-9 * max(1, abs(nll)), "return-forms", f"{f.name} {lab}: {only} / {nll}")
                    f.verify(lab, nll, p, dref, b, {0: v}, like)
                    i2 = [0.7] + [0.1] * (r.npar - 1)
                    nll2, p2 = m.likelihood(poi, return_parameters=True, init_pars=i2, **kw)
                    f.verify(lab + " init", nll2, p2, dref, b, {0: v})
                    if 0.0 <= v < 3:
                        nb = [(-0.5, 3.0)] + [(-0.3, 0.6)] * (r.npar - 1)
                        nll2, p2 = m.likelihood(poi, return_parameters=True, init_pars=i2, par_bounds=nb, **kw)
                        f.verify(lab + " bounds", nll2, p2, dref, nb, {0: v})
                    if r.npar > 1:
                        res, n3 = m.maximize_likelihood(fixed_poi_value=poi, poi_indices=list(range(r.npar)), **kw)
                        f.verify(lab + " maximize", n3, [res[i] for i in range(r.npar)], dref, b, {0: v})
                else:
                    f.verify(lab, nll, p, dref, b, {0: v}, optimum=False)
                    rec.check(abs(nll - first) <= TOL, "poi-forms", f"{f.name} {lab}: NLL {nll}, as a float {first}")
                if len(rec.failures) > 20:
                    return


def run_multi(case, rec):
    """Several fixed parameters at once, and nuisance parameters alone."""
    f = Fit(case["name"], rec)
    r, m = f.r, f.m
    names = m.backend.config().parameter_names
    size = 3 if case["deep"] else 2
    for k in range(1, size + 1):
        for idx in itertools.combinations(range(r.npar), k):
            for vals in itertools.product((-0.2, 0.9), repeat=k):
                fx = dict(zip(idx, vals))
                q = np.zeros(r.npar)
                for i, v in fx.items():
                    q[i] = v
                if r.pdf not in (zoo.NO, zoo.MN) and np.any(r.lam(q) <= 0.3):
                    continue
                if fx.get(0, 0) <= r.min_poi:
                    continue
                b = r.bounds()
                forms = [dict(fx)]
                if names:
                    forms.append({names[i]: v for i, v in fx.items()})
                    forms.append({(names[i] if n % 2 else i): v for n, (i, v) in enumerate(reversed(list(fx.items())))})
                first = None
                for poi in forms:
                    keep = dict(poi)
                    nll, p = m.likelihood(poi, return_parameters=True)
                    rec.check(poi == keep, "input", f"{f.name}: POI dictionary became {poi}")
                    f.verify(f"multi {poi}", nll, p, r.n, b, fx, optimum=first is None)
                    first = nll if first is None else first
                    rec.check(abs(nll - first) <= TOL, "poi-forms", f"{f.name} {poi}: {nll} / {first}")
                res, n3 = m.maximize_likelihood(fixed_poi_value=dict(fx), poi_indices=list(names) if names else list(range(r.npar)))
                f.verify(f"multi-max {fx}", n3, list(res.values()), r.n, b, fx, optimum=False)
                rec.check(abs(n3 - first) <= TOL, "poi-forms", f"{f.name} maximize with {fx}: {n3} / {first}")
                if len(rec.failures) > 20:
                    return


def run_beyond(case, rec):
    """Bounded parameters held fixed on, near and far outside their bounds."""
    f = Fit(case["name"], rec)
    r, m = f.r, f.m
    names = m.backend.config().parameter_names
    for i in range(1, r.npar):
        lo, hi = r.bounds()[i]
        if lo is None or hi is None:
            continue
        for v in (lo - 7.0, lo - 1.5, lo - 0.2, lo, hi, hi + 0.2, hi + 1.5, hi + 7.0):
            for mu, e in itertools.product((None, 0.0, 0.8, 12.0), ("observed", "apriori")):
                fx = {i: v} if mu is None else {0: mu, i: v}
                q = np.zeros(r.npar)
                for k, x in fx.items():
                    q[k] = x
                if r.pdf not in (zoo.NO, zoo.MN) and np.any(r.lam(q) <= 0.3):
                    continue
                b = [(None, None) if k in fx else x for k, x in enumerate(r.bounds())]
                for poi in (dict(fx), {names[k]: x for k, x in fx.items()}):
                    nll, p = m.likelihood(poi, expected=e, return_parameters=True)
                    f.verify(f"beyond {e} {poi}", nll, p, r.data(e), b, fx)
                res, nll = m.maximize_likelihood(expected=e, fixed_poi_value=dict(fx), poi_indices=list(range(r.npar)))
                f.verify(f"beyond maximize {e} {fx}", nll, list(res.values()), r.data(e), b, fx, optimum=False)
                if len(rec.failures) > 20:
                    return


MINUIT = ["po1", "po2", "po3", "no2", "mn2", "mn3", "ub1", "ub2", "ub3", "cb2", "cb3", "tm2", "es2", "ub2-norm"]


def run_minuit(case, rec):
    f = Fit(case["name"], rec)
    r, m = f.r, f.m
    idx = list(range(r.npar))
    for exp, neg in itertools.product(("observed", "apriori"), (True, False)):
        res, nll = m.maximize_likelihood(poi_indices=idx, expected=exp, allow_negative_signal=neg, minimizer="minuit")
        f.verify(f"minuit free {exp} {neg}", nll, [res[i] for i in idx], r.data(exp), r.bounds(neg), {}, tol=5e-3)
    for v in (0.0, 1.0, 2.5):
        nll, p = m.likelihood(v, return_parameters=True, minimizer="minuit")
        f.verify(f"minuit fixed {v}", nll, p, r.n, [(None, None)] + r.bounds()[1:], {0: v}, tol=5e-3)
    if r.npar > 2:
        fx = {0: 0.5, 2: 0.4}
        nll, p = m.likelihood(fx, return_parameters=True, minimizer="minuit")
        f.verify(f"minuit fixed {fx}", nll, p, r.n, [(None, None)] + r.bounds()[1:], fx, tol=5e-3)
    rec.sample(f"minuit fits of {case['name']}")


def run_steep(case, rec):
    """Objectives of a large gradient at the starting point: a Gaussian measurement with a growing signal."""
    for k in case["scales"]:
        for data, e in itertools.product(([4.0, 7.0], [5.0, 2.5], [6.0, 3.0]), ("observed", "apriori")):
            sp = zoo.spec(zoo.MN, [1.0 * k, 3.0 * k], [5.0, 2.5], data, covariance_matrix=[[2e-4, 0.5e-4], [0.5e-4, 1e-4]])
            r, m = zoo.Ref(sp), zoo.build(sp)
            cinv, s, n = np.linalg.inv(np.array(sp["kw"]["covariance_matrix"])), r.s, r.data(e)
            lo, hi = r.bounds()[0]
            best = min(max(float(s @ cinv @ (n - r.b)) / float(s @ cinv @ s), lo), hi)
            low = -r.logpdf([best], n)
            mu, nll = m.maximize_likelihood(expected=e)
            rec.step()
            rec.state(k, data, e)
            rec.trace()
            rec.outcome(round(best, 3))
            rec.check(abs(nll - low) <= 1e-3 * max(1.0, abs(low)), f"steep/{k:g}", f"{e} signal {s}, data {n}: fit {mu} with NLL {nll}, the minimum is {low} at {best}")


def run_few(case, rec):
    """Hardly any background: the allowed range ends close to the minimum, the likelihood is steep there."""
    k = case["scale"]
    sp = zoo.spec(zoo.PO, [0.6 * k, 0.2 * k], [0.05, 0.01], [1, 0])
    r, m = zoo.Ref(sp), zoo.build(sp)
    mu, nll = m.maximize_likelihood(expected="apriori")
    low = -r.logpdf([0.0], r.b)  # data equal to the background: the minimum is at zero
    rec.step()
    rec.state("few", k)
    rec.trace()
    rec.check(nll <= low + 2e-3, f"few/{k:g}", f"signal {r.s}, background {r.b}: fit {mu} with NLL {nll}, the minimum is {low} at 0")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for k in catalogue():
        out.append({"t": "free", "name": k, "deep": deep})
        out.append({"t": "fixed", "name": k, "deep": deep})
        if 1 < zoo.Ref(catalogue()[k]).npar < 6 and k not in EXTRA:
            out.append({"t": "multi", "name": k, "deep": deep})
    out += [{"t": "minuit", "name": k, "deep": deep} for k in MINUIT]
    out += [{"t": "beyond", "name": k} for k in catalogue() if any(None not in b for b in zoo.Ref(catalogue()[k]).bounds()[1:])]
    out.append({"t": "steep", "scales": [0.01, 0.03, 0.1, 0.3, 4.0]})
    out.append({"t": "few", "scale": 4.0})
    return out


def weight(case):
    return zoo.Ref(catalogue()[case["name"]]).npar ** 2 if "name" in case else 1


def run(case, rec):
    {"free": run_free, "fixed": run_fixed, "multi": run_multi, "minuit": run_minuit, "steep": run_steep, "beyond": run_beyond, "few": run_few}[case["t"]](case, rec)
