"""K01: every point of the confidence contour against an independent (profiled) likelihood."""
import contextlib
import io
import itertools

import autograd.numpy as anp
import numpy as np
from scipy.stats import chi2

import spey
from joblib.externals.loky import get_reusable_executor

from mc import refopt, zoo
from spey import ExpectationType
from spey.base.model_config import ModelConfig
from spey.multiparameter.contour import find_contour

BOUNDS = {
    "quick": "12 models (Gaussian and Poisson, one to three contour parameters, disjoint regions, badly scaled, POI not first) x all subsets and orders of contour parameters x 3 confidence levels x "
             "10 kinds of bounds (none, wide, cutting, one-sided, infinite, touching and excluding the best fit) x (step size, coverage passes) in {(0.05, 2), (5, 1)}; unsorted contour parameters with three kinds of bounds; worker counts 0, 1, 2, 3",
    "thorough": "as quick with 5 confidence levels, 2 seeds, 4 step sizes x 1-3 passes, 30 steps, all bounds for unsorted contour parameters",
}
ASSUMPTIONS = ["the random directions of the finder come from the given seed; the guarantee is checked for every point it returns",
               "profiled likelihoods compared to 2e-4, otherwise 2e-6", "profiled parameters have a curvature of natural scale (the finder profiles with an absolute tolerance of 1e-6)"]

S = zoo.spec
SPECS = {
    "mn-ell1": S(zoo.MN, None, [50., 48.], [36., 33.], sig="ell1", covariance_matrix=[[144., 13.], [13., 256.]]),
    "no-ell2": S(zoo.NO, None, [20., 30., 25.], [31., 40., 22.], sig="ell2", absolute_uncertainties=[4., 5., 3.]),
    "no-ell2b": S(zoo.NO, None, [20., 30., 25.], [31., 40., 22.], sig="ell2b", absolute_uncertainties=[4., 5., 3.]),
    "no-ell2c": S(zoo.NO, None, [20., 30., 25.], [31., 40., 22.], sig="ell2c", absolute_uncertainties=[4., 5., 3.]),
    "no-half2": S(zoo.NO, None, [20., 30., 25.], [31., 40., 22.], sig="half2", absolute_uncertainties=[4., 5., 3.]),
    "mn-ell3": S(zoo.MN, None, [20., 30., 25.], [26., 36., 27.], sig="ell3", covariance_matrix=[[9., 1., 0.], [1., 16., 2.], [0., 2., 12.]]),
    "no-eft1": S(zoo.NO, None, [20., 30.], [45., 60.], sig="eft1", absolute_uncertainties=[4., 5.]),
    "no-eft2": S(zoo.NO, None, [20., 30., 25.], [50., 60., 35.], sig="eft2", absolute_uncertainties=[3., 4., 3.]),
    "no-scaled2": S(zoo.NO, None, [20., 30.], [31., 40.], sig="scaled2", absolute_uncertainties=[4., 5.]),
    "ub-ell1": S(zoo.UB, None, [50., 48.], [60., 70.], sig="ell1", absolute_uncertainties=[5., 4.]),
    "cb-ell1": S(zoo.CB, None, [50., 48.], [60., 70.], sig="ell1", covariance_matrix=[[25., 5.], [5., 16.]]),
}
PROFILED = {"no-ell2c": [[1], [2]], "no-scaled2": [None, [1, 2], [2, 1, 0]], "ub-ell1": [[1], [1, 0], [1, 3]], "cb-ell1": [[1], [2, 1]]}


class Shifted(spey.BackendBase):
    """Quadratic likelihood of three parameters whose parameter of interest is the second one."""

    name, version, author, spey_requires, doi, arXiv = "verif.shifted", "1", "x", spey.__version__, [], []
    C = np.array([1.5, 0.7, -0.8])
    W = np.array([[2.0, 0.3, -0.5], [0.3, 1.0, 0.2], [-0.5, 0.2, 3.0]])

    @property
    def is_alive(self):
        return True

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(
            1, -5.0, [0.1, 1.0, 0.1], [(-10.0, 10.0), (-5.0, poi_upper_bound), (None, None)], parameter_names=["a", "mu", "b"])

    def expected_data(self, pars):
        return list(pars)

    def _f(self, pars):
        d = anp.array(pars) - self.C
        return -0.5 * anp.dot(d, anp.dot(self.W, d)) - 4.0

    def get_logpdf_func(self, expected=ExpectationType.observed, data=None):
        return lambda pars: self._f(pars)

    def get_objective_function(self, expected=ExpectationType.observed, data=None, do_grad=True):
        if do_grad:
            return lambda pars: (-self._f(pars), self.W @ (np.asarray(pars) - self.C))
        return lambda pars: -self._f(pars)

    def get_hessian_logpdf_func(self, expected=ExpectationType.observed, data=None):
        return lambda pars: -self.W


class ShiftedRef:
    npar, poi, has_theta = 3, 1, False

    def logpdf(self, p, data=None):
        d = np.asarray(p, float) - Shifted.C
        return -0.5 * d @ Shifted.W @ d - 4.0


def make(name):
    if name == "shifted":
        return spey.StatisticalModel(backend=Shifted(), analysis="shifted"), ShiftedRef()
    ref = zoo.Ref(SPECS[name])
    ref.poi = 0
    return zoo.build(SPECS[name]), ref


def level(v):
    return -np.inf if v is None else float(v)


def upper(v):
    return np.inf if v is None else float(v)


class Oracle:
    """Profiled reference NLL with the POI at one."""

    def __init__(self, ref, contour, par_bounds):
        self.ref, self.contour = ref, list(contour)
        self.rest = [i for i in range(ref.npar) if i != ref.poi and i not in self.contour]
        self.bounds = [tuple(b) for b in par_bounds]
        self.seen = []

    def nll(self, point):
        fixed = {self.ref.poi: 1.0, **{i: float(v) for i, v in zip(self.contour, point)}}
        if not self.rest:
            p = np.array([fixed[i] for i in range(self.ref.npar)])
            return -float(self.ref.logpdf(p))
        if isinstance(self.ref, ShiftedRef):
            i, = self.rest
            p = np.array([fixed.get(j, 0.0) for j in range(3)])
            o = [j for j in range(3) if j != i]
            p[i] = Shifted.C[i] - Shifted.W[i, o] @ (p[o] - Shifted.C[o]) / Shifted.W[i, i]
            p[i] = np.clip(p[i], level(self.bounds[i][0]), upper(self.bounds[i][1]))
            return -self.ref.logpdf(p)
        v, p = refopt.reference_minimum(self.ref, None, self.bounds, fixed, extra=self.seen[-2:])
        if p is not None:
            self.seen.append(p)
        return float(v)

    def on_local_profile(self, point, target, tol):
        """Is the likelihood at ``target`` at a local minimum over the (single) remaining parameter?"""
        if len(self.rest) != 1 or not self.name.startswith("no-eft"):
            return False
        from scipy.optimize import minimize_scalar
        p = np.zeros(self.ref.npar)
        p[self.ref.poi] = 1.0
        p[self.contour] = point
        i, = self.rest

        def f(t):
            q = p.copy()
            q[i] = t
            return -float(self.ref.logpdf(q))

        t = np.linspace(max(-20.0, level(self.bounds[i][0])), min(20.0, upper(self.bounds[i][1])), 401)
        v = np.array([f(x) for x in t])
        for j in range(1, len(t) - 1):
            if v[j] <= v[j - 1] and v[j] <= v[j + 1]:
                o = minimize_scalar(f, bounds=(t[j - 1], t[j + 1]), method="bounded", options={"xatol": 1e-9})
                if abs(o.fun - target) < tol:
                    return True
        return any(abs(x - target) < tol for x in (v[0], v[-1]))

    def minimum(self, given=None):
        """Global minimum over all parameters but the POI, from a grid of starting points."""
        keep = self.bounds
        if given is not None:
            self.bounds = list(keep)
            for i, b in zip(self.contour, given):
                self.bounds[i] = b
        try:
            return self._minimum()
        finally:
            self.bounds = keep

    def _minimum(self):
        from scipy.optimize import minimize
        free = self.contour + self.rest
        axes = []
        for i in self.contour:
            lo, hi = max(level(self.bounds[i][0]), -6.0), min(upper(self.bounds[i][1]), 6.0)
            lo, hi = min(lo, upper(self.bounds[i][1])), max(hi, level(self.bounds[i][0]))
            axes.append(np.linspace(lo, hi, 7 if len(self.contour) + len(self.rest) < 3 else 4))
        best = np.inf
        for x in itertools.product(*axes):
            start = np.zeros(self.ref.npar)
            start[self.ref.poi] = 1.0
            start[self.contour] = x

            def f(z):
                p = start.copy()
                p[free] = z
                v = -float(self.ref.logpdf(p))
                return v if np.isfinite(v) else 1e10

            o = minimize(f, start[free], method="SLSQP", tol=1e-12, options={"maxiter": 400},
                         bounds=[tuple(None if b is None or not np.isfinite(b) else b for b in self.bounds[i]) for i in free])
            if np.isfinite(o.fun) and o.fun < best:
                best = float(o.fun)
        return best


def boxes(center, sd, tier):
    """Kinds of bounds around the best fit; ``sd`` is the extent of the region."""
    k = len(center)
    c, s = np.asarray(center, float), np.asarray(sd, float)
    out = {
        "wide": [(float(a - 40 * b), float(a + 40 * b)) for a, b in zip(c, s)],
        "cut-first": [(float(c[0] - 0.4 * s[0]), float(c[0] + 40 * s[0]))] + [(float(a - 40 * b), float(a + 40 * b)) for a, b in zip(c[1:], s[1:])],
        "cut-all": [(float(a - 1.1 * b), float(a + 0.7 * b)) for a, b in zip(c, s)],
        "one-sided": [(None, float(a + 0.3 * b)) if i % 2 == 0 else (float(a - 0.5 * b), None) for i, (a, b) in enumerate(zip(c, s))],
        "infinite": [(-np.inf, np.inf) if i % 2 == 0 else (None, np.inf) for i in range(k)],
        "touching": [(float(c[0]), None)] + [(None, None)] * (k - 1),
        "above": [(float(c[0] + 0.5 * s[0]), None)] + [(None, None)] * (k - 1),
        "below": [(None, None)] * (k - 1) + [(None, float(c[-1] - 0.4 * s[-1]))],
        "inside": [(float(a - 0.2 * b), float(a + 0.2 * b)) for a, b in zip(c, s)],
    }
    return out


def call(m, **kw):
    with contextlib.redirect_stderr(io.StringIO()):
        return find_contour(m, **kw)


def same(a, b):
    return (np.array_equal(a.contour_points, b.contour_points) and np.array_equal(a.from_radial, b.from_radial) and a.nll_min == b.nll_min
            and np.array_equal(a.theta_mle, b.theta_mle) and a.threshold == b.threshold)


def verify(rec, m, oracle, r, cl, ctx, given, n_radial, allowed, glob, profiled, inside=True):
    k = len(oracle.contour)
    tol = 2e-4 if profiled else 2e-6
    pts, fr = np.asarray(r.contour_points), np.asarray(r.from_radial)
    rec.check(pts.ndim == 2 and pts.shape[1] == k and fr.shape == (len(pts),) and fr.dtype == bool, "shapes", lambda: f"{ctx}: {pts.shape}, {fr.shape} {fr.dtype}")
    rec.check(r.dof == k and r.confidence_level == cl and np.isclose(r.delta, chi2.ppf(cl, k), rtol=1e-9), "quantile", lambda: f"{ctx}: dof {r.dof}, delta {r.delta}, expected {chi2.ppf(cl, k)}")
    rec.check(np.isclose(r.threshold, r.nll_min + 0.5 * chi2.ppf(cl, k), rtol=0, atol=1e-9 * max(1, abs(r.threshold))), "threshold", lambda: f"{ctx}: threshold {r.threshold}, minimum {r.nll_min}")
    names = m.backend.config().parameter_names
    want = None if names is None else [names[i] for i in oracle.contour]
    rec.check(r.parameter_names == want, "names", lambda: f"{ctx}: {r.parameter_names}, expected {want}")
    at = oracle.nll(r.theta_mle)
    rec.check(np.shape(r.theta_mle) == (k,) and abs(at - r.nll_min) < tol, "best-fit", lambda: f"{ctx}: NLL {at} at {r.theta_mle}, reported {r.nll_min}")
    if glob is not None:
        rec.check(r.nll_min < glob + 10 * tol and (not inside or r.nll_min > glob - 10 * tol), "minimum", lambda: f"{ctx}: {r.nll_min}, smallest NLL found {glob}")
    keys = [tuple(p) for p in pts]
    step = 1 if not profiled else max(1, len(pts) // 25)
    for p in pts[::step]:
        v = oracle.nll(p)
        if profiled and abs(v - r.threshold) >= tol and oracle.on_local_profile(p, r.threshold, tol):
            rec.fail(f"profile-in-local-minimum/{oracle.name}/{'-'.join(map(str, oracle.contour))}", f"{ctx}: NLL {v} at {p.tolist()} with the remaining parameters at their global minimum, contour at {r.threshold}")
            continue
        rec.check(abs(v - r.threshold) < tol, "not-on-contour", lambda: f"{ctx}: NLL {v} at {p.tolist()}, contour at {r.threshold} (minimum {r.nll_min})")
    eff = given if given is not None else [oracle.bounds[i] for i in oracle.contour]
    for p in pts:
        ok = all(level(lo) - 1e-8 * max(1, abs(x)) <= x <= upper(hi) + 1e-8 * max(1, abs(x)) for x, (lo, hi) in zip(p, eff))
        rec.check(ok, "outside-bounds", lambda: f"{ctx}: point {p.tolist()} outside {eff}")
    order = np.flatnonzero(fr)
    rec.check(len(order) == 0 or order[-1] == len(order) - 1, "mask", lambda: f"{ctx}: {fr}")
    if k == 1:
        rec.check(fr.all(), "one-parameter", lambda: f"{ctx}: points between isolated points")
    if allowed is not None:
        rec.check(int(fr.sum()) in allowed, "radial-count", lambda: f"{ctx}: {int(fr.sum())} radial points of {n_radial} directions")
    rec.step(len(pts) + 1)
    rec.outcome(len(pts), int(fr.sum()))
    return keys


def components(oracle, r, lo, hi):
    """Intervals below the threshold of a one-parameter model, each with its end points inside of the range."""
    x = np.linspace(lo, hi, 4001)
    below = np.array([oracle.nll([v]) < r.threshold for v in x])
    edges = np.flatnonzero(np.diff(below.astype(int)))
    out, cur = [], []
    for e in edges:
        if below[e + 1]:
            cur = [x[e]]
        else:
            out.append([*cur, x[e]])
            cur = []
    if cur:
        out.append(cur)
    return out, x[1] - x[0]


def run(case, rec):
    name, poi = case["model"], case["poi"]
    m, ref = make(name)
    cfg = m.backend.config()
    contour = sorted(i for i in (poi if poi is not None else range(ref.npar)) if i != ref.poi)
    oracle = Oracle(ref, contour, cfg.suggested_bounds)
    oracle.name = name
    profiled = bool(oracle.rest)
    if case.get("bad"):
        return run_bad(m, contour, rec)
    glob = oracle.minimum()
    base = call(m, confidence_level=0.9, poi_indices=poi, n_radial=16, n_hmc_chains=2, n_hmc_steps=4, random_seed=11, n_jobs=1, n_multistart=8, n_gap_candidates=50)
    extent = np.ptp(base.contour_points, axis=0) / 2 if len(base.contour_points) > 1 else np.ones(len(contour))
    extent = np.where(extent > 0, extent, 1.0)
    kinds = {"none": None, **boxes(base.theta_mle, extent, None)}
    full = all(b == (None, None) or (level(b[0]) < -50 and upper(b[1]) > 50) for b in (oracle.bounds[i] for i in contour))
    disjoint = name.startswith("no-eft")
    for kind in case["kinds"]:
        given = kinds[kind]
        eff = given if given is not None else [oracle.bounds[i] for i in contour]
        # bounds of the caller replace those of the model
        beyond = given is not None and any(level(g[0]) < level(oracle.bounds[i][0]) or upper(g[1]) > upper(oracle.bounds[i][1]) for i, g in zip(contour, given))
        here = min(glob, oracle.minimum(given)) if beyond and not disjoint else glob
        for cl, seed, step, passes in [(c, s, *w) for c in case["cl"] for s in case["seeds"] for w in case["walks"]]:
            n = 10
            kw = dict(confidence_level=cl, poi_indices=list(poi) if poi is not None else None, n_radial=n, n_hmc_chains=3, n_hmc_steps=case["n"], hmc_step_size=step, n_gap_candidates=60,
                      random_seed=seed, n_jobs=1, bounds=None if given is None else list(given), n_coverage_passes=passes, n_multistart=8)
            ctx = f"{name}, contour of {poi}, bounds {kind}, level {cl}, seed {seed}, step {step}, {passes} passes"
            r = call(m, **kw)
            inside = given is None or kind in ("wide", "infinite") or not disjoint
            allowed = None
            if not disjoint and (kind in ("wide", "infinite") or (kind == "none" and full)):
                allowed = range(n, 30 * n + 1, n)  # every direction of every start that was kept
            verify(rec, m, oracle, r, cl, ctx, given, n, allowed, here, profiled, inside)
            if kind == "cut-first" and not disjoint and len(contour) > 1:
                rec.check(len(r.contour_points) > 0, "nothing-found", ctx)
            if len(contour) == 1:
                lo, hi = max(level(eff[0][0]), base.theta_mle[0] - 30 * extent[0], -50), min(upper(eff[0][1]), base.theta_mle[0] + 30 * extent[0], 50)
                if not profiled and lo < hi and np.all(np.isfinite([level(eff[0][0]), upper(eff[0][1])])):  # starting points are drawn over all of it
                    comp, w = components(oracle, r, lo, hi)
                    for c in comp:
                        rec.check(any(abs(p[0] - e) <= 2 * w for p in r.contour_points for e in c), "component-missed", lambda: f"{ctx}: no point on the boundary {c} of a part of the region: {r.contour_points.tolist()}")
            rec.trace()
            rec.state(name, poi, kind, cl, seed, step, passes)
            if case.get("repeat"):
                again = call(make(name)[0], **kw)
                rec.check(same(r, again), "not-reproducible", lambda: f"{ctx}: a second call gives {len(again.contour_points)} points instead of {len(r.contour_points)}")
                for jobs in (0, 2, 3):
                    kw["n_jobs"] = jobs
                    other = call(m, **kw)
                    get_reusable_executor().shutdown(wait=True)
                    rec.check(same(r, other), "depends-on-workers", lambda: f"{ctx}: {jobs} workers give different points")
                    rec.trace()
    rec.sample(f"{name} {poi}: {len(base.contour_points)} points around {base.theta_mle}")


def run_bad(m, contour, rec):
    for kw in ({"confidence_level": 0.0}, {"confidence_level": 1.0}, {"confidence_level": -0.1}, {"confidence_level": 1.5}, {"poi_indices": []}, {"poi_indices": [m.backend.config().poi_index]},
               {"bounds": []}, {"bounds": [(0.0, 1.0)] * (len(contour) + 1)}, {"bounds": [(0.0, 1.0)] * (len(contour) - 1)}):
        try:
            r = call(m, n_radial=4, n_hmc_chains=1, n_hmc_steps=1, n_jobs=1, random_seed=1, **kw)
            rec.fail("accepted", f"{kw}: {r}")
        except ValueError:
            rec.step()
            rec.trace()
        rec.state("bad", str(kw), m.backend.name)


def subsets(npar, poi):
    other = [i for i in range(npar) if i != poi]
    out = [None]
    for r in range(1, len(other) + 1):
        for c in itertools.combinations(other, r):
            out.append(list(c))
            if r > 1:
                out.append(list(c)[::-1])
    out.append([other[0], poi])
    return out


def cases(tier):
    thorough = tier == "thorough"
    out = []
    allkinds = ["none", "wide", "cut-first", "cut-all", "one-sided", "infinite", "touching", "above", "below", "inside"]
    for name in [*SPECS, "shifted"]:
        npar = 3 if name == "shifted" else zoo.Ref(SPECS[name]).npar
        pois = PROFILED.get(name) or subsets(npar, 1 if name == "shifted" else 0)
        for poi in pois:
            prof = poi is not None and len([i for i in poi if i != (1 if name == "shifted" else 0)]) < npar - 1
            slow = prof and name != "shifted"
            cl = [0.5, 0.6827, 0.9, 0.95, 0.997] if thorough else ([0.6827, 0.95] if slow else [0.6827, 0.95, 0.997])
            for kinds in [[k] for k in allkinds]:
                if thorough:
                    walks = [(s, p) for s in (0.01, 0.05, 0.8, 5.0) for p in ((2,) if slow else (1, 2, 3))]
                else:
                    if poi is not None and (poi != sorted(poi) or (poi == sorted(poi) and not prof)) and kinds[0] not in ("none", "cut-all", "below"):
                        continue
                    walks = [(0.05, 2)] if slow else [(0.05, 2), (5.0, 1)]
                out.append({"model": name, "poi": poi, "kinds": kinds, "cl": cl, "seeds": [1, 2] if thorough else [1], "walks": walks, "n": 30 if thorough else 12})
        first = pois[0]
        out.append({"model": name, "poi": first, "kinds": ["none", "cut-all"], "cl": [0.9], "seeds": [5], "walks": [(0.05, 2)], "n": 10, "repeat": True})
        out.append({"model": name, "poi": None, "bad": True})
    return out


def weight(case):
    return (20 if case["model"][:2] in ("ub", "cb") else 10 if case["poi"] is not None else 1) * len(case.get("kinds", []))
