"""H05: chi-square intervals against the exact solutions, on analytic likelihoods (one and two wells) and on real models."""
import itertools

import numpy as np

import spey
from scipy.stats import chi2
from mc import backends as bk, zoo
from mc.stub import Stub

BOUNDS = {
    "quick": "10 positions x 6 widths x 6 shapes x 4 levels x 3 expectations x 3 limit types x sign option; crossings exactly on scan points; 150 two-well curves x 2 reported minima x 3 "
             "limit types x 3 levels; 27 real models incl. nuisance parameters",
    "thorough": "as quick with 7 levels, more scan densities, 600 two-well curves and all models",
}
ASSUMPTIONS = ["crossings closer than three scan steps to one another are not required to be resolved"]


class Curve:
    """NLL with a known minimum."""

    def __init__(self, f, m, span, reported=None):
        self.f, self.m, self.span = f, m, span
        self.reported = m if reported is None else reported

    def __call__(self, x):
        return float(self.f(x))

    def best(self, negative):
        m = self.reported if negative else max(self.reported, 0.0)
        return m, self(m)


SHAPES = {
    "parabola": lambda d: 0.5 * d * d,
    "skew-right": lambda d: 0.5 * (d / (1.7 if d > 0 else 0.8)) ** 2,
    "skew-left": lambda d: 0.5 * (d / (0.6 if d > 0 else 1.9)) ** 2,
    "quartic": lambda d: 0.02 * d**4 + 0.1 * d * d,
    "steep": lambda d: np.cosh(min(abs(d), 300)) - 1.0,
    "heavy": lambda d: 2.0 * np.log1p(0.25 * d * d),
}


def solve(f, a, b):
    """Root of f between a (f < 0) and b (f > 0)."""
    for _ in range(200):
        m = 0.5 * (a + b)
        if m in (a, b):
            break
        if f(m) < 0:
            a = m
        else:
            b = m
    return 0.5 * (a + b)


def make(curves, sigma=None):
    if sigma is None:
        return Stub(lambda e: curves[e], lambda e, t: curves[e])

    class WithHessian(Stub):
        def sigma_mu_from_hessian(self, poi_test, expected="observed", **kw):
            return sigma
    return WithHessian(lambda e: curves[e], lambda e, t: curves[e])


def run_convex(case, rec):
    m0, w = case["m"], case["w"]
    shape = SHAPES[case["shape"]]
    deep = case["deep"]

    def curve(shift, scale):
        c, s = m0 + shift * w, w * scale
        return Curve(lambda x: 3.0 + shape((x - c) / s), c, s)
    curves = {"observed": curve(0, 1), "apriori": curve(1.5, 1.2), "aposteriori": curve(-0.8, 0.9)}
    levels = [0.1, 0.5, 0.68, 0.9, 0.95, 0.99, 0.9999] if deep else [0.5, 0.68, 0.95, 0.9999]
    opts = [{}, {"n_scan": 3}, {"n_scan": 121, "n_multistart": 9}, {"n_scan": 30}] if deep else [{}, {"n_scan": 40}]
    for cl, e, side, neg in itertools.product(levels, curves, ("two-sided", "left", "right"), (None, False, True)):
        c = curves[e]
        thr = chi2.isf(1 - cl, df=1)
        m = make(curves, case["sigma"] * c.span if case["sigma"] else None)
        free = bool(neg) or side != "right"
        at = c.m if free else max(c.m, 0.0)
        base = c(at)
        f = lambda x: 2 * (c(x) - base) - thr  # noqa: E731
        want = []
        if side != "right":
            want.append(solve(f, at, at - 1e4 * c.span))
        if side != "left":
            want.append(solve(f, at, at + 1e4 * c.span))
        if any(abs(x - at) < 1e-6 * c.span for x in want):
            continue  # limit indistinguishable from the best fit
        for o in opts:
            got = m.chi2_test(expected=e, confidence_level=cl, limit_type=side, allow_negative_signal=neg, **o)
            rec.step()
            ok = len(got) == len(want) and all(abs(x - y) <= 3e-4 * abs(y) + 1e-6 * c.span for x, y in zip(got, want))
            rec.check(ok, "interval", lambda: f"{case['shape']} at {c.m} width {c.span} CL {cl} {e} {side} negative={neg} {o}: {got}, solutions {want}")
            if side == "two-sided" and ok:
                rec.check(got[0] <= at <= got[1], "sides", f"interval {got} does not contain the best fit {at}")
            rec.outcome([round(float(x), 5) for x in got])
        rec.check(all(x[1] == e for x in m.calls), "expectation", lambda: f"{e}: evaluated {m.calls[:3]}")
        rec.state(case["m"], w, case["shape"], cl, e, side, neg)
        rec.trace()
    rec.sample(f"{case['shape']} at {m0}, width {w}: {len(levels)} levels x 3 expectations x 3 limit types x sign options")


def run_wells(case, rec):
    """NLL with two wells: every crossing inside the scanned range is found, relative to the deeper one."""
    x0, d, ratio, barrier, dep = case["x0"], case["d"], case["ratio"], case["barrier"], case["dep"]

    def f(x):
        u = (x - x0) / d  # wells at u = -1, 1
        q = barrier * (u * u - 1) ** 2
        return q + dep * 0.5 * (1 + np.tanh(3 * u)) + (ratio * max(u - 1, 0) ** 2)
    g = np.linspace(x0 - 3 * d, x0 + 3 * d, 60001)
    v = np.array([f(x) for x in g])
    k = int(np.argmin(v))
    from scipy.optimize import minimize_scalar
    res = minimize_scalar(f, bounds=(g[k - 1], g[k + 1]), method="bounded", options={"xatol": 1e-12})
    gmin, gval = float(res.x), float(res.fun)
    half = g < x0
    wells = [float(g[half][np.argmin(v[half])]), float(g[~half][np.argmin(v[~half])])]
    for rep in (0, 1):
        if "n" in case and abs(wells[rep] - gmin) > 0.3 * d:
            continue  # wells far narrower than the steps of the multistart
        c = Curve(f, gmin, d, reported=gmin if abs(wells[rep] - gmin) < 0.3 * d else wells[rep])
        start = c.reported
        curves = {e: c for e in ("observed", "apriori", "aposteriori")}
        sigma = 0.2 * d
        m = make(curves, sigma)
        span = max(6 * sigma, 3.0)
        lo, hi = start - span, start + span
        for cl, n in itertools.product((0.5, 0.9, 0.99) if not case["deep"] else (0.3, 0.5, 0.68, 0.9, 0.95, 0.99), case.get("n", (401, 150) if case["deep"] else (301,))):
            thr = chi2.isf(1 - cl, df=1)
            h = lambda x: 2 * (f(x) - gval) - thr  # noqa: E731
            z = 2 * (v - gval) - thr
            roots = [solve(h, *((g[i], g[i + 1]) if z[i] < 0 else (g[i + 1], g[i]))) for i in range(len(g) - 1) if (z[i] < 0) != (z[i + 1] < 0)]
            step = (hi - lo) / n
            scan = [lo, hi]
            resolved = all(b - a > 3 * step for a, b in zip(roots, roots[1:])) and all(lo + step < r < hi - step for r in roots)
            if not resolved:
                rec.note("skipped-unresolved")
                continue
            for side in ("two-sided", "left", "right"):
                got = m.chi2_test(confidence_level=cl, limit_type=side, allow_negative_signal=True, n_scan=n, n_multistart=48)
                want = [r for r in roots if side == "two-sided" or (r < gmin) == (side == "left")]
                rec.step()
                rec.check(len(got) == len(want) and all(abs(x - y) <= 3e-4 * abs(y) + 1e-5 * d for x, y in zip(got, want)), "wells",
                          lambda: f"{case} reported minimum {start} CL {cl} {side} n_scan={n} range {scan}: {got}, crossings {want}")
                rec.outcome(len(got), [round(float(x), 3) for x in got])
                rec.state(x0, d, ratio, barrier, dep, rep, cl, n, side)
                rec.trace()


def run_exact(case, rec):
    """The threshold is met exactly at a point of the scan: the crossing is still found, once."""
    m0, off, cl = case["m"], case["off"], case["cl"]
    thr = chi2.isf(1 - cl, df=1)
    c = Curve(lambda x: 0.5 * thr * ((x - m0) / off) ** 2, m0, off)  # exactly half the threshold at m0 + off and m0 - off
    m = make({e: c for e in ("observed", "apriori", "aposteriori")}, 1.0)  # scanned from m0 - 6 to m0 + 6
    for side, n, neg in itertools.product(("two-sided", "left", "right"), (121, 25, 13, 14, 49), (False, True)):
        if side == "right" and not neg and m0 < 0:
            continue
        got = m.chi2_test(confidence_level=cl, limit_type=side, n_scan=n, allow_negative_signal=neg)
        want = [m0 - off] * (side != "right") + [m0 + off] * (side != "left")
        rec.step()
        rec.check(len(got) == len(want) and np.allclose(got, want, rtol=3e-4, atol=1e-6), "exact", lambda: f"crossings exactly at {want}, CL {cl} {side} n_scan={n}: {got}")
        rec.outcome(side, [round(float(x), 3) for x in got])
        rec.state("exact", m0, off, cl, side, n, neg)
        rec.trace()


# nuisance parameters can move ten standard deviations without emptying a bin
NUISANCE = {
    "counting": None,
    "ub2": zoo.spec(zoo.UB, [4.0, 3.0], [30.0, 20.0], [33, 18], absolute_uncertainties=[1.5, 0.7]),
    "ub2-norm": zoo.spec(zoo.UB, [4.0, 3.0], [30.0, 20.0], [25, 28], absolute_uncertainties=[1.5, 0.7], modifiers=[{"type": "normalization", "name": "lumi", "uncertainties": [0.1, 0.2]}]),
    "cb2": zoo.spec(zoo.CB, [4.0, 3.0], [30.0, 20.0], [33, 25], covariance_matrix=[[1.2, 0.3], [0.3, 0.5]]),
    "tm2": zoo.spec(zoo.TM, [4.0, 3.0], [30.0, 20.0], [28, 25], covariance_matrix=[[1.2, 0.3], [0.3, 0.5]], third_moment=[0.1, 0.05]),
    "es2": zoo.spec(zoo.ES, [4.0, 3.0], [30.0, 20.0], [33, 18], correlation_matrix=[[1.0, 0.3], [0.3, 1.0]], absolute_uncertainty_envelops=[[1.2, 1.2], [0.5, 0.5]]),
}


def run_model(case, rec):
    name = case["name"]
    m = zoo.build(zoo.catalogue()[name])
    cfg = m.backend.config()
    for cl, e in itertools.product((0.68, 0.95), ("observed", "apriori")):
        thr = chi2.isf(1 - cl, df=1)
        for side in ("two-sided", "right", "left"):
            neg = side != "right"
            muhat, best = m.maximize_likelihood(expected=e, allow_negative_signal=neg)
            got = m.chi2_test(expected=e, confidence_level=cl, limit_type=side)
            rec.step()
            lab = f"{name} {e} CL {cl} {side}: {got}"
            f = lambda x: 2 * (float(m.likelihood(float(x), expected=e)) - best) - thr  # noqa: E731
            # below the minimum POI some bins may be empty: the likelihood need not rise continuously there
            inside = [x for x in got if x > cfg.minimum_poi]
            for x in inside:
                rec.check(abs(f(x)) <= 0.02, "level", f"{lab}: chi-square minus threshold {f(x)} at {x}")
            rec.check(list(got) == sorted(got), "order", lab)
            if side != "left":
                rec.check(len(got) >= 1 and got[-1] >= muhat - 1e-6, "right", f"{lab}: best fit {muhat}")
                rec.check(f(0.5 * (got[-1] + muhat)) < 0.02 or abs(got[-1] - muhat) < 1e-6, "inside", f"{lab}: between best fit {muhat} and limit above threshold")
            if side != "right":
                rec.check(len(got) >= 1 and got[0] <= muhat + 1e-6, "left", f"{lab}: best fit {muhat}")
            rec.outcome([round(float(x), 4) for x in got])
            rec.state(name, cl, e, side)
            rec.trace()


def counting():
    class Back(bk.Counting):
        get_objective_function = bk.objective_with_gradient
    return spey.StatisticalModel(Back([2.0, 4.0], [20.0, 30.0], [25.0, 28.0], 0.07), "counting")


def run_nuisance(case, rec):
    name = case["name"]
    m = counting() if name == "counting" else zoo.build(NUISANCE[name])
    cfg = m.backend.config()
    names = cfg.parameter_names
    for i in range(1, cfg.npar):
        for par in [i] + ([names[i]] if names else []):
            for poi in (1.0, 0.4, None):
                kw = {} if poi is None else {"fixed_poi_value": poi}
                hat, best = m.maximize_likelihood(poi_indices=[par], **kw)
                hat = hat[par]
                nll = lambda x: float(m.likelihood({i: float(x)} if poi is None else {0: poi, i: float(x)}))  # noqa: E731
                for cl, side in itertools.product((0.68, 0.95, 1 - 1e-9), ("two-sided", "left", "right")):
                    thr = chi2.isf(1 - cl, df=1)
                    got = m.chi2_test(parameter=par, poi_value=poi, confidence_level=cl, limit_type=side)
                    rec.step()
                    lab = f"{name} parameter {par!r} poi {poi} CL {cl} {side}: {got} (best {hat})"
                    lo, hi = cfg.suggested_bounds[i]
                    ends = [x for x in (lo, hi) if x is not None]
                    for x in got:
                        if any(abs(x - y) < 1e-9 for y in ends):
                            rec.check(2 * (nll(x) - best) - thr <= 0.02, "level", f"{lab}: bound returned although the threshold is crossed")
                        else:
                            rec.check(abs(2 * (nll(x) - best) - thr) <= 0.02, "level", f"{lab}: chi-square minus threshold {2 * (nll(x) - best) - thr} at {x}")
                    if side != "left":
                        rec.check(got[-1] >= hat - 1e-6, "right", lab)
                    if side != "right":
                        rec.check(got[0] <= hat + 1e-6, "left", lab)
                    rec.check(len(got) == (2 if side == "two-sided" else 1), "number", lab)
                    rec.state(name, par, poi, cl, side)
                    rec.trace()


def run_bad(case, rec):
    po, ub = zoo.build(zoo.catalogue()["po1"]), zoo.build(zoo.catalogue()["ub2"])
    for m, kw, exc in ((po, {"parameter": 1}, ValueError), (po, {"parameter": 0}, ValueError), (ub, {"parameter": 0}, ValueError), (ub, {"parameter": 3}, ValueError),
                       (ub, {"parameter": 17}, ValueError), (ub, {"parameter": "nope"}, ValueError), (ub, {"confidence_level": 1.5}, AssertionError),
                       (ub, {"confidence_level": -0.1}, AssertionError), (ub, {"limit_type": "both"}, AssertionError)):
        try:
            got = m.chi2_test(**kw)
        except exc:
            rec.trace()
        except Exception as e:  # noqa: BLE001
            rec.fail("bad-argument", f"{kw}: {e!r}")
        else:
            rec.fail("bad-argument", f"{kw} accepted: {got}")
        rec.state(str(kw))
        rec.step()


REAL = ["po1", "po1-over", "po2", "po3", "no1", "no2", "mn2", "mn3", "ub1", "ub2", "ub3", "ub2-norm", "ub2-asym", "cb1", "cb2", "cb3", "tm1", "tm2", "es1", "es2", "es2-asym"]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for i, m in enumerate([-40.0, -3.0, -0.4, -1e-3, 0.0, 1e-3, 0.7, 1.0, 6.0, 250.0]):
        for j, w in enumerate([0.05, 0.5, 1.0, 4.0, 30.0, 300.0]):
            for k, s in enumerate(SHAPES):
                if deep or (i + j + k) % 3 == 0:
                    out.append({"t": "convex", "m": m, "w": w, "shape": s, "sigma": [None, 1.0, 0.2, 3.0][(i + j) % 4], "deep": deep})
    for x0, d, ratio, barrier, dep in itertools.product((-1.0, 0.3, 2.0), (0.6, 1.2), (0.0, 2.0), (1.0, 4.0, 9.0), (-1.0, -0.3, 0.2, 0.8) if not deep else (-2, -1.0, -0.3, -0.1, 0.1, 0.2, 0.8, 1.6)):
        out.append({"t": "wells", "x0": x0, "d": d, "ratio": ratio, "barrier": barrier, "dep": dep, "deep": deep})
    # wells resolved by fine scans only
    for x0, d, ratio, barrier, dep in itertools.product((0.3, 2.0), (0.02, 0.06), (0.0, 2.0), (4.0, 9.0), (-1.0, -0.3, 0.2, 0.8)):
        out.append({"t": "wells", "x0": x0, "d": d, "ratio": ratio, "barrier": barrier, "dep": dep, "deep": deep, "n": [3001]})
    out += [{"t": "nuisance", "name": k} for k in NUISANCE]
    out += [{"t": "model", "name": k} for k in (zoo.catalogue() if deep else REAL) if not k.endswith("-sig")]
    out += [{"t": "exact", "m": m, "off": off, "cl": cl} for m in (0.0, -2.0, 5.0) for off in (1.0, 3.0, 4.5, 6.0) for cl in (0.68, 0.95)]
    return out + [{"t": "bad"}]


def weight(case):
    return {"model": 10, "nuisance": 100}.get(case["t"], 1)


def run(case, rec):
    {"convex": run_convex, "nuisance": run_nuisance, "wells": run_wells, "exact": run_exact, "model": run_model, "bad": run_bad}[case["t"]](case, rec)
