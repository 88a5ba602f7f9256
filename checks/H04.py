"""H04: upper limits against the exclusion confidence level, on analytic likelihoods and on all default backends."""
import itertools
import math

import numpy as np

import spey
from mc import zoo
from mc.stub import Parabola, Stub
from checks.H02 import levels
from spey.hypothesis_testing.upper_limits import find_poi_upper_limit
from spey.system.exceptions import UnknownCrossSection

BOUNDS = {
    "quick": "10 observed x 5 Asimov curves x 4 confidence levels x 5 ways of giving initial values x 8 expectation/p-value forms; 53 models x 3 expectations x 2 levels",
    "thorough": "as quick with 11 initial values, 9 confidence levels and 53 models x 5 levels x all p-value forms",
}
ASSUMPTIONS = ["limits below 1e-10 and above 1e5 are outside the scanned range", "limits are required to 2e-4 relative on analytic likelihoods and to the accuracy "
               "of the fits (CL within 3e-3) on real models"]
OBS = [(-2.5, 1.0), (-0.7, 1.0), (0.0, 1.0), (0.4, 0.9), (1.3, 1.1), (3.0, 1.0), (-0.02, 0.02), (0.01, 0.015), (20.0, 30.0), (-300.0, 900.0)]
FORMS = [("observed", "nominal"), ("observed", "2sigma"), ("apriori", "nominal"), ("apriori", "1sigma"), ("apriori", "2sigma"),
         ("aposteriori", "nominal"), ("aposteriori", "1sigma"), ("aposteriori", "2sigma")]
INIT = [(1.0, 1.0), (None, None), (0.01, 50.0), (30.0, 40.0), (1e-3, 1e-2)]
MORE = [(None, 1.0), (1.0, None), (5.0, 1.0), (1e-8, 1e4), (100.0, 0.1), (2, 3)]


class Shelf:
    """A likelihood that a signal strength below ``c`` leaves alone (NLL flat up to there)."""

    def __init__(self, c, m, s=1.0, base=0.0):
        self.c, self.p = c, Parabola(m, s, base)

    def __call__(self, mu):
        return self.p(max(mu - self.c, 0.0))

    def best(self, negative):
        mu = self.p.m + self.c if self.p.m > 0 else 0.0
        return mu, self(mu)


def run_shelf(case, rec):
    """The Asimov statistic vanishes below c: not testable there, never excluded."""
    c = case["c"]
    for (om, oc), w, (e, form), (low, hig), cl in itertools.product(
        ((-0.7, c), (0.0, c), (0.4, c), (0.4, 0.0), (0.1, 0.5 * c)), (1.0, 0.7), FORMS, ((1.0, 1.0), (0.3 * c, c), (c, 1.5 * c), (c + 3.0, c + 4.0), (None, None)), (0.9, 0.95)
    ):
        o, a = Shelf(oc, om, 1.0, 2.0), Shelf(c, 0.0, w)
        got = Stub(lambda x: o, lambda x, t: a).poi_upper_limit(expected=e, confidence_level=cl, low_init=low, hig_init=hig, expected_pvalue=form)
        rec.step()
        for x, k in zip(np.atleast_1d(got), index(e, form)):
            lo, hi = (cl_at(o, a, float(x) * f, e, k) for f in (1 - 3e-4, 1 + 3e-4))
            rec.check(np.isfinite(x) and lo <= cl <= hi, "limit", f"untestable below {c}, observed {om} from {oc} width {w} {e} {form} index {k} CL {cl} init {(low, hig)}: {x}, level there {lo} .. {hi}")
            rec.outcome(round(float(x), 6))
        rec.state(c, om, oc, w, e, form, low, cl)
        rec.trace()


def index(e, form):
    if str(e) == "observed" or form == "nominal":
        return [0 if str(e) == "observed" else 2]
    return list(range(1, 4)) if form == "1sigma" else list(range(5))


def cl_at(o, a, mu, e, k):
    obs, exp = levels(o, a, mu, False, "asymptotic")
    return obs if e == "observed" else exp[k]


def grid(scale):
    g = np.concatenate([np.logspace(-10, 5, 100), scale * np.logspace(-2, 2, 150)])
    return np.sort(g[(g >= 1e-10) & (g <= 1e5)]).tolist()


def root(f, scale, v=None, cl=0.0):
    """All solutions of f(mu) = 0 between 1e-10 and 1e5, on a fine logarithmic grid."""
    g = grid(scale)
    v = [f(x) for x in g] if v is None else [x - cl for x in v]
    out = []
    for x0, x1, v0, v1 in zip(g, g[1:], v, v[1:]):
        if (v0 < 0) != (v1 < 0):
            for _ in range(40):
                m = 0.5 * (x0 + x1)
                if (f(m) < 0) == (v0 < 0):
                    x0 = m
                else:
                    x1 = m
            out.append(0.5 * (x0 + x1))
    return out


def run_curve(case, rec):
    om, os = case["o"]
    o = Parabola(om, os, 2.0)
    cls = [0.3, 0.5, 0.68, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9999] if case["deep"] else [0.5, 0.9, 0.95, 0.99]
    for w in (case["w"],):
        a = Parabola(0.0, os * w, 1.0)
        solutions = {}
        table = [levels(o, a, x, False, "asymptotic") for x in grid(os)]
        for cl, (e, form) in itertools.product(cls, FORMS):
            want = []
            for k in index(e, form):
                if (cl, e, k) not in solutions:
                    solutions[cl, e, k] = root(lambda x: cl_at(o, a, x, e, k) - cl, os,
                                                    [t[0] if e == "observed" else t[1][k] for t in table], cl)
                want.append(solutions[cl, e, k])
            for low, hig in INIT + MORE if case["deep"] else INIT if form == "nominal" else INIT[:2]:
                m = Stub(lambda x: o, lambda x, t: a)
                got = m.poi_upper_limit(expected=e, confidence_level=cl, low_init=low, hig_init=hig, expected_pvalue=form)
                rec.step()
                values = list(np.atleast_1d(got))
                shape = isinstance(got, list) == (len(want) > 1) and len(values) == len(want)
                rec.check(shape, "shape", lambda: f"{e} {form}: {got}")
                for x, sol, k in zip(values, want, index(e, form)):
                    lab = f"observed curve {case['o']} Asimov width {w} CL {cl} {e} {form} index {k} init {(low, hig)}"
                    if not sol:
                        rec.check(x == np.inf, "no-limit", f"{lab}: {x}, but nothing reaches the level")
                    else:
                        rec.check(any(abs(x - y) <= 2e-4 * y for y in sol), "limit", f"{lab}: {x}, solutions {sol}")
                    rec.outcome(round(float(x), 6))
                if shape and len(values) > 1:
                    rec.check(all(x <= y * (1 + 1e-3) for x, y in zip(values, values[1:])), "order", f"limits not ascending: {values}")
                rec.check({c[2] for c in m.calls if c[0] in ("asimov", "maximize-asimov")} == {"qtilde"} and all(c[1] == e for c in m.calls),
                          "statistic", lambda: f"{e}: evaluated {m.calls[:4]}")
            rec.state(case["o"], w, cl, e, form)
            rec.trace()
        # the function itself, also with the unbounded statistic
        for cl, e, neg in itertools.product((0.9, 0.95), spey.ExpectationType, (False, True)):
            bo, ba = o.best(neg), a.best(neg)
            got = find_poi_upper_limit(bo, lambda x: -o(x), ba, lambda x: -a(x), e, confidence_level=cl, allow_negative_signal=neg)
            
            def f(x):
                obs, exp = levels(o, a, x, neg, "asymptotic")
                return (obs if e == "observed" else exp[2]) - cl
            sol = root(f, os) if neg else root(f, os, [t[0] if e == "observed" else t[1][2] for t in table], cl)
            rec.step()
            rec.check((not sol and got == np.inf) or any(abs(got - y) <= 2e-4 * y for y in sol), "function", f"find_poi_upper_limit {case['o']} {w} {cl} {e} negative={neg}: {got}, solutions {sol}")
    rec.sample(f"observed curve {case['o']}, Asimov width {case['w']}")


def run_inf(case, rec):
    n = {"nominal": None, "1sigma": 3, "2sigma": 5}
    o, flat = Parabola(0.3, 1.0, 1.0), Parabola(0.0, 1e30, 1.0)
    for alive, a, (e, form) in itertools.product((True, False), (flat, Parabola(0.0, 1.0, 1.0)), FORMS):
        if alive and a is not flat:
            continue
        m = Stub(lambda x: o if a is not flat else flat, lambda x, t: a, alive=alive)
        got = m.poi_upper_limit(expected=e, expected_pvalue=form)
        size = None if e == "observed" else n[form]
        want = np.inf if size is None else [np.inf] * size
        rec.step()
        rec.check(got == want, "infinite", f"alive={alive} {e} {form}: {got}")
        rec.check(alive or not m.calls, "dead", "a dead model was fitted")
        rec.state(alive, e, form, a is flat)
        rec.trace()
    for cl in (-0.1, 1.1, 95):
        try:
            Stub(lambda x: o, lambda x, t: o).poi_upper_limit(confidence_level=cl)
        except AssertionError:
            rec.trace()
        else:
            rec.fail("level", f"confidence level {cl} accepted")
    for xs in (0.7, 12.0, None):
        m = spey.get_backend("default.poisson")(signal_yields=[2.0], background_yields=[3.0], data=[4], **({} if xs is None else {"xsection": xs}))
        for e in spey.ExpectationType:
            if xs is None:
                for f in (lambda: m.excluded_cross_section(e), lambda: m.s95exp, lambda: m.s95obs):
                    try:
                        f()
                    except UnknownCrossSection:
                        rec.trace()
                    else:
                        rec.fail("cross-section", "no error without a cross section")
            else:
                got, want = m.excluded_cross_section(e), m.poi_upper_limit(expected=e) * xs
                rec.check(abs(got - want) <= 1e-9 * want, "cross-section", f"{e}: {got}, limit times cross section {want}")
                rec.trace()
            rec.step()
        if xs:
            rec.check(abs(m.s95obs - xs * m.poi_upper_limit()) < 1e-9 and abs(m.s95exp - xs * m.poi_upper_limit(expected="apriori")) < 1e-9, "cross-section", f"s95: {m.s95obs}, {m.s95exp}")


def run_model(case, rec):
    m = zoo.build(zoo.catalogue()[case["name"]])
    forms = FORMS if case["deep"] else [("observed", "nominal"), ("apriori", "nominal")] + [("aposteriori", "2sigma")] * case["small"]
    for cl, (e, form) in itertools.product((0.5, 0.8, 0.9, 0.95, 0.99) if case["deep"] else (0.9, 0.95), forms):
        for low, hig in ((1.0, 1.0), (None, None)) if cl == 0.95 and form != "2sigma" else ((0.3, 5.0),):
            got = m.poi_upper_limit(expected=e, confidence_level=cl, expected_pvalue=form, low_init=low, hig_init=hig)
            rec.step()
            for x, k in zip(np.atleast_1d(got), index(e, form)):
                lab = f"{case['name']} CL {cl} {e} {form} index {k} init {low}: limit {x}"
                if not rec.check(np.isfinite(x) and x > 0, "limit", lab):
                    continue
                level = lambda mu: float(m.exclusion_confidence_level(mu, expected=e)[k])  # noqa: E731
                at, lo, hi = level(float(x)), level(float(x) * 0.97), level(float(x) * 1.03)
                rec.step(3)
                if case["smooth"]:
                    rec.check(abs(at - cl) <= 3e-3 and lo < cl + 1e-3 and hi > cl - 1e-3, "level", f"{lab}: CL there {at}, just below {lo}, just above {hi}")
                rec.outcome(round(float(x), 4))
            rec.state(case["name"], cl, e, form, low)
            rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = [{"t": "curve", "o": o, "w": w, "deep": deep} for o in OBS for w in (1.0, 0.8, 1.3, 0.5, 2.0)] + [{"t": "inf"}] + [{"t": "shelf", "c": c} for c in (0.05, 0.9, 4.0)]
    return out + [{"t": "model", "name": k, "deep": deep, "small": zoo.Ref(zoo.catalogue()[k]).npar < 3, "smooth": not k.endswith("-sig")} for k in zoo.catalogue()]


def weight(case):
    return 1000 if case["t"] == "curve" else 10 + zoo.Ref(zoo.catalogue()[case["name"]]).npar if case["t"] == "model" else 1


def run(case, rec):
    {"curve": run_curve, "inf": run_inf, "shelf": run_shelf, "model": run_model}[case["t"]](case, rec)
