"""H02: asymptotic p-values, CLs and exclusion confidence levels against the asymptotic formulae."""
import itertools
import math

import numpy as np

import spey
from mc.stub import Parabola, Stub
from checks.H01 import CURVES, delta, oracle
from spey.hypothesis_testing.asymptotic_calculator import compute_asymptotic_confidence_level
from spey.hypothesis_testing.test_statistics import compute_teststatistics
from spey.system.exceptions import AsimovTestStatZero

BOUNDS = {
    "quick": "30 Asimov x 45 observed values x 5 statistic names; exclusion levels for all triples of 9 observed and 9 Asimov curves x 8 POI values x 4 "
             "expectation forms x 2 statistics x 2 calculators; counting experiments n <= 10",
    "thorough": "120 Asimov x 180 observed values; counting experiments n <= 40",
}
ASSUMPTIONS = ["the normal distribution function is 0.5 erfc(-x / sqrt 2)"]


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def oracle_p(sA, d, stat):
    """Observed and expected p-values (arXiv:1007.1727, CLs of arXiv:hep-ex/9902006)."""
    def p(t):
        sb, b = cdf(-sA - t), cdf(-t)
        return sb if stat == "q0" else (sb / b if b > 0 else 0.0)
    return p(d), [p(n) for n in (2, 1, 0, -1, -2)]


def close(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(abs(b), 1e-3)


def run_grid(case, rec):
    deep = case["deep"]
    sA = case["sA"]
    ds = [x / 8 for x in range(-88, 89)] if deep else [x / 4 for x in range(-22, 23)]
    ds += [-40.0, -36.0, 36.0, 40.0, 1e-12, 200.0, -200.0]
    prev = {}
    for d in sorted(ds):
        for stat in ("q", "qmu", "qtilde", "qmutilde", "q0"):
            for c in (float, np.float64):
                got = compute_asymptotic_confidence_level(c(sA), c(d), stat)
                rec.step()
                w, we = oracle_p(sA, d, stat)
                ok = len(got) == 2 and len(got[0]) == 1 and len(got[1]) == 5
                ok = ok and close(got[0][0], w) and all(close(x, y) for x, y in zip(got[1], we))
                rec.check(ok, "pvalue", lambda: f"sqrt(qA)={sA} delta={d} {stat}: {got}, formula {w}, {we}")
            if ok:
                v = [float(got[0][0]), *map(float, got[1])]
                rec.check(all(0 <= x <= 1 + 1e-12 for x in v), "range", f"sqrt(qA)={sA} delta={d} {stat}: {v}")
                rec.check(all(x <= y + 1e-12 for x, y in zip(v[1:], v[2:])), "order", f"expected p-values not ascending: {v}")
                last = prev.get(stat, 2.0)
                if sA <= 5 and abs(d) <= 22:
                    rec.check(v[0] <= last * (1 + 1e-9), "monotone", f"p-value rises with the statistic at sqrt(qA)={sA} delta={d} {stat}")
                    prev[stat] = v[0]
                rec.outcome(stat, round(v[0], 8))
        rec.state(sA, d)
        rec.trace()
    got = compute_asymptotic_confidence_level(sA, 0.3)
    rec.check(close(got[0][0], oracle_p(sA, 0.3, "qtilde")[0]), "default", "default statistic is not the bounded one")
    rec.sample(f"sqrt(qA)={sA}: {len(ds)} values of delta x 5 statistics")


def levels(o, a, mu, neg, calc):
    """Expected (observed level, expected levels)."""
    kind = "q" if neg else "qt"
    bo, ba = o.best(neg), a.best(neg)
    q = oracle(kind, mu, bo[0], -bo[1], lambda x: -o(x))
    if calc == "asymptotic":
        qA = oracle(kind, mu, ba[0], -ba[1], lambda x: -a(x))
        d = delta(kind, q, qA)
        if d is None:
            return 0.0, [0.0] * 5
        obs, exp = oracle_p(math.sqrt(qA), d, kind)
    else:
        # reference statistic: the background-only hypothesis against the best fit
        qb = max(2 * (o(0.0) - (bo[1] if bo[0] >= 0 or neg else o(0.0))), 0.0)
        s, sb = math.sqrt(q), math.sqrt(qb)
        d = sb - s if neg or s <= sb else (qb - q) / (2 * s)
        obs, exp = oracle_p(s, d, kind)
    return 1 - obs, [1 - x for x in exp]


def same_all(got, w, we, tol=1e-8):
    """expected="all" gives the pair of the observed and the five expected levels."""
    return len(got) == 2 and len(got[0]) == 1 and len(got[1]) == 5 and close(got[0][0], w, tol) and all(close(x, y, tol) for x, y in zip(got[1], we))


def run_stub(case, rec):
    """Each expectation type has its own curves: mixing them up is visible."""
    o1, o2, o3 = (CURVES[(case["i"] + k) % len(CURVES)] for k in (0, 2, 5))
    E = spey.ExpectationType
    for j in range(len(CURVES)):
        a1, a2, a3 = (CURVES[(j + k) % len(CURVES)] for k in (0, 1, 4))
        # "all": observed and expected levels of the same (post-fit) curves
        obs = {"observed": o1, "apriori": o2, "aposteriori": o3, "all": o1}
        asi = {"observed": a1, "apriori": a2, "aposteriori": a3, "all": a1}
        shift = {"q": 0.0, "qtilde": 0.25, "q0": 0.5}

        def acurve(e, t):
            a = asi[e]
            return Parabola(a.m + shift[t], a.s, a.base, a.c)
        for mu in (-0.5, 0.0, 0.1, 0.4, 1.0, 1.7, 3.0, 9.0):
            for calc, neg in itertools.product(("asymptotic", "chi_square"), (False, True)):
                for e in (E.observed, E.apriori, E.aposteriori, "observed", "apriori", "aposteriori"):
                    m = Stub(lambda x: obs[x], acurve)
                    got = m.exclusion_confidence_level(mu, expected=e, allow_negative_signal=neg, calculator=calc)
                    rec.step()
                    w, we = levels(obs[str(e)], acurve(str(e), "q" if neg else "qtilde"), mu, neg, calc)
                    want = [w] if str(e) == "observed" else we
                    ok = len(got) == len(want) and all(close(x, y, 1e-8) for x, y in zip(got, want))
                    rec.check(ok, "exclusion", lambda: f"mu={mu} {calc} negative={neg} expected={e}: {got}, formulae {want}")
                    rec.check(all(str(c[1]) == str(e) for c in m.calls), "expectation", lambda: f"expected={e}: evaluated {m.calls}")
                    rec.outcome([round(float(x), 6) for x in got])
                got = Stub(lambda x: obs[x], acurve).exclusion_confidence_level(mu, expected="all", allow_negative_signal=neg, calculator=calc)
                w, we = levels(o1, acurve("all", "q" if neg else "qtilde"), mu, neg, calc)
                rec.step()
                rec.check(same_all(got, w, we), "all", lambda: f"mu={mu} {calc} negative={neg} expected=all: {got}, formulae {(w, we)}")
                rec.state(case["i"], j, mu, calc, neg)
                rec.trace()
        # keyword options reach every likelihood evaluation
        for calc, neg, e in itertools.product(("asymptotic", "chi_square"), (False, True), ("observed", "apriori", "aposteriori")):
            m = Stub(lambda x: obs[x], acurve)
            m.exclusion_confidence_level(0.8, expected=e, allow_negative_signal=neg, calculator=calc, init_pars=[7])
            rec.check(m.calls and all(c[-1].get("init_pars") == [7] for c in m.calls), "options", f"{calc} {e}: options not forwarded: {m.calls}")
        # discovery
        for e in (E.observed, E.apriori, E.aposteriori):
            m = Stub(lambda x: obs[x], acurve)
            m.significance(expected=e, init_pars=[7])
            rec.check(m.calls and all(c[-1].get("init_pars") == [7] for c in m.calls), "options", f"significance {e}: options not forwarded: {m.calls}")
            m = Stub(lambda x: obs[x], acurve)
            sA, s, p, ep = m.significance(expected=e)
            bo, a = obs[str(e)].best(False), acurve(str(e), "q0")
            ba = a.best(False)
            q, qA = oracle("q0", 0, bo[0], -bo[1], lambda x: -obs[str(e)](x)), oracle("q0", 0, ba[0], -ba[1], lambda x: -a(x))
            w, we = oracle_p(math.sqrt(qA), math.sqrt(q) - math.sqrt(qA), "q0")
            rec.step()
            rec.check(close(s, math.sqrt(q)) and close(sA, math.sqrt(qA)) and len(p) == 1 and close(p[0], w, 1e-8) and len(ep) == 5
                      and all(close(x, y, 1e-8) for x, y in zip(ep, we)), "significance", lambda: f"{e}: significance {(sA, s, p, ep)}, formulae {(qA, q, w, we)}")
            rec.check(close(p[0], cdf(-math.sqrt(q)), 1e-8), "discovery-p", f"{e}: p-value {p}, sqrt(q0) {math.sqrt(q)}")


def run_degenerate(case, rec):
    """No separation between the hypotheses: nothing is excluded; undefined p-values exclude nothing."""
    flat = Parabola(0.0, 1e30, 2.0)
    for o in CURVES:
        for mu in (0.0, 0.5, 3.0):
            for e in ("observed", "apriori", "aposteriori"):
                m = Stub(lambda x: o, lambda x, t: flat)
                got = m.exclusion_confidence_level(mu, expected=e)
                w, we = levels(o, flat, mu, False, "asymptotic")
                want = [w] if e == "observed" else we
                rec.step()
                rec.check(len(got) == len(want) and all(close(x, y, 1e-8) for x, y in zip(got, want)), "flat", f"flat Asimov curve, mu={mu} {e}: {got}, expected {want}")
                nan = Parabola(0.0, 1.0, float("nan"))
                m = Stub(lambda x: nan, lambda x, t: CURVES[4])
                got = m.exclusion_confidence_level(mu, expected=e)
                if e == "observed":
                    rec.check(list(got) == [0.0], "nan", f"undefined p-value: {got}")
                    got = m.exclusion_confidence_level(mu, expected="all")
                    rec.check(len(got) == 2 and list(got[0]) == [0.0] and len(got[1]) == 5, "nan", f"undefined p-value, expected=all: {got}")
                rec.state(o.m, o.s, mu, e)
                rec.trace()


def run_count(case, rec):
    """Counting and Gaussian experiments in closed form."""
    for b, s, mu in itertools.product((2.0, 7.5), (2.0, 0.9), (0.3, 1.0, 2.5)):
        for n in range(0, case["n"] + 1):
            if n - b > 9.5 * s:
                continue
            m = spey.get_backend("default.poisson")(signal_yields=[s], background_yields=[b], data=[n])

            def nll(x, k):
                lam = b + x * s
                return lam - k * math.log(lam) + math.lgamma(k + 1)

            class C:
                def __init__(self, k):
                    self.k = k

                def __call__(self, x):
                    return nll(x, self.k)

                def best(self, neg):
                    h = (self.k - b) / s
                    if self.k == 0:
                        h = -b / s
                    h = h if neg else max(h, 0.0)
                    return h, (0.0 if self.k == 0 and neg else nll(h, self.k))
            if n == 0:
                neg_ok = (False,)
            else:
                neg_ok = (False, True)
            for neg in neg_ok:
                for e in ("observed", "apriori"):
                    got = m.exclusion_confidence_level(mu, expected=e, allow_negative_signal=neg)
                    k = n if e == "observed" else b
                    w, we = levels(C(k), C(b), mu, neg, "asymptotic")
                    want = [w] if e == "observed" else we
                    rec.step()
                    rec.check(len(got) == len(want) and all(abs(x - y) <= 5e-3 for x, y in zip(got, want)), "counting",
                              f"n={n} b={b} s={s} mu={mu} negative={neg} {e}: {got}, closed form {want}")
                got = m.exclusion_confidence_level(mu, expected="all", allow_negative_signal=neg)
                w, we = levels(C(n), C(b), mu, neg, "asymptotic")
                rec.check(same_all(got, w, we, 5e-3), "counting", lambda: f"n={n} b={b} s={s} mu={mu} negative={neg} all: {got}, closed form {(w, we)}")
            rec.state("count", b, s, mu, n)
            rec.trace()


def cases(tier):
    deep = tier == "thorough"
    n = 120 if deep else 30
    out = [{"t": "grid", "sA": 6.0 * (k / n) ** 1.5, "deep": deep} for k in range(n)] + [{"t": "grid", "sA": x, "deep": deep} for x in (1e-9, 12.0, 38.0, 60.0)]
    out += [{"t": "stub", "i": i} for i in range(len(CURVES))]
    return out + [{"t": "degenerate"}, {"t": "count", "n": 40 if deep else 10}]


def run(case, rec):
    {"grid": run_grid, "stub": run_stub, "degenerate": run_degenerate, "count": run_count}[case["t"]](case, rec)
