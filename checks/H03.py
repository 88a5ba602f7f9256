"""H03: toy p-values for every small set of toy outcomes, and every requested toy generated and evaluated properly."""
import itertools
import math
from fractions import Fraction

import numpy as np

import spey
from mc import backends as bk
from mc.stub import Parabola, Stub
from checks.H01 import oracle
from spey.hypothesis_testing.toy_calculator import compute_toy_confidence_level

BOUNDS = {
    "quick": "all multisets of up to 4 signal and 4 background outcomes over 4 values x 9 observed values x 5 names; all assignments of 6 likelihood curves to "
             "up to 2+2 toys x POI values x statistics x expectations; all data of 2+2 toys over 4 counts on a counting experiment",
    "thorough": "multisets of up to 6 outcomes over 4 values, all orders up to 4; up to 3+3 toys",
}
ASSUMPTIONS = ["expected values: linear interpolation between order statistics (numpy's 'linear' definition)"]
VALUES = [0.0, 0.5, 1.0, 2.25]
OBS = [-0.1, 0.0, 1e-9, 0.25, 0.5, 0.7, 1.0, 2.25, 3.0]
SIGMAS = [2.0, 1.0, 0.0, -1.0, -2.0]


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def quantile(sample, p):
    v = sorted(sample)
    x = p * (len(v) - 1)
    k = min(int(x), len(v) - 1)
    j = min(k + 1, len(v) - 1)
    return v[k] + (x - k) * (v[j] - v[k])


def pvalue(sb, b, t):
    psb, pb = Fraction(sum(x >= t for x in sb), len(sb)), Fraction(sum(x >= t for x in b), len(b))
    return psb, pb, (psb / pb if pb else Fraction(0))


def oracle_toy(sb, b, t, stat):
    k = 0 if stat == "q0" else 2
    return float(pvalue(sb, b, t)[k]), [float(pvalue(sb, b, quantile(b, cdf(n)))[k]) for n in SIGMAS]



def compare(rec, got, want, label):
    rec.step()
    ok = len(got) == 2 and len(got[0]) == 1 and len(got[1]) == 5
    ok = ok and abs(float(got[0][0]) - want[0]) < 1e-12 and all(abs(float(x) - y) < 1e-12 for x, y in zip(got[1], want[1]))
    rec.check(ok, "toys", lambda: f"{label}: {got}, counting gives {want}")


def run_sets(case, rec):
    b = case["b"]
    for n in range(1, case["n"] + 1):
        for sb in itertools.combinations_with_replacement(VALUES, n):
            for t in OBS:
                for stat in ("qtilde", "q", "qmu", "qmutilde", "q0"):
                    compare(rec, compute_toy_confidence_level(list(sb), list(b), t, stat), oracle_toy(sb, b, t, stat), f"signal toys {sb} background toys {b} observed {t} {stat}")
                rec.outcome(oracle_toy(sb, b, t, "q"))
                rec.state(sb, b, t)
                rec.trace()
            if len(sb) <= case["orders"] and len(b) <= case["orders"]:
                for o1 in set(itertools.permutations(sb)):
                    for o2 in set(itertools.permutations(b)):
                        compare(rec, compute_toy_confidence_level(np.array(o1), np.array(o2), 0.5), oracle_toy(sb, b, 0.5, "qtilde"), f"order {o1} {o2}")
    rec.sample(f"background toys {b}: all signal multisets up to {case['n']}")


BANK = [Parabola(-0.7, 1.0, 2.0), Parabola(0.0, 0.8, 1.0), Parabola(0.45, 1.0, 1.5), Parabola(0.9, 0.7, 3.0), Parabola(1.6, 1.2, 0.5), Parabola(4.0, 1.0, 2.0)]


def statistic(c, mu, neg):
    m, v = c.best(neg)
    return oracle("q" if neg else "qt", mu, m, -v, lambda x: -c(x))


def run_stub(case, rec):
    obs = {"observed": Parabola(0.3, 0.9, 2.2), "apriori": Parabola(0.0, 0.95, 1.2), "aposteriori": Parabola(0.3, 0.9, 2.2), "all": Parabola(0.3, 0.9, 2.2)}
    k = case["n"]
    first = case["first"]
    for rest in itertools.product(range(len(BANK)), repeat=2 * k - 1):
        pick = (first,) + rest
        sig, bkg = pick[:k], pick[k:]
        for mu, neg, e in ((1.0, False, "observed"), (0.5, True, "observed"), (2.0, False, "apriori"), (-0.5, True, "observed"), (-1.0, True, "aposteriori"), (0.7, False, "all")):
            made = []

            def toys(poi, size, exp):
                made.append((poi, size, exp))
                return np.array([[i] for i in (bkg if len(made) > 1 else sig)]) if poi != 0.0 or mu == 0.0 else np.array([[i] for i in bkg])
            m = Stub(lambda x: obs[x], None, curve_of_data=lambda d: BANK[int(np.asarray(d).ravel()[0])], toys=toys, ntoys=k)
            got = m.exclusion_confidence_level(mu, expected=e, allow_negative_signal=neg, calculator="toy", verbose=False)
            rec.step()
            sb, b = [statistic(BANK[i], mu, neg) for i in sig], [statistic(BANK[i], mu, neg) for i in bkg]
            t = statistic(obs[e], mu, neg)
            w, we = oracle_toy(sb, b, t, "q" if neg else "qtilde")
            want = ([1 - min(w, 1.0)] if e in ("observed", "all") else []) + ([1 - min(x, 1.0) for x in we] if e != "observed" else [])
            if e == "all":
                rec.check(len(got) == 2 and len(got[0]) == 1, "all", f"expected=all: {got}")
                got = [x for y in got for x in y]
            rec.check(len(got) == len(want) and all(abs(float(x) - y) < 1e-12 for x, y in zip(got, want)), "exclusion",
                      lambda: f"toys {sig} / {bkg} mu={mu} negative={neg} {e}: {got}, counting gives {want}")
            rec.check(sorted((float(p), s, x) for p, s, x in made) == sorted([(0.0, k, e), (mu, k, e)]), "generation", lambda: f"toys requested: {made}")
            rec.outcome([round(float(x), 6) for x in got])
        # options reach the generation and every fit to the data and to the toys
        made = []
        m = Stub(lambda x: obs[x], None, curve_of_data=lambda d: BANK[int(np.asarray(d).ravel()[0])], toys=toys, ntoys=k)
        mu = 1.0
        m.exclusion_confidence_level(1.0, calculator="toy", verbose=False, init_pars=[7])
        rec.check(m.calls and all(c[-1].get("init_pars") == [7] for c in m.calls), "options", lambda: f"options not forwarded: {[c for c in m.calls if c[-1].get('init_pars') != [7]]}")
        rec.state(pick)
        rec.trace()


def make(e, toys, log):
    class ToyBackend(bk.Counting):
        get_objective_function = bk.objective_with_gradient

        def get_sampler(self, pars):
            log.append(np.array(pars, float))
            mu = float(pars[0])

            def sampler(size, *a, **k):
                out = toys(mu)
                assert size == len(out), f"{size} toys requested"
                return np.array([[float(x)] for x in out])
            return sampler
    return ToyBackend([2.0], [3.0], [4.0], e)


def run_real(case, rec):
    """A counting experiment with scripted toys: s = 2, b = 3, n = 4."""
    e, mu, neg = case["e"], case["mu"], case["neg"]
    counts = [0.0, 2.0, 6.0, 9.0]
    k = case["n"]
    cache = {}

    def stat(n):
        # profiled with the nuisance parameter on a fine grid refined by golden section
        if n not in cache:
            b = make(e, None, [])
            lp = b.get_logpdf_func("observed", [n])

            def prof(x):
                if e is None:
                    return -lp([x])
                from scipy.optimize import minimize_scalar
                return min(minimize_scalar(lambda t: -lp([x, t]), bracket=(lo, 0.3), tol=1e-12).fun for lo in (-0.3, 0.0))
            from scipy.optimize import minimize_scalar
            best = minimize_scalar(prof, bounds=(-1.5 if neg else 0.0, 10.0), method="bounded", options={"xatol": 1e-9})
            ends = [(-1.5 if neg else 0.0)]
            mh, v = min([(float(best.x), float(best.fun))] + [(x, prof(x)) for x in ends], key=lambda z: z[1])
            cache[n] = oracle("q" if neg else "qt", mu, mh, -v, lambda x: -prof(x))
        return cache[n]

    for sig in itertools.product(counts, repeat=k):
        for bkg in itertools.product(counts, repeat=k):
            log = []
            m = spey.StatisticalModel(make(e, lambda x: bkg if abs(x) < 1e-9 else sig, log), "toy", ntoys=k)
            got = m.exclusion_confidence_level(mu, allow_negative_signal=neg, calculator="toy", verbose=False)
            rec.step()
            sb, b = [stat(x) for x in sig], [stat(x) for x in bkg]
            w, _ = oracle_toy(sb, b, stat(4.0), "q")
            rec.check(len(got) == 1 and abs(float(got[0]) - (1 - min(w, 1.0))) < 1e-9, "counting", lambda: f"toys {sig} / {bkg} mu={mu} e={e}: {got}, counting gives {1 - w}; {sb} {b} {stat(4.0)}")
            # generated from the fit at the tested and at zero signal strength
            rec.check(sorted(float(p[0]) for p in log) == sorted([0.0, mu]), "parameters", lambda: f"toys generated at {log}")
            for p in log:
                _, q = m.likelihood(float(p[0]), return_parameters=True)
                rec.check(np.allclose(p, q, atol=2e-4), "parameters", lambda: f"toys generated at {p}, conditional fit {q}")
            rec.state(sig, bkg, mu, neg, e)
            rec.trace()


def cases(tier):
    deep = tier == "thorough"
    n = 6 if deep else 4
    out = []
    for k in range(1, n + 1):
        for b in itertools.combinations_with_replacement(VALUES, k):
            out.append({"t": "sets", "b": list(b), "n": n, "orders": 4 if deep else 3})
    for k in (1, 2) + ((3,) if deep else ()):
        out += [{"t": "stub", "n": k, "first": i} for i in range(len(BANK))]
    for e, mu, neg in ((None, 1.0, False), (None, 0.7, True), (0.2, 1.0, False), (None, -0.6, True)):
        out += [{"t": "real", "n": k, "e": e, "mu": mu, "neg": neg} for k in (1, 2)]
    return out


def weight(case):
    return {"real": 100, "stub": 10, "sets": 1}[case["t"]] * case["n"]


def run(case, rec):
    {"sets": run_sets, "stub": run_stub, "real": run_real}[case["t"]](case, rec)
