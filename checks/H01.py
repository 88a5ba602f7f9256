"""H01: test statistics against their piecewise definitions, for every order and sign of the arguments."""
import itertools
import math

import numpy as np

import spey
from mc.stub import Parabola, Stub
from spey.hypothesis_testing import test_statistics as ts
from spey.system.exceptions import AsimovTestStatZero, UnknownTestStatistics

BOUNDS = {
    "quick": "13 x 13 values of tested and best-fit POI x 5^3 log-likelihood tables x 4 statistics, 9 names; all pairs of 9 observed and 9 Asimov curves "
             "x 9 POI values; counting experiments n <= 12 x 4 backgrounds x 2 signals",
    "thorough": "as quick with 21 x 21 POI values, 7^3 tables, n <= 40",
}
ASSUMPTIONS = ["IEEE double arithmetic; comparisons within 1e-9 relative"]

MU = [-3.0, -1.0, -0.5, -1e-6, 0.0, 1e-6, 0.25, 0.5, 1.0, 1.5, 2.0, 5.0, 100.0]
MORE = [-50.0, -2.0, -1e-12, 1e-12, 1e-3, 0.75, 3.0, 1e4]
NAMES = {"q": "q", "qmu": "q", "qtilde": "qt", "qmutilde": "qt", "q0": "q0"}
BAD = ["", "Q", "qmu_tilde", "q1", "q_0", "qtilde ", "tilde", "qmumu", None, 0]


def oracle(kind, mu, muhat, best, logpdf):
    """Log-likelihood ratios as in arXiv:1007.1727 eqs. 12, 14 and 16."""
    if kind == "q0":
        return max(2.0 * (best - logpdf(0.0)), 0.0) if muhat >= 0 else 0.0
    if kind == "left":
        return 0.0 if muhat < mu else max(2.0 * (best - logpdf(mu)), 0.0)
    if muhat > mu:
        return 0.0
    ref = logpdf(0.0) if kind == "qt" and muhat < 0 else best
    return max(2.0 * (ref - logpdf(mu)), 0.0)


def close(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-9 * max(1.0, abs(b))


def run_table(case, rec):
    mus = MU + (MORE if case["deep"] else [])
    levels = [-700.0, -3.0, -1.0, -0.9999999, 0.0] + ([2.5, -1e5] if case["deep"] else [])
    mu = mus[case["i"]]
    for muhat in mus:
        for lmu, l0, best in itertools.product(levels, repeat=3):
            asked = []

            def logpdf(x):
                asked.append(float(x))
                return lmu if x == mu else l0

            if mu == 0.0:
                l0 = lmu
            for kind, func in (("q", ts.qmu), ("qt", ts.qmu_tilde), ("q0", ts.q0), ("left", ts.qmu_left)):
                want = oracle(kind, mu, muhat, best, logpdf)
                for m, mh in ((mu, muhat), (np.float64(mu), np.float64(muhat))):
                    asked.clear()
                    got = func(m, mh, best, logpdf)
                    rec.step()
                    rec.check(close(got, want) and float(got) >= 0, "statistic", lambda: f"{kind}(mu={mu}, muhat={muhat}, max={best}, logpdf(mu)={lmu}, logpdf(0)={l0}) = {got}, definition {want}")
                    rec.check(all(x in (mu, 0.0) for x in asked), "evaluation", lambda: f"{kind}: likelihood evaluated at {asked}, not at {mu} or 0")
                rec.outcome(kind, want)
            rec.state(mu, muhat, lmu, l0, best)
            rec.trace()
    rec.sample(f"mu={mu}: {len(mus)} best-fit values x {len(levels) ** 3} tables")


def run_names(case, rec):
    for name, kind in {**NAMES, "qmu_left": "left"}.items():
        f = ts.get_test_statistic(name)
        for mu, muhat in itertools.product([-1.0, 0.0, 0.7, 2.0], repeat=2):
            curve = Parabola(0.4, 0.6, 1.3)
            got = f(mu, muhat, -1.0, lambda x: -curve(x))
            want = oracle(kind, mu, muhat, -1.0, lambda x: -curve(x))
            rec.check(close(got, want), "name", f"statistic {name!r} at mu={mu}, muhat={muhat}: {got}, expected {want}")
            rec.step()
            rec.state(name, mu, muhat)
            rec.trace()
    for name in BAD:
        try:
            f = ts.get_test_statistic(name)
        except UnknownTestStatistics:
            rec.trace()
        except Exception as exc:  # noqa: BLE001
            rec.fail("bad-name", f"name {name!r}: {exc!r}")
        else:
            rec.fail("bad-name", f"name {name!r} accepted: {f}")
        rec.state("bad", name)


CURVES = [Parabola(m, s, 2.0, c) for m, s, c in ((-1.5, 1, 0), (-0.2, 0.5, 0), (0.0, 1.0, 0), (0.0, 0.3, 0), (0.4, 1.0, 0.01), (1.0, 0.7, 0), (1.0, 3.0, 0),
                                              (2.5, 1.2, 0), (7.0, 2.0, 0))]


def delta(kind, q, qA):
    """Difference entering the p-values (eq. 66 of arXiv:1007.1727 for the bounded statistic)."""
    if kind == "qt" and q > qA:
        return (q - qA) / (2 * math.sqrt(qA)) if qA > 0 else None
    return math.sqrt(q) - math.sqrt(qA)


def run_pair(case, rec):
    """compute_teststatistics for every pair of observed and Asimov likelihood curves."""
    o = CURVES[case["i"]]
    for k, a in enumerate(CURVES):
        for mu in (-2.0, -0.3, 0.0, 0.1, 0.4, 1.0, 1.7, 3.0, 9.0):
            for name, kind in NAMES.items():
                neg = kind == "q"
                bo, ba = o.best(neg), a.best(neg)
                q, qA = oracle(kind, mu, bo[0], -bo[1], lambda x: -o(x)), oracle(kind, mu, ba[0], -ba[1], lambda x: -a(x))
                want = delta(kind, q, qA)
                try:
                    got = ts.compute_teststatistics(mu, bo, lambda x: -o(x), ba, lambda x: -a(x), name)
                except AsimovTestStatZero:
                    got = None
                rec.step()
                ok = (got is None) == (want is None)
                if ok and got is not None:
                    ok = len(got) == 3 and close(got[0], math.sqrt(q)) and close(got[1], math.sqrt(qA)) and abs(got[2] - want) <= 1e-8 * max(1, abs(want))
                rec.check(ok, "compute", lambda: f"compute_teststatistics(mu={mu}, {name}, observed curve {case['i']}, Asimov curve {k}) = {got}, "
                          f"definition {(math.sqrt(q), math.sqrt(qA), want)}")
                rec.state(case["i"], k, mu, name)
                rec.trace()
                rec.outcome(name, str(want)[:10])


def run_stub(case, rec):
    """The statistics the public queries evaluate, seen through the values they return."""
    o = CURVES[case["i"]]
    for a in CURVES:
        m = Stub(lambda e: o, lambda e, t: a)
        a0, o0 = a.best(False), o.best(False)
        q0, q0A = oracle("q0", 0, o0[0], -o0[1], lambda x: -o(x)), oracle("q0", 0, a0[0], -a0[1], lambda x: -a(x))
        sA, s, p, ep = m.significance()
        rec.step()
        rec.check(close(s, math.sqrt(q0)) and close(sA, math.sqrt(q0A)), "significance", f"significance ({sA}, {s}), definition ({math.sqrt(q0A)}, {math.sqrt(q0)})")
        rec.check({c[2] for c in m.calls if "asimov" in c[0]} == {"q0"}, "significance", f"Asimov statistics used: {m.calls}")
        rec.state(case["i"], a.m, a.s)
        rec.trace()


def run_count(case, rec):
    """Counting experiments, where everything is known in closed form."""
    for b, s in itertools.product((0.5, 3.0, 7.5, 20.0), (2.0, 0.7)):
        for n in range(0, case["n"] + 1):
            if n - b > 9.5 * s:  # best fit outside the default range of the POI
                continue
            m = spey.get_backend("default.poisson")(signal_yields=[s], background_yields=[b], data=[n])
            q0 = 0.0 if n <= b else 2 * (n * math.log(n / b) - (n - b))
            sA, sg, _, _ = m.significance()
            nA = b + s
            q0A = 2 * (nA * math.log(nA / b) - (nA - b))
            rec.step()
            rec.check(abs(sg - math.sqrt(q0)) <= 2e-3 and abs(sA - math.sqrt(q0A)) <= 2e-3, "counting", f"n={n} b={b} s={s}: significance {sg}, {sA}; closed form {math.sqrt(q0)}, {math.sqrt(q0A)}")
            rec.state("count", b, s, n)
            rec.trace()
            rec.outcome(round(float(sg), 2))


def cases(tier):
    deep = tier == "thorough"
    out = [{"t": "table", "i": i, "deep": deep} for i in range(len(MU) + (len(MORE) if deep else 0))]
    out += [{"t": "pair", "i": i} for i in range(len(CURVES))] + [{"t": "stub", "i": i} for i in range(len(CURVES))]
    return out + [{"t": "names"}, {"t": "count", "n": 40 if deep else 12}]


def run(case, rec):
    {"table": run_table, "names": run_names, "pair": run_pair, "stub": run_stub, "count": run_count}[case["t"]](case, rec)
