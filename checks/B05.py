"""B05: elementary distributions, main models and constraint models against scipy.stats on grids."""
import itertools
import math

import autograd
import autograd.numpy as anp
import numpy as np
from scipy import stats
from scipy.special import gammaln

from spey.backends import distributions as D
from spey.system.exceptions import DistributionError

BOUNDS = {
    "quick": "1-2 components (3 on a sub-grid): Poisson 13 means x 16 data; normal 7 locations x 7 scales x 9 data; multivariate normal 4 means x 12 covariance matrices "
             "x 5 data; containers list/tuple/int/float arrays; slices and index lists; constraint models of all ordered selections of up to 3 of 6 terms",
    "thorough": "as quick with 3 components on the full grids and constraint models of up to 4 terms",
}
ASSUMPTIONS = ["means of Poisson terms at or below 1e-20 stand for 1e-20 (documented clipping)", "agreement within 1e-9 relative"]

LAM = [-3.0, 0.0, 1e-30, 1e-12, 1e-3, 0.3, 1.0, 2.5, 7.0, 30.0, 200.5, 1e4, 1e6]
CNT = [0, 1, 2, 3, 7, 30, 180, 10000, 1000000]
REAL = [0.0, 1e-6, 0.5, 2.5, 7.25, 199.9, 1e4 + 0.5]
LOC = [-5.0, -0.5, 0.0, 1e-8, 0.7, 3.0, 1e3]
SCALE = [1e-6, 1e-3, 0.1, 1.0, 2.5, 40.0, 1e5]
PARTS = 8
VAL = [-20.0, -1.0, -1e-9, 0.0, 0.3, 1.0, 4.5, 1e2, 1e3]


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= 1e-9 * np.maximum(1.0, np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def ref_poisson(n, lam):
    lam = np.clip(np.asarray(lam, float), 1e-20, None)
    n = np.asarray(n)
    if np.issubdtype(n.dtype, np.integer):
        return stats.poisson.logpmf(n, lam)
    return n * np.log(lam) - lam - gammaln(n + 1.0)


def containers(v):
    """The same numbers in different containers."""
    out = [("list", list(v)), ("tuple", tuple(v)), ("array", np.array(v, float))]
    if all(float(x).is_integer() for x in v):
        out += [("int array", np.array(v, np.int64)), ("int32 array", np.array(v, np.int32)), ("int list", [int(x) for x in v])]
    return out


def grid(values, n, deep, thin):
    return itertools.product(values, repeat=n) if n < 3 or deep else itertools.product(thin, repeat=n)


def part(items, case):
    """The share of this case: every PARTS-th element."""
    for k, x in enumerate(items):
        if k % PARTS == case["k"]:
            yield x


def run_poisson(case, rec):
    n, deep = case["n"], case["deep"]
    for lam in part(grid(LAM, n, False, [0.0, 0.3, 7.0, 200.5]), case):
        p = D.Poisson(np.array(lam))
        rec.check(close(p.expected_data(), np.clip(lam, 1e-20, None)), "expected", f"Poisson({lam}).expected_data() = {p.expected_data()}")
        for data in grid(CNT + REAL, n, False, [0, 3, 2.5, 180]):
            want = np.array([float(ref_poisson(np.array(x), y)) for x, y in zip(data, lam)])
            total = float(np.sum(want))
            for name, v in containers(data):
                got = p.log_prob(v)
                main = D.MainModel(lambda pars: pars[0] * np.array(lam))
                full = main.log_prob(np.array([1.0]), v)
                rec.step(2)
                rec.check(close(got, want), "poisson", lambda: f"Poisson({lam}).log_prob({name} {data}) = {got}, expected {want}")
                rec.check(close(full, total), "main", lambda: f"Poisson main model {lam}, {name} {data}: {full}, expected {total}")
            rec.outcome(round(total, 6) if math.isfinite(total) else "inf")
            rec.state("poisson", lam, data)
            rec.trace()
        for mu in (0.0, 0.5, 2.0):
            main = D.MainModel(lambda pars: pars[0] * np.array(lam), pdf_type="poiss")
            rec.check(close(main.expected_data(np.array([mu])), np.clip(mu * np.array(lam), 1e-20, None)), "expected", f"main model at {mu} x {lam}")
    if n == 1 and case["k"] == 0:  # scalars
        for lam, x in itertools.product(LAM, CNT + REAL):
            got = D.Poisson(lam).log_prob(x)
            rec.check(close(float(got), float(ref_poisson(np.array(x), lam))), "poisson", f"Poisson({lam}).log_prob({x}) = {got}")
            rec.state("scalar", lam, x)


def domains(n, pad):
    """Ways of selecting n of n + 2*pad parameters."""
    out = [slice(pad, pad + n), list(range(pad, pad + n)), np.arange(pad, pad + n)]
    if pad == 0:
        out.append(slice(None, None))
    return out


def embed(x, pad):
    return np.concatenate([np.full(pad, 77.0), x, np.full(pad, -55.0)])


def run_normal(case, rec):
    n = case["n"]
    locs, scales = LOC, SCALE
    for loc in part(grid(locs, n, False, [-5.0, 0.0, 0.7]) if n < 2 or case["deep"] else itertools.product([-5.0, 0.0, 0.7], repeat=n), case):
        for sc in grid(scales, n, False, [1e-3, 1.0, 40.0]) if n < 2 or case["deep"] else itertools.product([1e-3, 1.0, 40.0], repeat=n):
            l, s = np.array(loc), np.array(sc)
            flat, fn = D.Normal(l, s), D.Normal(l, lambda pars: s)
            rec.check(close(flat.expected_data(), l), "expected", f"Normal({loc}).expected_data()")
            for data in grid(VAL, n, False, [-1.0, 0.3, 1e3]) if n < 2 or case["deep"] else itertools.product(VAL[1::2], repeat=n):
                x = np.array(data)
                want = stats.norm.logpdf(x, l, s)
                for d in (flat, fn):
                    rec.check(close(d.log_prob(x), want), "normal", lambda: f"Normal({loc}, {sc}).log_prob({data}) = {d.log_prob(x)}, expected {want}")
                for pad in (0, 2):
                    for dom in domains(n, pad):
                        d = D.Normal(l, s, domain=dom)
                        got = d.log_prob(embed(x, pad))
                        rec.check(close(got, want), "domain", lambda: f"Normal({loc}, {sc}, domain={dom}): {got}, expected {want}")
                main = D.MainModel(lambda p: l * p[0], cov=s, pdf_type="normal")
                var = D.MainModel(lambda p: l * p[0], cov=lambda p: s * p[1], pdf_type="normal")
                for mu, f in ((1.0, 1.0), (0.5, 2.0), (-1.0, 0.5)):
                    w1, w2 = np.sum(stats.norm.logpdf(x, mu * l, s)), np.sum(stats.norm.logpdf(x, mu * l, f * s))
                    p = np.array([mu, f])
                    rec.check(close(main.log_prob(p, x), w1) and close(var.log_prob(p, x), w2), "main",
                              lambda: f"normal main model at {mu} x {loc}, {f} x {sc}, {data}: {main.log_prob(p, x)}, {var.log_prob(p, x)}, expected {w1}, {w2}")
                    rec.check(close(main.expected_data(p), mu * l), "expected", f"normal main model at {mu} x {loc}")
                rec.step()
                rec.state("normal", loc, sc, data)
                rec.trace()
                rec.outcome(round(float(np.sum(want)), 6))


def matrices(n):
    rng = [np.eye(n), 1e-8 * np.eye(n), 1e6 * np.eye(n), np.diag([0.5 + i for i in range(n)]), np.diag([10.0 ** (3 * i - 3) for i in range(n)])]
    if n > 1:
        for r in (0.5, -0.4, 0.95, 0.999):
            c = np.full((n, n), r)
            if r < 0:
                c = np.array([[r if (i + j) % 2 else abs(r) for j in range(n)] for i in range(n)])
            np.fill_diagonal(c, 1.0)
            rng += [c, c * np.outer(np.arange(1, n + 1), np.arange(1, n + 1))]
    if n == 3:
        rng.append(np.array([[2.0, -0.5, 0.3], [-0.5, 1.0, 0.1], [0.3, 0.1, 3.0]]))
    if n > 1:
        # determinants outside the range of floating-point numbers
        rng += [10.0 ** (-330.0 / n) * np.eye(n), 10.0 ** (330.0 / n) * np.eye(n)]
    return rng


def ref_mvn(x, mean, cov):
    x = np.asarray(x, float) - mean
    L = np.linalg.cholesky(cov)
    y = np.linalg.solve(L, x)
    return float(-0.5 * y @ y - np.sum(np.log(np.diag(L))) - 0.5 * len(x) * math.log(2 * math.pi))


def close_mvn(a, b):
    return abs(float(a) - b) <= 1e-7 * max(1.0, abs(b))


def run_mvn(case, rec):
    n = case["n"]
    for mean in part(itertools.product([-1.0, 0.0, 2.5, 100.0], repeat=n), case):
        m = np.array(mean)
        for k, cov in enumerate(matrices(n)):
            static, fn = D.MultivariateNormal(m, cov), D.MultivariateNormal(m, lambda pars: cov)
            rec.check(close(static.expected_data(), m), "expected", f"MultivariateNormal({mean}).expected_data()")
            main = D.MainModel(lambda p: m * p[0], cov=cov, pdf_type="multivariate_normal")
            var = D.MainModel(lambda p: m * p[0], cov=lambda p: cov * p[1], pdf_type="multivariate_normal")
            for data in itertools.product([-2.0, 0.0, 0.5, 2.5, 101.0] if n < 3 or case["deep"] else [-2.0, 0.5, 101.0], repeat=n):
                x = np.array(data)
                want = ref_mvn(x, m, cov)
                for name, d in (("static", static), ("function", fn)):
                    got = d.log_prob(x)
                    rec.check(close_mvn(got, want), "mvn", lambda: f"MultivariateNormal({mean}, {cov.tolist()}, {name}).log_prob({data}) = {got}, expected {want}")
                for pad in (0, 2):
                    for dom in domains(n, pad):
                        got = D.MultivariateNormal(m, cov, domain=dom).log_prob(embed(x, pad)) if pad else static.log_prob(x)
                        rec.check(close_mvn(got, want), "domain", lambda: f"MultivariateNormal({mean}, {cov.tolist()}, domain={dom}): {got}, expected {want}")
                for mu, f in ((1.0, 1.0), (0.5, 2.0), (-1.0, 0.5)):
                    p = np.array([mu, f])
                    w1, w2 = ref_mvn(x, mu * m, cov), ref_mvn(x, mu * m, f * cov)
                    g1, g2 = main.log_prob(p, x), var.log_prob(p, x)
                    rec.check(close_mvn(g1, w1) and close_mvn(g2, w2), "main", lambda: f"multivariate main model at {mu} x {mean}, {f} x {cov.tolist()}: {g1}, {g2}, expected {w1}, {w2}")
                    rec.check(close(main.expected_data(p), mu * m), "expected", f"multivariate main model at {mu} x {mean}")
                rec.step()
                rec.state("mvn", mean, k, data)
                rec.trace()
                rec.outcome(round(want, 5))


TERMS = {
    "n1": ("normal", [0.0], [1.0]),
    "n2": ("normal", [0.5, -1.0], [2.0, 0.3]),
    "n3": ("normal", [0.0, 0.0, 0.0], [1.0, 1.0, 1.0]),
    "m1": ("multivariatenormal", [1.0], [[4.0]]),
    "m2": ("multivariatenormal", [0.0, 0.5], [[1.0, 0.4], [0.4, 1.0]]),
    "m3": ("multivariatenormal", [0.0, 0.0, 0.0], [[2.0, -0.5, 0.3], [-0.5, 1.0, 0.1], [0.3, 0.1, 3.0]]),
}


def run_constraint(case, rec):
    for r in range(1, case["r"] + 1):
        for names in itertools.permutations(TERMS, r):
            # one parameter in front (the POI) and, on request, unused ones between the terms
            for gap in (0, 1):
                for style in ("kwargs", "args"):
                    descs, spans, k = [], [], 1
                    for nm in names:
                        kind, loc, sc = TERMS[nm]
                        n = len(loc)
                        dom = slice(k, k + n) if len(descs) % 2 == 0 else list(range(k, k + n))
                        d = {"distribution_type": kind, "args": [np.array(loc), np.array(sc)]}
                        if style == "kwargs":
                            d["kwargs"] = {"domain": dom}
                        else:
                            d["args"].append(dom)
                        descs.append(d)
                        spans.append(range(k, k + n))
                        k += n + gap
                    cm = D.ConstraintModel(descs)
                    rec.check(len(cm) == r, "constraint", f"{names}: length {len(cm)}")
                    rec.check(close(cm.expected_data(), np.concatenate([TERMS[nm][1] for nm in names])), "constraint", f"{names}: expected data {cm.expected_data()}")
                    for base in (-1.3, 0.0, 0.4):
                        pars = np.array([base + 0.37 * i * (-1) ** i for i in range(k + 1)])
                        want = 0.0
                        for nm, span in zip(names, spans):
                            kind, loc, sc = TERMS[nm]
                            x = pars[list(span)]
                            want += np.sum(stats.norm.logpdf(x, loc, sc)) if kind == "normal" else ref_mvn(x, np.array(loc), np.array(sc))
                        got = cm.log_prob(pars)
                        rec.check(close_mvn(got, want), "constraint", lambda: f"{names} at {pars}: {got}, expected {want}")
                        rec.step()
                        rec.outcome(round(float(want), 6))
                    rec.state(names, gap, style)
                    rec.trace()
    for bad in ("poisson", "lognormal", "", "normall"):
        try:
            D.ConstraintModel([{"distribution_type": bad, "args": [np.zeros(1), np.ones(1)]}])
            rec.fail("constraint", f"distribution type {bad!r} accepted")
        except (AssertionError, KeyError, DistributionError):
            rec.state("bad", bad)
    for kind in ("poiss", "normal", "multivariate_normal", "gauss", ""):
        for cov in (None, np.eye(2)):
            ok = kind == "poiss" or (cov is not None and kind in ("normal", "multivariate_normal"))
            try:
                D.MainModel(lambda p: p, cov=cov, pdf_type=kind)
                rec.check(ok, "main", f"MainModel accepts {kind!r} with {cov}")
            except DistributionError:
                rec.check(not ok, "main", f"MainModel rejects {kind!r} with {cov}")
            rec.state("kind", kind, cov is None)


def run_gradient(case, rec):
    """Derivatives through the terms (the fits rely on them)."""
    cov = np.array([[2.0, 0.5], [0.5, 1.0]])
    b = np.array([3.0, 5.0])
    s = np.array([1.0, 2.0])
    data = np.array([4.0, 2.0])
    models = {
        "poiss": (D.MainModel(lambda p: p[0] * s + b), lambda mu: mu * s + b, None),
        "normal": (D.MainModel(lambda p: p[0] * s + b, cov=np.sqrt(np.diag(cov)), pdf_type="normal"), None, None),
        "mvn": (D.MainModel(lambda p: p[0] * s + b, cov=cov, pdf_type="multivariate_normal"), None, None),
        "normal-f": (D.MainModel(lambda p: p[0] * s + b, cov=lambda p: anp.sqrt(anp.array([2.0, 1.0]) + p[0] ** 2), pdf_type="normal"), None, None),
        "mvn-f": (D.MainModel(lambda p: p[0] * s + b, cov=lambda p: cov + p[0] ** 2 * anp.eye(2), pdf_type="multivariate_normal"), None, None),
    }

    def reference(name, mu):
        lam = mu * s + b
        if name == "poiss":
            return float(np.sum(ref_poisson(data, lam)))
        c = cov + mu ** 2 * np.eye(2) if name == "mvn-f" else np.diag([2.0 + mu ** 2, 1.0 + mu ** 2]) if name == "normal-f" else cov if name == "mvn" else np.diag(np.diag(cov))
        return ref_mvn(data, lam, c)

    for name, (model, _, _) in models.items():
        for mu in (-1.0, -0.2, 0.0, 0.3, 1.0, 2.5):
            f = lambda p: model.log_prob(p, data)
            rec.check(close_mvn(f(np.array([mu])), reference(name, mu)), "main", f"{name} at {mu}")
            g = autograd.grad(f)(np.array([mu]))[0]
            h = 1e-4
            num = (8 * (reference(name, mu + h) - reference(name, mu - h)) - (reference(name, mu + 2 * h) - reference(name, mu - 2 * h))) / (12 * h)
            rec.check(abs(g - num) <= 1e-6 * max(1, abs(num)), "gradient", f"{name} at {mu}: derivative {g}, expected {num}")
            H = autograd.hessian(f)(np.array([mu]))[0, 0]
            num2 = (reference(name, mu + h) + reference(name, mu - h) - 2 * reference(name, mu)) / h ** 2
            rec.check(abs(H - num2) <= 1e-4 * max(1, abs(num2)), "gradient", f"{name} at {mu}: second derivative {H}, expected {num2}")
            rec.step()
            rec.state(name, mu)
            rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = [{"t": t, "n": n, "k": k, "deep": deep} for t in ("poisson", "normal", "mvn") for n in (1, 2, 3) for k in range(PARTS)]
    return out + [{"t": "constraint", "r": 4 if deep else 3}, {"t": "gradient"}]


def weight(case):
    return case.get("n", 1)


def run(case, rec):
    {"poisson": run_poisson, "normal": run_normal, "mvn": run_mvn, "constraint": run_constraint, "gradient": run_gradient}[case["t"]](case, rec)
