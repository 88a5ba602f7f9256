"""M03: default backends evaluate exactly their documented likelihood (all lattice points of a model zoo)."""
import itertools

import numpy as np

from mc import zoo
from spey import ExpectationType

BOUNDS = {
    "quick": "75 model configurations of 7 backends, every point of a parameter lattice with 2-4 levels per parameter, 8 data selections",
    "thorough": "as quick with 3-7 levels per parameter, and every model with all yields taken from a 3-letter alphabet for one and two bins",
}
ASSUMPTIONS = [
    "points at which an expected Poisson rate is not positive are outside the documented model and are left out",
    "third-moment correlations include the documented 1e-5 regularisation",
]
CHUNK = 2


def lattice(r, deep):
    mu = [-0.4, 0.0, 1.0, 2.7] if not deep else [-0.9, -0.4, 0.0, 0.3, 1.0, 2.7, 7.0]
    sp = [-0.7, 0.9] if not deep else [-0.7, 0.0, 0.9, 1.7]
    th = [-1.1, 0.0, 0.6] if not deep else [-2.0, -1.1, 0.0, 0.6, 1.9]
    if r.npar > 9:
        return zoo.sparse_lattice(r, mu, [0.8, -0.6])
    if r.npar > 5:
        th = [-1.1, 0.6] if not deep else [-1.1, 0.0, 0.6]
    return itertools.product(mu, *([sp] * r.nsp), *([th] * (r.npar - 1 - r.nsp)))


def data_selections(r):
    n = r.n
    ints = [int(x) + 1 for x in n]
    frac = [float(x) * 0.9 + 0.35 for x in n]
    out = [
        ("observed", ExpectationType.observed, None, n),
        ("aposteriori", ExpectationType.aposteriori, None, n),
        ("apriori", ExpectationType.apriori, None, r.b),
        ("'observed'", "observed", None, n),
        ("'apriori'", "apriori", None, r.b),
        ("int-array", ExpectationType.apriori, np.array(ints), ints),
        ("float-array", ExpectationType.observed, np.array(frac), frac),
        ("float-list", ExpectationType.apriori, list(frac), frac),
    ]
    if r.has_theta and r.constrained or r.mods:
        aux = r.expected_data(np.full(r.npar, 0.3))[r.nb:] + 0.7
        out.append(("with-auxiliary", ExpectationType.observed, np.concatenate([frac, aux]), frac))
    return out


def close(a, b):
    return np.isfinite(a) and abs(a - b) <= 1e-9 * max(1.0, abs(b))


def compare(label, spec, rec, deep):
    r = zoo.Ref(spec)
    m = zoo.build(spec)
    be = m.backend
    rec.check(be.config().npar == r.npar, "parameters", f"{label}: {be.config().npar} parameters, expected {r.npar}")
    if be.config().npar != r.npar:
        return
    sels = data_selections(r)
    funcs = [(lab, ref, be.get_logpdf_func(expected=e, data=d)) for lab, e, d, ref in sels]
    pos = r.pdf not in (zoo.NO, zoo.MN)
    n = 0
    for p in lattice(r, deep):
        p = np.array(p)
        if pos and np.any(r.lam(p) <= 0):
            continue
        cons, exp = r.constraint(p), None
        for lab, ref, fn in funcs:
            want = r.main(p, ref) + cons
            got = fn(np.array(p))
            rec.step()
            rec.check(np.ndim(got) == 0 and close(float(got), want), "log-probability",
                      lambda: f"{label} {lab} at {p.tolist()}: {got!r}, documented model {want!r}")
        for aux in (True, False):
            exp = np.asarray(be.expected_data(p, include_auxiliary=aux), float)
            w = r.expected_data(p, aux)
            if r.pdf in (zoo.PO, zoo.NO, zoo.MN):
                w = r.expected_data(p, False)
            rec.check(exp.shape == w.shape and np.allclose(exp, w, rtol=1e-10, atol=1e-12), "expected-data",
                      lambda: f"{label} at {p.tolist()}: expected data {exp}, documented {w}")
        rec.state(label, p.tolist())
        rec.outcome(round(want, 6))
        rec.trace()
        n += 1
        if len(rec.failures) > 20:
            return
    # the same densities through the public likelihood of one-parameter models
    if r.npar == 1:
        for mu in (-0.3, 0.0, 0.5, 1.0, 2.0, 12.0):
            if pos and np.any(r.lam([mu]) <= 0):
                continue
            for lab, e, d, ref in sels:
                want = -r.main([mu], ref)
                got = m.likelihood(mu, expected=e, data=d)
                rec.check(close(float(got), want), "likelihood", f"{label} {lab} mu={mu}: NLL {got}, documented {want}")
                got = m.likelihood(mu, expected=e, data=d, return_nll=False)
                rec.check(abs(got - np.exp(-want)) <= 1e-9 * np.exp(-want), "likelihood", f"{label} {lab} mu={mu}: likelihood {got}")
                rec.step(2)
    if n == 0:
        rec.fail("vacuous", f"{label}: no lattice point")
    rec.sample(f"{label}: {n} lattice points x {len(sels)} data selections")


def grid_specs():
    """All small models over an alphabet of yields, uncertainties and observations."""
    S, B, N, U = [0.0, 1.5, 4.0], [0.5, 3.0, 20.0], [0, 1, 8], [0.1, 1.0]
    for s, b, n, u in itertools.product(S, B, N, U):
        yield zoo.spec(zoo.UB, [s], [b], [n], absolute_uncertainties=[u])
        yield zoo.spec(zoo.NO, [s], [b], [n], absolute_uncertainties=[u])
        yield zoo.spec(zoo.CB, [s], [b], [n], covariance_matrix=[[u * u]])
        yield zoo.spec(zoo.TM, [s], [b], [n], covariance_matrix=[[u * u]], third_moment=[u**3])
        yield zoo.spec(zoo.MN, [s], [b], [n], covariance_matrix=[[u * u]])
    for s, n in itertools.product(itertools.product(S, S), itertools.product(N, N)):
        for rho in (-0.8, 0.0, 0.5):
            b, u = [3.0, 7.0], [1.0, 2.0]
            cov = [[1.0, 2.0 * rho], [2.0 * rho, 4.0]]
            yield zoo.spec(zoo.CB, list(s), b, list(n), covariance_matrix=cov)
            yield zoo.spec(zoo.MN, list(s), b, list(n), covariance_matrix=cov)
            yield zoo.spec(zoo.TM, list(s), b, list(n), covariance_matrix=cov, third_moment=[0.8, -3.0])
            yield zoo.spec(zoo.ES, list(s), b, list(n), correlation_matrix=[[1, rho], [rho, 1]],
                           absolute_uncertainty_envelops=[[u[0], 0.8], [1.5, -u[1]]])
            if rho == 0.0:
                yield zoo.spec(zoo.UB, list(s), b, list(n), absolute_uncertainties=u)
                yield zoo.spec(zoo.PO, list(s), b, list(n))


def models():
    return {**zoo.catalogue(), **zoo.large()}


def cases(tier):
    out = [{"name": k, "deep": tier == "thorough"} for k in models()]
    specs = list(grid_specs())
    if tier != "thorough":
        specs = specs[::7]
    size = 12
    out += [{"grid": specs[i:i + size]} for i in range(0, len(specs), size)]
    return out


def run(case, rec):
    if "grid" in case:
        for i, sp in enumerate(case["grid"]):
            compare(f"{sp['pdf']} {sp['kw']}", sp, rec, False)
    else:
        compare(case["name"], models()[case["name"]], rec, case["deep"])
