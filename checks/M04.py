"""M04: objective, gradient and Hessian agree with the log-probability at every lattice point."""
import itertools

import numpy as np

from spey.math import hessian as math_hessian, value_and_grad as math_value_and_grad
from mc import zoo
from checks.M03 import data_selections, models

BOUNDS = {
    "quick": "75 model configurations, every point of a parameter lattice (2-3 levels per parameter), up to 9 data selections",
    "thorough": "as quick with 3-5 levels per parameter",
}
ASSUMPTIONS = [
    "reference derivatives are extrapolated central differences of the reference likelihood (relative accuracy better than 1e-6)",
    "points where the documented likelihood has a kink are left out",
]
CHUNK = 1


def lattice(r, deep):
    mu = [-0.3, 0.0, 1.3] if not deep else [-0.6, -0.3, 0.0, 0.8, 1.3]
    if r.npar > 9:
        return zoo.sparse_lattice(r, [-0.3, 1.3], [0.6], offset=-0.07)
    sp = [-0.7, 0.9]
    th = [-0.9, 0.55] if not deep else [-0.9, 0.2, 0.55]
    return itertools.product(mu, *([sp] * r.nsp), *([th] * (r.npar - 1 - r.nsp)))


def derivative(f, p, i, h=2e-3):
    """Central differences with two extrapolation steps: error O(h^6)."""
    def d(s):
        q1, q2 = p.copy(), p.copy()
        q1[i] += s
        q2[i] -= s
        return (f(q1) - f(q2)) / (2 * s)
    a, b, c = d(h), d(h / 2), d(h / 4)
    r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
    return (16 * r2 - r1) / 15


def deep_at(n):
    """Points at which the Hessians of all data selections are compared."""
    return n % 7 == 1


def run(case, rec):
    spec = models()[case["name"]]
    r, m = zoo.Ref(spec), zoo.build(spec)
    be = m.backend
    pos = r.pdf not in (zoo.NO, zoo.MN)
    sels = data_selections(r)
    built = []
    for lab, e, d, ref in sels:
        built.append((lab, ref, be.get_objective_function(expected=e, data=d, do_grad=True),
                      be.get_objective_function(expected=e, data=d, do_grad=False),
                      be.get_hessian_logpdf_func(expected=e, data=d),
                      math_value_and_grad(m, expected=e, data=d), math_hessian(m, expected=e, data=d)))
    n = 0
    for p in lattice(r, case["deep"]):
        p = np.array(p)
        if pos and np.any(r.lam(p) <= 0.05):
            continue
        main = lambda q, ref: -(r.main(q, ref) + r.constraint(q))  # noqa: E731
        for k, (lab, ref, vg, vo, hs, mvg, mh) in enumerate(built):
            want = main(p, ref)
            v, g = vg(p.copy())
            v2 = vo(p.copy())
            g = np.asarray(g, float)
            rec.step(2)
            tol = 1e-9 * max(1.0, abs(want))
            rec.check(abs(float(v) - want) <= tol and abs(float(v2) - want) <= tol, "objective",
                      lambda: f"{case['name']} {lab} at {p.tolist()}: objective {v} / {v2}, minus log-probability {want}")
            ok = g.shape == (r.npar,)
            for i in range(r.npar) if ok else ():
                dw = derivative(lambda q: main(q, ref), p, i)
                rec.step()
                ok = ok and abs(g[i] - dw) <= 1e-6 * max(1.0, abs(dw), abs(want) * 1e-2)
            rec.check(ok, "gradient", lambda: f"{case['name']} {lab} at {p.tolist()}: gradient {g}, derivative of the objective "
                      f"{[derivative(lambda q: main(q, ref), p, i) for i in range(r.npar)]}")
            v3, g3 = mvg(list(p))
            rec.check(np.isclose(v3, want, rtol=1e-9, atol=1e-9) and np.allclose(g3, g, rtol=1e-9, atol=1e-9), "math-value-and-grad",
                      lambda: f"{case['name']} {lab}: spey.math.value_and_grad {v3}, {g3}")
            if k in (0, 2, 5, 6) or deep_at(n) or case["deep"]:
                h = np.asarray(hs(p.copy()), float)
                h2 = np.asarray(mh(list(p)), float)
                rec.step()
                # derivative of the gradient, itself verified above
                num = np.array([derivative(lambda q: np.asarray(vg(q)[1], float), p, i) for i in range(r.npar)])
                scale = max(1.0, np.max(np.abs(num)))
                rec.check(h.shape == num.shape and np.max(np.abs(h + num)) <= 1e-6 * scale, "hessian",
                          lambda: f"{case['name']} {lab} at {p.tolist()}: Hessian {h.tolist()}, second derivatives {(-num).tolist()}")
                rec.check(np.allclose(h2, -h, rtol=1e-9, atol=1e-9), "math-hessian", lambda: f"{case['name']} {lab}: spey.math.hessian {h2} vs {-h}")
            rec.outcome(round(float(v), 6))
        rec.state(case["name"], p.tolist())
        rec.trace()
        n += 1
        if len(rec.failures) > 20:
            break
    rec.check(n > 0, "vacuous", f"{case['name']}: no lattice point")
    rec.sample(f"{case['name']}: {n} points, {len(sels)} data selections")


def weight(case):
    r = zoo.Ref(models()[case["name"]])
    return min(2 ** r.npar, 60) * r.npar**2


def cases(tier):
    return [{"name": k, "deep": tier == "thorough"} for k in models()]
