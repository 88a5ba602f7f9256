"""Independent constrained minimisation of the reference likelihoods."""
import numpy as np
from scipy.optimize import minimize


def starts(r, lo, hi, fixed):
    """A few deterministic starting points."""
    out = []
    for mu in (0.0, 1.0):
        p = np.zeros(r.npar)
        p[0] = mu
        if not r.constrained and r.has_theta:
            pass
        out.append(p)
    out = [np.clip(p, np.where(np.isfinite(lo), lo, -5.0), np.where(np.isfinite(hi), hi, 5.0)) for p in out]
    for p in out:
        for i, v in fixed.items():
            p[i] = v
    return out


def reference_minimum(r, data, bounds, fixed=None, extra=()):
    """Smallest reference NLL found under the bounds, the fixed values and the positivity constraint."""
    fixed = fixed or {}
    free = [i for i in range(r.npar) if i not in fixed]
    lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds], float)
    hi = np.array([np.inf if b[1] is None else b[1] for b in bounds], float)

    def full(x):
        p = np.zeros(r.npar)
        p[free] = x
        for i, v in fixed.items():
            p[i] = v
        return p

    def f(x):
        v = -r.logpdf(full(x), data)
        return v if np.isfinite(v) else 1e10

    if not free:
        p = full([])
        return f([]), p
    cons = [{"type": "ineq", "fun": lambda x: r.background(full(x))}] if r.has_theta else []
    best = (np.inf, None)
    for p0 in [*extra, *starts(r, lo, hi, fixed)]:
        x0 = np.asarray(p0, float)[free]
        with np.errstate(all="ignore"):
            o = minimize(f, x0, method="SLSQP", bounds=[(None if not np.isfinite(lo[i]) else lo[i], None if not np.isfinite(hi[i]) else hi[i]) for i in free],
                         constraints=cons, tol=1e-10, options={"maxiter": 500})
        p = full(np.clip(o.x, lo[free], hi[free]))
        v = -r.logpdf(p, data)
        if np.isfinite(v) and r.positive(p, 1e-6) and v < best[0]:
            best = (v, p)
    return best
