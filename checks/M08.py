"""M08: answers follow a change of bin order, signal scale, units, container type or grouping of the same analysis (metamorphic)."""
import copy
import itertools

import autograd.numpy as anp
import numpy as np

import spey
from mc import zoo
from mc.queries import flat

BOUNDS = {
    "quick": "all models of the zoo and 19 larger ones (4 to 12 bins) x (all bin permutations (up to three bins), signal scales 1/4..4, units of Gaussian yields, an additional bin without "
             "signal, container types, the split into a combination of its bins) x 17 queries x 2 expectation types",
    "thorough": "as quick with combined transformations and more scales",
}
ASSUMPTIONS = [
    "optimisation accuracy: signal strengths agree to 1e-2 of their uncertainty, likelihood differences to 1e-3",
    "solutions outside the suggested range of the signal strength (upper bound 10) are not compared",
]

PER_BIN = ("signal_yields", "background_yields", "data", "absolute_uncertainties", "third_moment", "absolute_uncertainty_envelops")
MATRIX = ("covariance_matrix", "correlation_matrix")
BOUND = 9.0


class Change:
    """A transformed description of the same analysis: mu = k * mu', NLL' = NLL + const, bins permuted."""

    def __init__(self, kw, pdf, k=1.0, order=None, extra=0, unit=1.0, split=None):
        self.kw, self.pdf, self.k, self.order, self.extra, self.unit, self.split = kw, pdf, k, order, extra, unit, split

    def model(self):
        if self.split is not None:
            return spey.UnCorrStatisticsCombiner(*[spey.get_backend(self.pdf)(**kw, analysis=f"part{i}") for i, kw in enumerate(self.split)])
        return spey.get_backend(self.pdf)(**self.kw, analysis="changed")


def permute(sp, order):
    kw = zoo.kwargs_of(sp)
    o = list(order)
    for key in PER_BIN:
        v = kw.get(key)
        if v is None:
            continue
        kw[key] = (lambda f: lambda x: f(x)[anp.array(o)])(v) if callable(v) else [v[i] for i in o]
    for key in MATRIX:
        v = kw.get(key)
        if v is not None:
            kw[key] = (lambda f: lambda x: f(x)[anp.array(o)][:, anp.array(o)])(v) if callable(v) else np.array(v)[np.ix_(o, o)].tolist()
    for m in kw.get("modifiers") or []:
        m["uncertainties"] = [m["uncertainties"][i] for i in o]
    return Change(kw, sp["pdf"], order=o)


def rescale(sp, k):
    """Signal yields (and their uncertainties) times k."""
    kw = zoo.kwargs_of(sp)
    s = kw["signal_yields"]
    kw["signal_yields"] = (lambda x: k * s(x)) if callable(s) else [k * v for v in s]
    for m in kw.get("modifiers") or []:
        m["uncertainties"] = (k * np.array(m["uncertainties"], float)).tolist()
    return Change(kw, sp["pdf"], k=k)


def units(sp, c):
    """All yields of a Gaussian measurement times c."""
    kw = zoo.kwargs_of(sp)
    for key in ("signal_yields", "background_yields", "data", "absolute_uncertainties", "covariance_matrix"):
        v = kw.get(key)
        if v is None:
            continue
        f = c * c if key == "covariance_matrix" else c
        kw[key] = (lambda g, f: lambda x: f * g(x))(v, f) if callable(v) else (f * np.array(v, float)).tolist()
    return Change(kw, sp["pdf"], unit=c)


def widen(sp, at):
    """One more bin without any signal (uncorrelated with the others)."""
    kw = zoo.kwargs_of(sp)
    new = {"signal_yields": 0.0, "background_yields": 4.0, "data": 5.0, "absolute_uncertainties": 0.8, "third_moment": 0.05, "absolute_uncertainty_envelops": [0.8, 0.9]}
    n = len(kw["data"])
    for key in PER_BIN:
        if kw.get(key) is not None:
            kw[key] = list(kw[key])[:at] + [new[key]] + list(kw[key])[at:]
    for key in MATRIX:
        if kw.get(key) is not None:
            old, out = np.array(kw[key], float), np.zeros((n + 1, n + 1))
            keep = [i for i in range(n + 1) if i != at]
            out[np.ix_(keep, keep)] = old
            out[at, at] = 1.0 if key == "correlation_matrix" else 0.64
            kw[key] = out.tolist()
    for m in kw.get("modifiers") or []:
        u = list(m["uncertainties"])
        zero = [0.0] * len(u[0]) if isinstance(u[0], (list, tuple)) else 0.0
        m["uncertainties"] = u[:at] + [zero] + u[at:]
    return Change(kw, sp["pdf"], extra=1)


def split(sp):
    kw = zoo.kwargs_of(sp)
    parts = [{k: [v[i]] for k, v in kw.items()} for i in range(len(kw["data"]))]
    if sp["pdf"] == zoo.MN:
        parts = [{**p, "covariance_matrix": [[kw["covariance_matrix"][i][i]]]} for i, p in enumerate(parts)]
    return Change(None, sp["pdf"], split=parts)


def container(sp, kind):
    kw = zoo.kwargs_of(sp)

    def conv(v):
        if kind == "tuple":
            return tuple(conv(x) for x in v) if isinstance(v, (list, tuple)) else v
        a = np.array(v)
        if kind == "float":
            return a.astype(float)
        if kind == "fortran":
            return np.asfortranarray(a.astype(float))
        if kind == "strided":
            big = np.repeat(a.astype(float), 2, axis=0)
            return big[::2]
        if kind == "list-float":
            return a.astype(float).tolist()
        raise ValueError(kind)
    for key in PER_BIN + MATRIX:
        if kw.get(key) is not None and not callable(kw[key]):
            kw[key] = conv(kw[key])
    for m in kw.get("modifiers") or []:
        m["uncertainties"] = conv(m["uncertainties"])
    return Change(kw, sp["pdf"])


def reorder(sp, order):
    """Signal modifiers listed in another order."""
    kw = zoo.kwargs_of(sp)
    kw["modifiers"] = [kw["modifiers"][i] for i in order]
    return Change(kw, sp["pdf"])


def translate(sp, pdf):
    """The same likelihood in terms of another backend."""
    kw = zoo.kwargs_of(sp)
    n = len(kw["data"])
    if sp["pdf"] in (zoo.UB, zoo.NO):
        u = np.array(kw.pop("absolute_uncertainties"), float)
        cov = np.diag(u**2)
    else:
        cov = np.array(kw.pop("covariance_matrix"), float)
        u = np.sqrt(np.diag(cov))
    if pdf in (zoo.UB, zoo.NO):
        kw["absolute_uncertainties"] = u.tolist()
    elif pdf == zoo.ES:
        kw["correlation_matrix"] = (cov / np.outer(u, u)).tolist()
        kw["absolute_uncertainty_envelops"] = [[x, x] for x in u.tolist()]
    else:
        kw["covariance_matrix"] = cov.tolist()
        if pdf == zoo.TM:
            kw["third_moment"] = [0.0] * n
    return Change(kw, pdf)


# ------------------------------------------------------------------ queries: kind of the answer and function of (model, scale)
# mu: signal strength(s), nll: log-likelihood up to a constant, num: unchanged number, data: per bin
Q = {
    "fit": ("mu", lambda m, k, e: m.maximize_likelihood(expected=e)[0]),
    "fit-positive": ("mu", lambda m, k, e: m.maximize_likelihood(expected=e, allow_negative_signal=False)[0]),
    "nll": ("num", lambda m, k, e: m.likelihood(0.7 / k, expected=e) - m.likelihood(0.0, expected=e)),
    "nll-2": ("num", lambda m, k, e: m.likelihood(2.0 / k, expected=e) - m.likelihood(0.7 / k, expected=e)),
    "ratio": ("num", lambda m, k, e: m.likelihood(0.7 / k, expected=e, return_nll=False) / m.likelihood(0.0, expected=e, return_nll=False)),
    "depth": ("num", lambda m, k, e: m.likelihood(0.0, expected=e) - m.maximize_likelihood(expected=e)[1]),
    "chi2": ("num", lambda m, k, e: m.chi2(1.3 / k, expected=e)),
    "pull": ("num", lambda m, k, e: m.pull(0.8 / k, expected=e)),
    "sigma_mu": ("mu", lambda m, k, e: m.sigma_mu(0.9 / k, expected=e)),
    "significance": ("num", lambda m, k, e: m.significance(expected=e)[1]),
    "significance-exp": ("num", lambda m, k, e: m.significance(expected=e)[0]),
    "exclusion": ("num", lambda m, k, e: m.exclusion_confidence_level(1.1 / k, expected=e)),
    "exclusion-q": ("num", lambda m, k, e: m.exclusion_confidence_level(1.1 / k, expected=e, allow_negative_signal=True)),
    "exclusion-chi2": ("num", lambda m, k, e: m.exclusion_confidence_level(1.1 / k, expected=e, calculator="chi_square")),
    "limit": ("mu", lambda m, k, e: m.poi_upper_limit(expected=e)),
    "limit-80": ("mu", lambda m, k, e: m.poi_upper_limit(expected=e, confidence_level=0.8)),
    "chi2-interval": ("mu", lambda m, k, e: m.chi2_test(expected=e)),
    "chi2-right": ("mu", lambda m, k, e: m.chi2_test(expected=e, limit_type="right", confidence_level=0.9)),
}
DATA = {
    "asimov": lambda m, k, e: m.generate_asimov_data(expected=e),
    "asimov-q0": lambda m, k, e: m.generate_asimov_data(expected=e, test_statistic="q0"),
}


def ask(q, m, k, e):
    try:
        return np.array(q(m, k, e), float)
    except Exception as exc:  # noqa: BLE001
        return f"{type(exc).__name__}: {str(exc)[:80]}"


def diagonal(sp):
    c = sp["kw"].get("covariance_matrix")
    return c is not None and not np.any(np.array(c) - np.diag(np.diag(c)))


def changes(sp, name, deep):
    """label -> transformation"""
    r = zoo.Ref(sp)
    n = r.nb
    out = {}
    plain = "sig" not in sp and "cov" not in sp
    for o in itertools.permutations(range(n)) if n < 4 else (tuple(range(n))[::-1], tuple(range(1, n)) + (0,), tuple(range(n))[::2] + tuple(range(n))[1::2]):
        if o != tuple(range(n)):
            out[f"bins in order {o}"] = lambda o=o: permute(sp, o)
    if "cov" not in sp and name not in UNSCALED:
        for k in (0.1, 0.25, 0.5, 2.0, 4.0, 10.0) if deep else (0.25, 4.0):
            out[f"signal times {k:.3g}"] = lambda k=k: rescale(sp, k)
    if sp["pdf"] in (zoo.NO, zoo.MN) and plain:
        for c in (0.5, 10.0, 1e3):
            out[f"units times {c}"] = lambda c=c: units(sp, c)
    if plain:
        for at in range(n + 1) if deep else {0, n}:
            out[f"dead bin at {at}"] = lambda at=at: widen(sp, at)
    if "cov" not in sp:
        for kind in ("tuple", "float", "list-float", "fortran", "strided"):
            out[f"{kind} inputs"] = lambda kind=kind: container(sp, kind)
    for o in list(itertools.permutations(range(len(sp["kw"].get("modifiers") or []))))[1:]:
        out[f"modifiers in order {o}"] = lambda o=o: reorder(sp, o)
    if n > 1 and plain and (sp["pdf"] in (zoo.PO, zoo.NO, zoo.UB) or sp["pdf"] == zoo.MN and diagonal(sp)) and not sp["kw"].get("modifiers") and r.alive:
        out["combination of the bins"] = lambda: split(sp)
    others = {zoo.UB: (zoo.CB, zoo.ES, zoo.TM), zoo.CB: (zoo.ES, zoo.TM), zoo.NO: (zoo.MN,)}.get(sp["pdf"], ()) if "cov" not in sp else ()
    if diagonal(sp):
        others += {zoo.CB: (zoo.UB,), zoo.MN: (zoo.NO,)}.get(sp["pdf"], ())
    for pdf in others:
        out[f"as {pdf}"] = lambda pdf=pdf: translate(sp, pdf)
    return out


UNSCALED = ("no2-sig", "mn2-tiny")  # several minima; steep enough for SLSQP to stop at its starting point
SKIP = ("po1-u", "po2-u")  # nuisance parameters without constraint: no unique fit
SHORT = ("fit", "nll", "chi2", "exclusion")  # for changes which do not reach the queries
EXTREME = (1e-7, 1e-4, 1e3)
LONG = ("limit-80", "chi2-right", "nll-2")  # thorough only
EXTRA = {
    "mn2-diag": zoo.spec(zoo.MN, [1.0, 3.0], [5.0, 2.5], [4.0, 7.0], covariance_matrix=[[2.0, 0.0], [0.0, 1.0]]),
    "cb2-diag": zoo.spec(zoo.CB, [1.0, 3.0], [5.0, 2.5], [4, 7], covariance_matrix=[[1.44, 0.0], [0.0, 0.25]]),
}


def models():
    return {**{k: v for k, v in zoo.catalogue().items() if k not in SKIP}, **zoo.large(), **EXTRA}


def asimov(m, q, e, n):
    """Expected yields of the bins of a model or of a combination of single bins."""
    d = q(m, 1.0, e)
    if isinstance(d, dict):
        return np.array([d[f"part{i}"][0] for i in range(n)], float)
    return np.array(d[:n], float)


def run(case, rec):
    sp, e, deep = models()[case["name"]], case["e"], case["deep"]
    r = zoo.Ref(sp)
    base = spey.get_backend(sp["pdf"])(**zoo.kwargs_of(sp), analysis="base")
    sigma = float(base.sigma_mu(0.9))
    names = [x for x in Q if deep or x not in LONG]
    want = {x: ask(Q[x][1], base, 1.0, e) for x in names}
    data = {x: asimov(base, q, e, r.nb) for x, q in DATA.items()}
    for x, w in want.items():
        rec.check(not isinstance(w, str), "fails", f"{case['name']} {e} {x}: {w}")
    for label, make in changes(sp, case["name"], deep).items():
        ch = make()
        m = ch.model()
        for x in (SHORT if label.endswith("inputs") and not deep else names):
            kind, q = Q[x]
            w = want[x]
            if ch.split is not None and x == "sigma_mu":  # another estimate (no Hessian)
                continue
            if ch.k != 1 and x == "significance-exp":  # refers to a signal strength of one
                continue
            got = ask(q, m, ch.k, e)
            rec.step()
            if isinstance(got, str) or isinstance(w, str):
                rec.check(got == w, "fails", f"{case['name']} {e} {x} with {label}: {got}")
                continue
            if kind == "mu":
                got = got * ch.k
                beyond = (np.abs(w) > BOUND * min(ch.k, 1.0)) & (np.abs(got) > BOUND * min(ch.k, 1.0))
                w, got = np.where(beyond, 0.0, w), np.where(beyond, 0.0, got)
            t = 0.03 * sigma if kind == "mu" else 6e-3
            with np.errstate(invalid="ignore"):
                ok = got.shape == w.shape and np.all((got == w) | (np.abs(got - w) <= t) | (np.isnan(got) & np.isnan(w)))
            rec.check(ok, "changed", lambda: f"{case['name']} {e} {x} with {label}: {got}, as given {w} (tolerance {t:.2g})")
            rec.outcome(x, np.round(w, 4).tolist())
        for x, q in DATA.items():
            if label.endswith("inputs") or (x == "asimov-q0" and ch.k != 1):
                continue
            n = r.nb + ch.extra
            got = asimov(m, q, e, n) / ch.unit
            w = data[x]
            if ch.extra:
                at = int(label.split()[-1])
                got = np.delete(got, at)
            if ch.order is not None:
                w = w[ch.order]
            rec.step()
            rec.check(got.shape == w.shape and np.all(np.abs(got - w) <= 0.01 * (1 + np.abs(w))), "data", lambda: f"{case['name']} {e} {x} with {label}: {got}, as given {w}")
        rec.state(case["name"], e, label)
        rec.trace()
        if len(rec.failures) > 12:
            return
    # a signal of any size is a signal: scales far outside the suggested range of the signal strength
    for k in EXTREME if "cov" not in sp else ():
        ch = rescale(sp, k)
        m = ch.model()
        rec.check(m.is_alive == base.is_alive, "alive", f"{case['name']} signal times {k}: is_alive {m.is_alive}")
        a, b = base.backend.config().minimum_poi, m.backend.config().minimum_poi
        rec.check(a == b or abs(a - b * k) <= 1e-9 * abs(a), "minimum", f"{case['name']} signal times {k}: minimum POI {b}, as given {a}")
        p = np.array([0.1 * ((i * 7) % 5 - 2) for i in range(r.npar)])
        for mu in (-0.1, 0.0, 0.4, 1.5):
            for q in (p, np.abs(p) / 2):
                x = [x.backend.get_logpdf_func(expected=e)(np.r_[mu / f, q[1:]]) for x, f in ((base, 1.0), (m, k))]
                rec.check(x[0] == x[1] or abs(x[0] - x[1]) <= 1e-6 * max(1.0, abs(x[0])) or not np.isfinite(x[0]), "changed", f"{case['name']} {e} signal times {k}: log-probability at {mu}: {x[1]}, as given {x[0]}")
                rec.step()
        if case["name"] not in UNSCALED and r.nb * 1.0 and r.alive:
            a, b = (ask(lambda m, f, e: m.likelihood(0.7 / f, expected=e), y, f, e) for y, f in ((base, 1.0), (m, k)))
            rec.check(not isinstance(b, str) and abs(a - b) <= 6e-3, "changed", f"{case['name']} {e} signal times {k}: NLL {b}, as given {a}")
        rec.state(case["name"], e, "extreme", k)
    rec.sample(f"{case['name']} {e}: {len(names)} queries")


def weight(case):
    return zoo.Ref(models()[case["name"]]).npar


def cases(tier):
    return [{"name": n, "e": e, "deep": tier == "thorough"} for n in models() for e in ("observed", "apriori")]
