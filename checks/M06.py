"""M06: data and expectation selection reach every query consistently (metamorphic, all models x all queries)."""
import copy
import itertools

import numpy as np

import spey
from mc import zoo
from mc.queries import BASIC, LIMITS, flat, same
from spey import ExpectationType

BOUNDS = {
    "quick": "53 models and 6 combinations x 24 queries x 3 expectation types (enumeration and string) x data selections",
    "thorough": "as quick with further observations per model",
}
ASSUMPTIONS = ["two models built from equal inputs follow identical optimiser paths"]
E = ExpectationType


def with_data(sp, data):
    out = copy.deepcopy(sp)
    out["kw"]["data"] = [float(x) for x in data]
    return out


def ask(q, m, e):
    try:
        return q(m, e)
    except Exception as exc:  # noqa: BLE001  the same query has to fail the same way
        return f"{type(exc).__name__}"


def compare(rec, label, a, b, tol=1e-7):
    rec.step(2)
    ok = not isinstance(a, str) and same(a, b, rtol=tol, atol=1e-8) if not (isinstance(a, str) and isinstance(b, str)) else a == b
    rec.check(ok, "selection", lambda: f"{label}: {a} / {b}")
    rec.state(label)
    rec.trace()
    rec.outcome(str(flat(a))[:80] if not isinstance(a, str) else a)


def observed_only(name):
    return name in ("limit", "limit-90")


def run_model(case, rec):
    sp = zoo.catalogue()[case["name"]]
    m = zoo.build(sp, analysis="m")
    r = zoo.Ref(sp)
    bkg = zoo.build(with_data(sp, r.b), analysis="m")
    twin = zoo.build(sp, analysis="m")
    queries = {**BASIC, **LIMITS} if case["limits"] else dict(BASIC)
    if r.npar > 2:
        queries.pop("chi2-interval", None)
    for name, q in queries.items():
        # post-fit expected and observed use the observation
        obs, post, pre = ask(q, m, E.observed), ask(q, m, E.aposteriori), ask(q, m, E.apriori)
        if name not in ("exclusion", "exclusion-q", "exclusion-chi2", "limit", "limit-90"):
            compare(rec, f"{case['name']} {name}: observed = aposteriori", obs, post)
            compare(rec, f"{case['name']} {name}: apriori = observed of the background model", pre, ask(q, bkg, E.observed))
        compare(rec, f"{case['name']} {name}: apriori = aposteriori of the background model", pre, ask(q, bkg, E.aposteriori))
        compare(rec, f"{case['name']} {name}: apriori of the background model", pre, ask(q, bkg, E.apriori))
        for e, text, got in ((E.observed, "observed", obs), (E.aposteriori, "aposteriori", post), (E.apriori, "apriori", pre)):
            if name not in LIMITS or e == E.observed:
                compare(rec, f"{case['name']} {name}: '{text}' given as a string", ask(q, twin, text), got)
        if len(rec.failures) > 15:
            return
    # explicit data replace the observation whatever the expectation type
    for data in case["data"]:
        d = [float(x) * data[0] + data[1] for x in r.n]
        other = zoo.build(with_data(sp, d))
        for form in (list(d), np.array(d)):
            for e in (E.observed, E.apriori, E.aposteriori):
                attempt = lambda q: ask(lambda *_: q(), None, None)  # noqa: E731
                lab = f"{case['name']} data={d} as {type(form).__name__} {e}"
                compare(rec, lab + " likelihood", attempt(lambda: m.likelihood(0.7, expected=e, data=form)), attempt(lambda: other.likelihood(0.7)))
                compare(rec, lab + " likelihood-pars", attempt(lambda: m.likelihood(0.0, expected=e, data=form, return_parameters=True)), attempt(lambda: other.likelihood(0.0, return_parameters=True)))
                compare(rec, lab + " fit", attempt(lambda: m.maximize_likelihood(expected=e, data=form)), attempt(lambda: other.maximize_likelihood()))
                compare(rec, lab + " fit+", attempt(lambda: m.maximize_likelihood(expected=e, data=form, allow_negative_signal=False)), attempt(lambda: other.maximize_likelihood(allow_negative_signal=False)))
                compare(rec, lab + " asimov data", attempt(lambda: m.generate_asimov_data(expected=e, data=form)), attempt(lambda: other.generate_asimov_data()))
                compare(rec, lab + " asimov data q0", attempt(lambda: m.generate_asimov_data(expected=e, data=form, test_statistic="q0")), attempt(lambda: other.generate_asimov_data(test_statistic="q0")))
                compare(rec, lab + " sigma_mu", ask(lambda m, e: m.sigma_mu_from_hessian(0.9, expected=e, data=form), m, e), ask(lambda m, e: m.sigma_mu_from_hessian(0.9), other, e))
                p = np.array([0.4] + [0.1] * (r.npar - 1))
                be, bo = m.backend, other.backend
                compare(rec, lab + " logpdf", be.get_logpdf_func(expected=e, data=form)(p), bo.get_logpdf_func()(p))
                compare(rec, lab + " objective", be.get_objective_function(expected=e, data=form)(p), bo.get_objective_function()(p))
                compare(rec, lab + " hessian", be.get_hessian_logpdf_func(expected=e, data=form)(p), bo.get_hessian_logpdf_func()(p))
        if len(rec.failures) > 15:
            return
    # samples depend on the expectation only through the fitted nuisance parameters
    for e in (E.apriori, E.observed):
        src = bkg if e == E.apriori else m
        np.random.seed(3)
        a = m.fixed_poi_sampler(0.5, size=4, expected=e)
        np.random.seed(3)
        b = src.fixed_poi_sampler(0.5, size=4)
        compare(rec, f"{case['name']} sampler {e}", a, b)
    rec.sample(f"{case['name']}: {len(queries)} queries x 3 expectations, {len(case['data'])} data sets")


GROUPS = [["po2", "no2"], ["ub2", "cb2", "po1"], ["mn2", "tm2"], ["es2", "ub3"], ["po2-u", "ub2-norm"], ["no1", "no2", "no3"]]


def combination(names, change=None):
    sps = [zoo.catalogue()[n] for n in names]
    if change is not None:
        sps = [with_data(sp, change(zoo.Ref(sp))) for sp in sps]
    return spey.UnCorrStatisticsCombiner(*[zoo.build(sp, analysis=f"m{i}") for i, sp in enumerate(sps)])


def run_group(case, rec):
    names = case["group"]
    c, bkg = combination(names), combination(names, lambda r: r.b)
    for name, q in {**BASIC, **LIMITS}.items():
        if name in ("likelihood-pars", "limit-90", "chi2-right"):
            continue
        obs, post, pre = ask(q, c, E.observed), ask(q, c, E.aposteriori), ask(q, c, E.apriori)
        if name not in ("exclusion", "exclusion-q", "exclusion-chi2", "limit"):
            compare(rec, f"{names} {name}: observed = aposteriori", obs, post)
            compare(rec, f"{names} {name}: apriori = observed of the background models", pre, ask(q, bkg, E.observed))
        compare(rec, f"{names} {name}: apriori = aposteriori of the background models", pre, ask(q, bkg, E.aposteriori))
        compare(rec, f"{names} {name}: strings", ask(q, c, "apriori"), pre)
        compare(rec, f"{names} {name}: strings", ask(q, c, "observed"), obs)
    # data by analysis name; members without an entry keep their own
    for mask in itertools.product((0, 1), repeat=len(names)):
        new = combination(names, None)
        refs = [zoo.Ref(zoo.catalogue()[n]) for n in names]
        data = {f"m{i}": [float(x) + 2 for x in refs[i].n] for i, k in enumerate(mask) if k}
        sps = [with_data(zoo.catalogue()[n], refs[i].n + 2) if mask[i] else zoo.catalogue()[n] for i, n in enumerate(names)]
        other = spey.UnCorrStatisticsCombiner(*[zoo.build(sp, analysis=f"m{i}") for i, sp in enumerate(sps)])
        if any(mask):  # no events at all is an observation, too
            data = {k: [0.0] * len(v) for k, v in data.items()}
            sps = [with_data(zoo.catalogue()[n], refs[i].n * 0) if mask[i] else zoo.catalogue()[n] for i, n in enumerate(names)]
            empty = spey.UnCorrStatisticsCombiner(*[zoo.build(sp, analysis=f"m{i}") for i, sp in enumerate(sps)])
            for mu in (0.0, 0.8):
                compare(rec, f"{names} empty data {mask} likelihood {mu}", new.likelihood(mu, data=data), empty.likelihood(mu))
            compare(rec, f"{names} empty data {mask} fit", new.maximize_likelihood(data=data, initial_muhat_value=0.3, allow_negative_signal=False), empty.maximize_likelihood(initial_muhat_value=0.3, allow_negative_signal=False))
            data = {f"m{i}": [float(x) + 2 for x in refs[i].n] for i, k in enumerate(mask) if k}
        for mu in (0.0, 0.8):
            compare(rec, f"{names} data {mask} likelihood {mu}", new.likelihood(mu, data=data), other.likelihood(mu))
        compare(rec, f"{names} data {mask} fit", new.maximize_likelihood(data=data, initial_muhat_value=0.3), other.maximize_likelihood(initial_muhat_value=0.3))


def cases(tier):
    out = []
    for k in zoo.catalogue():
        r = zoo.Ref(zoo.catalogue()[k])
        data = [[1.0, 2.0], [0.0, 0.0]] + ([[0.5, 0.25]] if tier == "thorough" else [])
        out.append({"t": "m", "name": k, "limits": r.npar <= (6 if tier == "thorough" else 3), "data": data})
    out += [{"t": "g", "group": g} for g in GROUPS]
    return out


def weight(case):
    return 500 if case["t"] == "g" else zoo.Ref(zoo.catalogue()[case["name"]]).npar ** 2


def run(case, rec):
    (run_model if case["t"] == "m" else run_group)(case, rec)
