"""M02: nothing the caller passes is modified, and later changes of it do not reach the model."""
import copy
import itertools

import numpy as np

import spey
from mc import zoo
from mc.queries import BASIC, LIMITS, flat, same

BOUNDS = {
    "quick": "53 models x 5 forms of the inputs (lists, tuples, arrays, read-only arrays, shared objects), 30 queries each, then inputs overwritten; 60 argument-carrying "
             "queries x 3 forms x 10 models and combinations; 30 failing constructions and queries; helpers, distributions, optimiser entry points",
    "thorough": "as quick with all models for the argument-carrying queries and all queries after overwriting",
}
ASSUMPTIONS = ["callables passed as signal or covariance are compared by identity"]


def snap(x):
    """Canonical, comparable picture of an argument."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else tuple(map(snap, x.ravel())))
    if isinstance(x, dict):
        return ("dict", tuple((snap(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(y) for y in x))
    if isinstance(x, (int, float, str, bool, type(None), np.number)):
        return (type(x).__name__, repr(x))
    if hasattr(x, "suggested_bounds"):
        return ("config", snap(vars(x)))
    return ("object", id(x))


class Raw(list):
    """A list that stays one in every form."""


def form(x, kind, top=True):
    """The argument in another form of the same content."""
    if type(x) is list:
        numeric = all(isinstance(y, (int, float)) for y in x) or (x and all(isinstance(y, (list, tuple)) and all(isinstance(z, (int, float)) for z in y) for y in x))
        if numeric and kind in ("array", "readonly"):
            a = np.array(x, float)
            if kind == "readonly":
                a.flags.writeable = False
            return a
        y = [form(v, kind, False) for v in x]
        return tuple(y) if kind == "tuple" and numeric else y
    if isinstance(x, dict):
        return {k: form(v, kind, False) for k, v in x.items()}
    return x


def ruin(x):
    """Overwrite an argument as far as its type allows."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 91.5
    elif isinstance(x, list):
        for y in x:
            ruin(y)
        for i, y in enumerate(x):
            if isinstance(y, (int, float)):
                x[i] = 91.5
            elif isinstance(y, tuple):
                x[i] = (88.0, 89.0)
    elif isinstance(x, dict):
        for k, v in list(x.items()):
            ruin(v)
            if isinstance(v, (int, float, str)):
                x[k] = "shape" if v == "normalization" else "normalization" if v == "shape" else 91.5


CHEAP = {k: f for k, f in BASIC.items() if k not in ("chi2-list", "exclusion-q", "asimov-fit-q")}


def answers(m, names):
    out = {}
    for k in names:
        try:
            out[k] = flat(BASIC[k](m, "observed"))
        except Exception as exc:
            out[k] = [("raised", repr(exc)[:80])]
    return out


def equal(a, b):
    return len(a) == len(b) and all((x == y) if isinstance(x, tuple) or isinstance(y, tuple) else same(x, y, 1e-6, 1e-7) for x, y in zip(a, b))


# ------------------------------------------------------------------------------ constructors
def run_construct(case, rec):
    name = case["name"]
    sp = zoo.catalogue()[name]
    names = list(BASIC) if case["deep"] else ["likelihood", "likelihood-pars", "fit", "asimov-data", "sigma_mu", "exclusion"]
    r = zoo.Ref(sp)
    base = answers(zoo.build(sp), names)
    cls = spey.get_backend(sp["pdf"])
    for kind in ("list", "tuple", "array", "readonly"):
        kw = form(zoo.kwargs_of(sp), kind)
        before = snap(kw)
        m = cls(**kw)
        rec.step()
        rec.check(snap(kw) == before, "constructor", f"{name} ({kind}): arguments are {kw} after construction")
        # queries and the pieces built on first use
        m.backend.config(), m.backend.is_alive, repr(m)
        p = np.full(r.npar, 0.5)
        p.flags.writeable = kind != "readonly"
        pb = snap(p)
        for f in (m.backend.get_logpdf_func(), m.backend.get_objective_function(), m.backend.get_hessian_logpdf_func(), m.backend.expected_data, m.backend.get_sampler(p)):
            f(3) if f.__name__ == "sampler" else f(p)
        rec.check(snap(p) == pb, "parameters", f"{name} ({kind}): parameters are {p}")
        got = answers(m, names)
        rec.check(snap(kw) == before, "query", f"{name} ({kind}): arguments of the constructor are {kw} after the queries")
        rec.check(all(equal(got[k], base[k]) for k in names), "form", lambda: f"{name} ({kind}): {[(k, got[k][:4], base[k][:4]) for k in names if not equal(got[k], base[k])][:3]}")
        # later changes of the arguments do not reach the model: once before and once after the first query
        for early in (True, False):
            kw = form(zoo.kwargs_of(sp), "array" if kind == "readonly" else kind)
            if kind == "list" and kw.get("signal_parameter_bounds"):
                kw["signal_parameter_bounds"] = [list(x) for x in kw["signal_parameter_bounds"]]
            m = cls(**kw)
            if not early:
                answers(m, names[:2])
            ruin(kw)
            got = answers(m, names)
            rec.step()
            rec.check(all(equal(got[k], base[k]) for k in names), "snapshot",
                      lambda: f"{name} ({kind}, {'unused' if early else 'used'}): after its inputs are overwritten {[(k, got[k][:4], base[k][:4]) for k in names if not equal(got[k], base[k])][:3]}")
        rec.state(name, kind)
        rec.trace(3)
        rec.outcome(name, kind, str(base["likelihood"]))
    # two models built from one set of objects
    kw = zoo.kwargs_of(sp)
    a, b = cls(**kw), cls(**kw)
    ga, gb = answers(a, names), answers(b, names)
    rec.check(all(equal(ga[k], base[k]) and equal(gb[k], base[k]) for k in names), "shared", f"{name}: two models of the same objects differ")
    rec.sample(f"{name}: lists, tuples, arrays, read-only arrays")


# ------------------------------------------------------------------------------ queries
def queries_of(m, r, kind):
    """(name, call, arguments to be watched) with explicit arguments in the requested form."""
    f = lambda x: form(x, kind)  # noqa: E731
    data = f([float(x) + 1 for x in r.n])
    full = f([float(x) + 1 for x in r.n] + [0.0] * (len(r.expected_data([0.5] * r.npar)) - r.nb))
    init = f([0.4] + [0.1] * (r.npar - 1))
    bounds = [(0.1, 0.9)] + [(-0.5, 0.4)] * (r.npar - 1)
    bounds2 = [[0.1, 0.9]] + [[-0.5, 0.4]] * (r.npar - 1)
    dic, dic2, dic0 = {0: 0.6}, {0: [0.2, 0.6]}, {0: np.array([0.2, 0.6])}
    names = [0]
    cons = []
    opts = {"maxiter": 300, "method": "SLSQP"}
    lst = f([0.2, 0.6])
    yield "likelihood-data", lambda: m.likelihood(0.6, data=data, init_pars=init, par_bounds=bounds), (data, init, bounds)
    yield "likelihood-full-data", lambda: m.likelihood(0.6, data=full, return_parameters=True), (full,)
    yield "likelihood-dict", lambda: m.likelihood(dic, init_pars=init, par_bounds=bounds2, constraints=cons), (dic, init, bounds2, cons)
    yield "likelihood-outside", lambda: m.likelihood(3.5, init_pars=init, par_bounds=bounds), (init, bounds)
    yield "likelihood-options", lambda: m.likelihood(0.6, **opts), (opts,)
    yield "fit-data", lambda: m.maximize_likelihood(data=data, init_pars=init, par_bounds=bounds), (data, init, bounds)
    yield "fit-poi", lambda: m.maximize_likelihood(poi_indices=names, par_bounds=bounds2, constraints=cons), (names, bounds2, cons)
    yield "fit-fixed", lambda: m.maximize_likelihood(fixed_poi_value=dic, init_pars=init, par_bounds=bounds), (dic, init, bounds)
    yield "fit-positive", lambda: m.maximize_likelihood(allow_negative_signal=False, init_pars=init, par_bounds=bounds), (init, bounds)
    yield "fit-retries", lambda: m.maximize_likelihood(init_pars=init, par_bounds=bounds, maxiter=1, ntrials=2), (init, bounds)
    yield "fit-minuit", lambda: m.maximize_likelihood(init_pars=init, par_bounds=bounds, minimizer="minuit"), (init, bounds)
    yield "asimov-data", lambda: m.generate_asimov_data(init_pars=init, par_bounds=bounds), (init, bounds)
    yield "asimov-data-q0", lambda: m.generate_asimov_data(test_statistic="q0", data=data), (data,)
    yield "asimov-likelihood", lambda: m.asimov_likelihood(0.4, init_pars=init, par_bounds=bounds), (init, bounds)
    yield "asimov-fit", lambda: m.maximize_asimov_likelihood(init_pars=init, par_bounds=bounds, poi_indices=names), (init, bounds, names)
    yield "chi2-list", lambda: m.chi2(lst, init_pars=init, par_bounds=bounds), (lst, init, bounds)
    yield "chi2-scan", lambda: m.chi2(dic2, mle_kwargs=opts, likelihood_kwargs=opts), (dic2, opts)
    yield "chi2-scan-array", lambda: m.chi2(dic0, poi_test_denominator=dic), (dic0, dic)
    yield "pull-list", lambda: m.pull(lst, init_pars=init), (lst, init)
    yield "sigma", lambda: m.sigma_mu(0.5, init_pars=init, par_bounds=bounds), (init, bounds)
    yield "significance", lambda: m.significance(init_pars=init, par_bounds=bounds), (init, bounds)
    yield "exclusion", lambda: m.exclusion_confidence_level(0.8, init_pars=init), (init,)
    yield "exclusion-chi2", lambda: m.exclusion_confidence_level(0.8, calculator="chi_square", init_pars=init, par_bounds=bounds), (init, bounds)
    yield "limit", lambda: m.poi_upper_limit(optimiser_arguments=opts), (opts,)
    yield "sampler", lambda: m.fixed_poi_sampler(0.5, size=2, init_pars=init, par_bounds=bounds), (init, bounds)
    yield "sampler-dict", lambda: m.fixed_poi_sampler(dic, size=2), (dic,)
    yield "objective-data", lambda: m.backend.get_objective_function(data=data)(np.full(r.npar, 0.3)), (data,)
    yield "hessian-data", lambda: m.backend.get_hessian_logpdf_func(data=data)(np.full(r.npar, 0.3)), (data,)
    # failing ones
    bad, worse = f([1.0] * 30), {"no such name": 1.0}
    two = {0: [0.1], 1: [0.2]}
    yield "fail-init", lambda: m.likelihood(0.4, init_pars=bad, par_bounds=bounds), (bad, bounds)
    yield "fail-name", lambda: m.likelihood(worse, init_pars=init), (worse, init)
    yield "fail-scan", lambda: m.chi2(two, init_pars=init, par_bounds=bounds), (two, init, bounds)
    yield "fail-calculator", lambda: m.exclusion_confidence_level(0.8, calculator="none", init_pars=init, par_bounds=bounds), (init, bounds)
    yield "fail-data", lambda: m.maximize_likelihood(data=["a", "b"], init_pars=init, par_bounds=bounds), (init, bounds)
    yield "fail-options", lambda: m.poi_upper_limit(confidence_level=3.0, optimiser_arguments=opts), (opts,)


def run_query(case, rec):
    name = case["name"]
    r = zoo.Ref(zoo.catalogue()[name])
    for kind in ("list", "tuple", "array"):
        m = zoo.build(zoo.catalogue()[name])
        for label, call, watched in queries_of(m, r, kind):
            before = [snap(x) for x in watched]
            inside = snap([m.backend.config(), m.backend.data, m.backend.background_yields])
            try:
                first = flat(call())
            except Exception as exc:
                first = [("raised", repr(exc)[:200])]
            rec.step()
            after = [snap(x) for x in watched]
            rec.check(after == before, "argument", lambda: f"{name} ({kind}) {label}: argument {[i for i, (x, y) in enumerate(zip(before, after)) if x != y]} of {watched} was modified")
            rec.check(snap([m.backend.config(), m.backend.data, m.backend.background_yields]) == inside, "model-state", f"{name} ({kind}) {label}: configuration or data of the model changed")
            if label.startswith("fail"):
                continue
            rec.check(first[0] != "raised" and not (isinstance(first[0], tuple) and first[0][0] == "raised"), "raises", f"{name} ({kind}) {label}: {first}")
            # the same objects again give the same answer, and so do equal ones after the first were overwritten
            rec.state(name, kind, label)
            rec.outcome(name, label, str(first)[:60])
            if not label.startswith("sampler"):
                rec.check(equal(flat(call()), first), "again", f"{name} ({kind}) {label}: second call differs")
                rec.step()
            rec.trace()
        # arguments overwritten afterwards do not reach remembered results
        m = zoo.build(zoo.catalogue()[name])
        fresh = lambda model, label: {k: (c, w) for k, c, w in queries_of(model, r, kind)}[label]  # noqa: E731
        for label in [k for k, _, _ in queries_of(m, r, kind)]:
            if label.startswith(("fail", "sampler", "likelihood-options", "chi2-scan", "limit")):
                continue
            call, watched = fresh(m, label)
            call()
            for x in watched:
                ruin(x)
            want = flat(fresh(zoo.build(zoo.catalogue()[name]), label)[0]())
            rec.check(equal(flat(fresh(m, label)[0]()), want), "remembered", f"{name} ({kind}) {label}: a repeated query depends on later changes of the first one's arguments")
            rec.step(3)


def run_combiner(case, rec):
    names = case["group"]
    cat = zoo.catalogue()

    def make():
        return [zoo.build(cat[n], analysis=f"m{i}") for i, n in enumerate(names)]
    members = make()
    listed = list(members)
    c = spey.UnCorrStatisticsCombiner(*listed)
    state = lambda: [(x.analysis, id(x), snap([x.backend.config(), x.backend.data])) for x in listed]  # noqa: E731
    before_members = state()
    for kind in ("list", "array"):
        data = {f"m{i}": form([float(x) + 1 for x in cat[n]["kw"]["data"]], kind) for i, n in enumerate(names)}
        part = {"m0": data["m0"]}
        opts = {cat[names[0]]["pdf"]: {"maxiter": 200}}
        bounds, init, poi = [(0.1, 2.0)], [0.4], ["mu"]
        ident, scan = {"mu": 0.5}, form([0.2, 0.9], kind)
        calls = [
            ("likelihood", lambda: c.likelihood(0.5, data=data, statistical_model_options=opts), (data, opts)),
            ("likelihood-part", lambda: c.likelihood(0.5, data=part), (part,)),
            ("fit", lambda: c.maximize_likelihood(data=data, par_bounds=bounds, init_pars=init, poi_indices=poi, statistical_model_options=opts), (data, bounds, init, poi, opts)),
            ("asimov-data", lambda: c.generate_asimov_data(statistical_model_options=opts), (opts,)),
            ("asimov-likelihood", lambda: c.asimov_likelihood(0.5, statistical_model_options=opts), (opts,)),
            ("asimov-fit", lambda: c.maximize_asimov_likelihood(par_bounds=bounds, init_pars=init, statistical_model_options=opts, poi_indices=poi), (bounds, init, opts, poi)),
            ("chi2", lambda: c.chi2(scan, mle_kwargs={"statistical_model_options": opts}, likelihood_kwargs={"statistical_model_options": opts}) if all(len(x.backend.config().suggested_init) for x in c) else None, (scan, opts)),
            ("limit", lambda: c.poi_upper_limit(optimiser_arguments={"statistical_model_options": opts}), (opts,)),
            ("exclusion", lambda: c.exclusion_confidence_level(0.7, statistical_model_options=opts), (opts,)),
            ("fail", lambda: c.likelihood(ident, data={"m0": ["x"]}, statistical_model_options=opts), (ident, opts)),
        ]
        for label, call, watched in calls:
            before = [snap(x) for x in watched]
            try:
                call()
            except Exception as exc:
                rec.check(label in ("fail", "chi2"), "raises", f"{names} {label}: {exc!r}")
            rec.step()
            rec.check([snap(x) for x in watched] == before, "argument", f"{names} ({kind}) {label}: {watched}")
            rec.check(state() == before_members and [id(x) for x in c] == [id(x) for x in members], "members", f"{names} {label}: members changed")
            rec.state(str(names), kind, label)
            rec.trace()
    # the list of models handed in and out is not the combination's own
    out = c.statistical_models
    rec.check(isinstance(out, tuple), "members", "the tuple of models")
    names_out = c.analyses
    names_out.append("x")
    rec.check(c.analyses == [f"m{i}" for i in range(len(names))], "members", f"{c.analyses}")


# ------------------------------------------------------------------------------ failing constructions and free functions
def run_functions(case, rec):
    from spey.backends.default_pdf.third_moment import compute_third_moments, third_moment_expansion
    from spey.backends.default_pdf.uncertainty_synthesizer import signal_uncertainty_synthesizer
    from spey.backends.distributions import ConstraintModel, MainModel
    from spey.base.model_config import ModelConfig
    from spey.hypothesis_testing.asymptotic_calculator import compute_asymptotic_confidence_level
    from spey.hypothesis_testing.toy_calculator import compute_toy_confidence_level
    from spey.optimizer.core import fit
    import spey.helper_functions as hf

    cov = [[2.0, 0.3, 0.1], [0.3, 1.0, -0.2], [0.1, -0.2, 0.5]]
    cor = [[1.0, 0.3, 0.1], [0.3, 1.0, -0.2], [0.1, -0.2, 1.0]]
    v = [3.0, 5.0, 4.0]
    mods = [{"name": "a", "type": "shape", "uncertainties": [0.1, 0.2, 0.3]}, {"name": "b", "type": "normalization", "uncertainties": [[0.1, 0.2], [0.1, 0.3], [0.2, 0.2]]}]
    cfg = lambda: ModelConfig(0, -2.0, [1.0, 0.5, 0.2], [(-2.0, 10.0), (None, None), (-1.0, 1.0)], ["mu", "a", "b"])  # noqa: E731
    obj = lambda p: float(np.sum((np.asarray(p) - 0.3) ** 2))  # noqa: E731
    listform = ("list", "array", "readonly")
    bounded = lambda p: 5.0 - float(np.sum(np.asarray(p) ** 2))  # noqa: E731
    # (name, call on copies of the arguments, arguments, forms)
    todo = [
        ("corr2cov", hf.correlation_to_covariance, (cor, [1.0, 2.0, 0.5]), ("array", "readonly")),
        ("cov2corr", hf.covariance_to_correlation, (cov,), ("array", "readonly")),
        ("merge", lambda a, b, c, g, s: hf.merge_correlated_bins(a, b, c, g, s, return_group_indices=True), (v, v, cov, Raw([Raw([0, 2])]), v), ("array", "readonly")),
        ("merge-overlap", lambda a, b, c, g: hf.merge_correlated_bins(a, b, c, g), (v, v, cov, Raw([Raw([0, 2]), Raw([2, 1])])), ("array",)),
        ("third-moments", compute_third_moments, (v, [1.0, 2.0, 3.0]), listform),
        ("expansion", lambda a, b, c: third_moment_expansion(a, b, c, True), (v, cov, [0.1, -0.2, 0.0]), ("array", "readonly")),
        ("expansion-invalid", lambda a, b, c: third_moment_expansion(a, b, c, True), (v, cov, [100.0, 0.2, 0.1]), ("array", "readonly")),
        ("synthesizer", lambda s, m: signal_uncertainty_synthesizer(s, m)["lambda"](np.full(20, 0.4)), (v, mods), listform),
        ("asymptotic", lambda: compute_asymptotic_confidence_level(1.0, 0.3, "qtilde"), (), ("list",)),
        ("toys", lambda a, b: compute_toy_confidence_level(a, b, 1.0, "qtilde"), (v, [1.0, 0.5, 2.0]), listform),
        ("fit-free", lambda i, b, c: fit(obj, c, initial_parameters=i, bounds=b), ([1.0, 0.5, 0.2], [(-1.0, 3.0), (None, None), (-1.0, 1.0)], cfg()), listform),
        ("fit-fixed", lambda i, b, c: fit(obj, c, initial_parameters=i, bounds=b, fixed_poi_value=5.0), ([1.0, 0.5, 0.2], [(-1.0, 3.0), (-3.0, 3.0), (-1.0, 1.0)], cfg()), listform),
        ("fit-fixed-many", lambda i, b, c, d: fit(obj, c, initial_parameters=i, bounds=b, fixed_poi_value=d), ([1.0, 0.5, 0.2], [(-1.0, 3.0), (-3.0, 3.0), (-1.0, 1.0)], cfg(), {0: 5.0, 2: 4.0}), listform),
        ("fit-config", lambda c: fit(obj, c, fixed_poi_value=12.0), (cfg(),), ("list",)),
        ("fit-minuit", lambda i, b, c: fit(obj, c, initial_parameters=i, bounds=b, fixed_poi_value=5.0, minimizer="minuit"), ([1.0, 0.5, 0.2], [(-1.0, 3.0), (-3.0, 3.0), (-1.0, 1.0)], cfg()), listform),
        ("fit-retries", lambda i, b, c: fit(obj, c, initial_parameters=i, bounds=b, maxiter=1, ntrials=2), ([1.0, 0.5, 0.2], [(-1.0, 3.0), (-3.0, 3.0), (-1.0, 1.0)], cfg()), listform),
        ("fit-constrained", lambda c, k: fit(obj, c, constraints=k), (cfg(), [{"type": "ineq", "fun": bounded}]), ("list",)),
        ("fit-constrained-fixed", lambda c, k: fit(obj, c, constraints=k, fixed_poi_value={0: 1.0, 1: 0.2}), (cfg(), [{"type": "ineq", "fun": bounded}]), ("list",)),
        ("fit-constraints", lambda c, k: fit(obj, c, constraints=k), (cfg(), [{"type": "ineq", "fun": len}]), ("list",)),
        ("derived", lambda c, d: (c.fixed_poi_bounds(30.0), c.fixed_poi_bounds_multi(d), c.rescale_poi_bounds(False, 4.0), c.resolve_poi_indices({"mu": 1.0}), c.npar), (cfg(), {0: 20.0, 2: 7.0}), ("list",)),
    ]
    main = MainModel(lambda p: p[0] * np.array([1.0, 2.0]) + np.array([3.0, 4.0]), pdf_type="poiss")
    con = [{"distribution_type": "normal", "args": [np.zeros(1), np.ones(1)], "kwargs": {"domain": slice(1, 2)}},
           {"distribution_type": "multivariatenormal", "args": [np.zeros(2), np.eye(2)], "kwargs": {"domain": slice(2, 4)}}]
    todo += [
        ("main-logprob", main.log_prob, ([0.4, 0.1], [3.0, 5.0]), listform),
        ("main-sample", lambda p: main.sample(p, 3), ([0.4, 0.1],), listform),
        ("main-expected", main.expected_data, ([0.4, 0.1],), listform),
        ("constraints", lambda c, p: (lambda k: (k.log_prob(p), k.sample(p, 3), k.expected_data()))(ConstraintModel(c)), (con, [0.1, 0.2, 0.3, 0.4]), ("array", "readonly")),
    ]
    for label, call, args, forms in todo:
        for kind in forms:
            given = [copy.deepcopy(form(x, kind)) if not isinstance(x, np.ndarray) else x.copy() for x in args]
            if kind == "readonly":
                for x in given:
                    if isinstance(x, np.ndarray):
                        x.flags.writeable = False
            before = [snap(x) for x in given]
            err = None
            try:
                call(*given)
            except Exception as exc:
                err = exc
            rec.step()
            rec.check([snap(x) for x in given] == before, "argument", f"{label} ({kind}): {given}")
            rec.check(err is None or label in ("merge-overlap", "fit-constraints"), "raises", f"{label} ({kind}): {err!r}")
            rec.state(label, kind)
            rec.trace()
    # constructions that fail
    good = zoo.kwargs_of(zoo.catalogue()["ub2-asym"])
    for k, v_ in [("signal_yields", ["x", 1.0]), ("background_yields", [1.0]), ("data", [1.0, 2.0, 3.0]), ("absolute_uncertainties", ["a", "b"]), ("modifiers", [{"type": "nothing", "uncertainties": [1.0, 2.0]}]),
                  ("modifiers", [{"type": "shape", "uncertainties": [1.0]}]), ("modifiers", [{"type": "shape"}]), ("signal_parameter_bounds", [(0, 1)]), ("signal_yields", lambda p: p)]:
        kw = {**copy.deepcopy(good), k: v_}
        before = snap(kw)
        try:
            m = spey.get_backend(zoo.UB)(**kw)
            m.likelihood(0.5)
        except Exception:
            pass
        rec.step()
        rec.check(snap(kw) == before, "constructor", f"failing construction with {k}={v_}: {kw}")
        rec.state("bad", k, str(v_)[:30])
    # models keep their configuration
    given = cfg()
    before = snap(given)
    from mc import backends as bk

    class Back(bk.Counting):
        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return given_small
    given_small = ModelConfig(0, -1.0, [1.0, 0.0], [(-1.0, 10.0), (-5.0, 5.0)], ["mu", "theta"])
    m = spey.StatisticalModel(Back([1.0, 2.0], [5.0, 6.0], [7.0, 5.0], 0.2), "x")
    before = snap(given_small)
    for k, f in BASIC.items():
        for e in ("observed", "apriori"):
            try:
                f(m, e)
            except Exception:
                pass
            rec.step()
            rec.check(snap(given_small) == before, "config", f"{k} {e}: configuration of the backend changed to {vars(given_small)}")
    for p in (-3.0, 14.0, {"theta": 6.0}, {"mu": 20.0, "theta": -7.0}):
        try:
            m.likelihood(p)
        except Exception:
            pass
        rec.check(snap(given_small) == before, "config", f"likelihood({p}): configuration of the backend changed to {vars(given_small)}")


def cases(tier):
    deep = tier == "thorough"
    cat = list(zoo.catalogue())
    some = cat if deep else ["po1", "no2", "mn2-sig", "ub1", "ub2-norm", "cb1", "tm1", "es1"]
    out = [{"t": "construct", "name": k, "deep": deep} for k in cat]
    out += [{"t": "query", "name": k} for k in some]
    out += [{"t": "combiner", "group": g} for g in (["po1", "po2"], ["ub1", "no2", "cb1"], ["mn2", "tm1"])]
    return out + [{"t": "functions"}]


def weight(case):
    return {"construct": 2, "query": 8, "combiner": 8, "functions": 4}[case["t"]]


def run(case, rec):
    {"construct": run_construct, "query": run_query, "combiner": run_combiner, "functions": run_functions}[case["t"]](case, rec)
