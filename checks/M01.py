"""M01: answers after arbitrary histories of queries, failures, samples and modified results equal those of fresh models."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

import spey
from mc import zoo
from mc.queries import BASIC, LIMITS, flat, same

BOUNDS = {
    "quick": "9 models and combinations; every history of one operation out of 105 (its result being modified in place) followed by 13 probes; all histories of two "
             "of 24 operations on a model followed by 7 probes; baselines computed in new processes",
    "thorough": "all 53 models and 5 combinations followed by all 69 probes and by 12 in reverse order, histories of two of 40 operations on 10 models and of three of 18 on 2",
}
ASSUMPTIONS = ["answers are deterministic to 1e-7 (no query depends on random numbers except the toy ones, which are only used as history)"]
CASE_TIMEOUT = 600
EXP = ("observed", "aposteriori", "apriori")


# ------------------------------------------------------------------------------ subjects
def twin(sp):
    """The same model with other data and yields."""
    out = json.loads(json.dumps(sp))
    out["kw"]["data"] = [float(int(x) + 2) for x in out["kw"]["data"]]
    out["kw"]["background_yields"] = [x + 1.0 for x in out["kw"]["background_yields"]]
    return out


COMBINED = {"co-po": ["po2", "no2"], "co-nuis": ["ub2", "cb1"], "co-many": ["no1", "no2", "no3"], "co-same": ["po1", "po1"], "co-mix": ["mn2", "tm1"]}


def subject(name):
    cat = zoo.catalogue()
    if name in COMBINED:
        return spey.UnCorrStatisticsCombiner(*[zoo.build(cat[n], analysis=f"m{i}", xsection=0.5 + i) for i, n in enumerate(COMBINED[name])])
    return zoo.build(cat[name], analysis="m0", xsection=0.5)


def other(name):
    cat = zoo.catalogue()
    return zoo.build(twin(cat[COMBINED.get(name, [name])[0]]), analysis="m0")


# ------------------------------------------------------------------------------ operations
def wreck(x, depth=0):
    """Modify a returned object in place as far as possible."""
    try:
        if isinstance(x, np.ndarray):
            x += 17
        elif isinstance(x, list):
            for y in x:
                wreck(y, depth + 1)
            if x and isinstance(x[0], (int, float)):
                x[0] = -99.0
            x.append(12345.0)
        elif isinstance(x, dict):
            for y in x.values():
                wreck(y, depth + 1)
            for k in list(x):
                if not isinstance(x[k], (dict, list, np.ndarray)):
                    x[k] = -77.0
            x["extra"] = 1.0
        elif isinstance(x, tuple):
            for y in x:
                wreck(y, depth + 1)
    except (ValueError, TypeError):
        pass


def dims(m):
    """(number of bins, number of parameters) of a single model."""
    return len(m.backend.background_yields), m.backend.config().npar


def single(m):
    return not hasattr(m, "statistical_models")


def alt_data(m):
    if single(m):
        return [float(x) + 1 for x in m.backend.data]
    return {x.analysis: [float(y) + 1 for y in x.backend.data] for x in m}


def fails(f):
    def op(m):
        try:
            f(m)
        except Exception as exc:
            return ["failed", type(exc).__name__]
        return ["returned"]
    return op


def bad_data(m):
    return {"nobody": [1.0]} if not single(m) else ["not", "a", "number"]


OPS = {}
for _e in EXP:
    for _k, _f in BASIC.items():
        OPS[f"{_k}:{_e}"] = lambda m, f=_f, e=_e: f(m, e)
for _k, _f in LIMITS.items():
    OPS[f"{_k}:observed"] = lambda m, f=_f: f(m, "observed")
OPS["likelihood-data"] = lambda m: m.likelihood(0.7, data=alt_data(m))
OPS["fit-data"] = lambda m: m.maximize_likelihood(data=alt_data(m))
OPS["likelihood-init"] = lambda m: m.likelihood(0.7, init_pars=[0.3] + [0.2] * (dims(m)[1] - 1)) if single(m) else None
OPS["fit-bounds"] = lambda m: m.maximize_likelihood(par_bounds=[(0.2, 0.6)] + [(-0.2, 0.1)] * (dims(m)[1] - 1)) if single(m) else m.maximize_likelihood(par_bounds=[(0.2, 0.6)])
OPS["fit-name"] = lambda m: m.maximize_likelihood(poi_indices=[0])
OPS["fit-minuit"] = lambda m: m.maximize_likelihood(minimizer="minuit") if single(m) else None
OPS["fit-slow"] = lambda m: m.maximize_likelihood(maxiter=2, ntrials=1)
OPS["asimov-data-init"] = lambda m: m.generate_asimov_data(init_pars=[0.3] + [0.2] * (dims(m)[1] - 1)) if single(m) else m.generate_asimov_data(test_statistic="q")
OPS["limit-exp"] = lambda m: m.poi_upper_limit(expected="aposteriori", expected_pvalue="2sigma")
OPS["limit-options"] = lambda m: m.poi_upper_limit(optimiser_arguments={"maxiter": 50})
OPS["xsec"] = lambda m: [m.s95exp, m.s95obs] if single(m) else m.find_most_sensitive().analysis
OPS["calculators"] = lambda m: m.available_calculators
OPS["sample"] = lambda m: m.fixed_poi_sampler(1.0, size=4) if single(m) else None
OPS["sample-function"] = lambda m: m.fixed_poi_sampler(0.0)(3) if single(m) else None
OPS["samples-fitted"] = lambda m: [m.maximize_likelihood(data=x) for x in m.fixed_poi_sampler(1.0, size=2)] if single(m) and m.backend.name not in ("default.normal", "default.multivariate_normal") else None
OPS["expected-data"] = lambda m: m.backend.expected_data([0.7] * dims(m)[1]) if single(m) else m.generate_asimov_data()
OPS["gradient"] = lambda m: m.backend.get_objective_function()(np.full(dims(m)[1], 0.6)) if single(m) else None
OPS["gradient-none"] = lambda m: m.backend.get_objective_function(do_grad=False)(np.full(dims(m)[1], 0.6)) if single(m) else None
OPS["hessian"] = lambda m: m.backend.get_hessian_logpdf_func()(np.full(dims(m)[1], 0.6)) if single(m) else None
OPS["logpdf"] = lambda m: m.backend.get_logpdf_func(data=np.array(m.backend.data) + 1)(np.full(dims(m)[1], 0.4)) if single(m) else None
OPS["config-positive"] = lambda m: m.backend.config(allow_negative_signal=False, poi_upper_bound=3.0).npar if single(m) else None
OPS["config-derived"] = lambda m: [m.backend.config().fixed_poi_bounds(20.0), m.backend.config().fixed_poi_bounds_multi({0: 15.0}), m.backend.config().rescale_poi_bounds(False, 3.0)] if single(m) else None
OPS["repr"] = lambda m: [repr(m)]
OPS["listing"] = lambda m: [x.analysis for x in m] if not single(m) else [m.analysis]
OPS["fail-data"] = fails(lambda m: m.likelihood(0.5, data=bad_data(m)))
OPS["fail-fit-data"] = fails(lambda m: m.maximize_likelihood(data=bad_data(m)))
OPS["fail-name"] = fails(lambda m: m.likelihood({"no such parameter": 1.0}))
OPS["fail-scan"] = fails(lambda m: m.chi2({"a": [1.0], "b": [2.0]}))
OPS["fail-calculator"] = fails(lambda m: m.exclusion_confidence_level(1.0, calculator="nothing"))
OPS["fail-statistic"] = fails(lambda m: m.sigma_mu(1.0, test_statistics="nothing"))
OPS["fail-init"] = fails(lambda m: m.likelihood(0.5, init_pars=[1.0] * 40))
OPS["fail-level"] = fails(lambda m: m.poi_upper_limit(confidence_level=2.0))
OPS["fail-limit-type"] = fails(lambda m: m.chi2_test(limit_type="nothing"))


def membership(m):
    """Members come and go."""
    if single(m):
        return None
    extra = zoo.build(zoo.catalogue()["po3"], analysis="visitor")
    m.append(extra)
    got = [m.likelihood(0.4), m.maximize_likelihood()]
    m.remove("visitor")
    return got


def merged(m):
    if single(m):
        return None
    new = m @ zoo.build(zoo.catalogue()["po3"], analysis="visitor")
    return [new.likelihood(0.4), new.maximize_likelihood()]


OPS["membership"] = membership
OPS["merged"] = merged


def with_other(op):
    return lambda m: op(m._mc_other)


# queries on a model that differs only in its numbers
for _k in ("likelihood:observed", "fit:observed", "asimov-data:observed", "asimov-fit:observed", "limit:observed", "significance:apriori", "sample", "hessian"):
    OPS["twin:" + _k] = None


def apply(name, m, ref):
    """The operation on the subject (or on its twin)."""
    if name.startswith("twin:"):
        return OPS[name[5:]](other(ref))
    return OPS[name](m)


PROBES = [(f"{k}:{e}", (lambda m, f=f, e=e: f(m, e))) for e in EXP for k, f in BASIC.items()] + \
         [(f"{k}:{e}", (lambda m, f=f, e=e: f(m, e))) for e in EXP for k, f in LIMITS.items() if k in ("limit", "chi2-interval")]
SHORT = ["likelihood:observed", "likelihood-pars:observed", "fit:observed", "fit-positive:apriori", "asimov-data:observed", "asimov-data-q0:aposteriori",
         "asimov-fit:observed", "chi2-list:observed", "sigma_mu:apriori", "significance:observed", "exclusion:observed", "exclusion-q:apriori"]
QUICK = ["limit:observed"]
FEW = ["likelihood-pars:observed", "fit:observed", "fit-positive:apriori", "asimov-data:observed", "asimov-fit:observed", "chi2-list:observed", "exclusion:observed"]
TWO = SHORT + ["fit-data", "likelihood-data", "likelihood-init", "fit-bounds", "fit-slow", "sample", "samples-fitted", "expected-data", "hessian", "config-derived",
               "fail-data", "fail-fit-data", "fail-name", "fail-init", "membership", "merged", "twin:fit:observed", "twin:asimov-data:observed", "limit:observed",
               "exclusion-chi2:observed", "asimov-data-init", "fit-name", "pull:apriori", "chi2-ref:observed", "fail-calculator", "gradient-none", "config-positive", "xsec"]
THREE = ["likelihood-pars:observed", "fit:observed", "fit-positive:apriori", "asimov-data:observed", "asimov-fit:observed", "significance:observed", "exclusion:observed", "fit-data",
         "likelihood-data", "fit-bounds", "sample", "expected-data", "fail-fit-data", "fail-name", "membership", "twin:fit:observed", "asimov-data-init", "limit:observed"]


def answer(f, m):
    try:
        return flat(f(m))
    except Exception as exc:
        return [("raised", type(exc).__name__)]


def pristine(name):
    """Answers of fresh models, one per probe, in this process."""
    return {k: answer(f, subject(name)) for k, f in PROBES}


def baseline(name):
    """... in a process in which nothing else has happened."""
    code = ("import sys, json; sys.path.insert(0, %r); from mc import core; core.import_spey(); core.quiet(); from checks import M01; "
            "print('@@' + json.dumps(M01.pristine(%r)))") % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), name)
    out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=500)
    line = [x for x in out.stdout.splitlines() if x.startswith("@@")]
    if not line:
        raise RuntimeError(out.stderr[-1500:])
    return {k: [tuple(y) if isinstance(y, list) else y for y in v] for k, v in json.loads(line[0][2:]).items()}


_BASE = {}


def base_of(name):
    if name not in _BASE:
        _BASE[name] = baseline(name)
    return _BASE[name]


def prepare(names):
    """Baselines of all subjects, computed once and inherited by the workers."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        _BASE.update(zip(names, pool.map(baseline, names)))


def agree(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if tuple(x) != tuple(y):
                return False
        elif not same(x, y, 1e-6, 1e-7):
            return False
    return True


def compare(rec, name, m, history, base, probes):
    for k, f in probes:
        got = answer(f, m)
        rec.step()
        if not agree(got, base[k]):
            rec.fail("history", f"{name}: after {history} the query {k} gives {str(got)[:300]}, on a fresh model {str(base[k])[:300]}")
            return
        rec.outcome(name, k, str(got)[:80])
    rec.trace()


def run_one(case, rec):
    name = case["model"]
    base = base_of(name)
    probes = dict(PROBES)
    for op in case["ops"]:
        for order in (1, -1) if case["full"] else (0,):
            m = subject(name)
            history = [op]
            try:
                wreck(apply(op, m, name))
            except Exception as exc:
                history.append(f"raised {type(exc).__name__}")
            rec.step()
            todo = {1: PROBES, -1: [(k, probes[k]) for k in reversed(SHORT)], 0: [(k, probes[k]) for k in SHORT + QUICK]}[order]
            compare(rec, name, m, history, base, todo)
            rec.state(name, op, order)
    rec.sample(f"{name}: {case['ops'][:3]}... then all probes")


def run_many(case, rec):
    name = case["model"]
    base = base_of(name)
    probes = [(k, f) for k, f in PROBES if k in case["probes"]]
    for tail in itertools.product(case["alphabet"], repeat=case["depth"] - 1):
        history = [case["first"], *tail]
        m = subject(name)
        for op in history:
            try:
                wreck(apply(op, m, name))
            except Exception:
                pass
            rec.step()
        compare(rec, name, m, history, base, probes)
        rec.state(name, tuple(history))


def cases(tier):
    names = list(OPS)
    deep = tier == "thorough"
    if deep:
        subjects, two, three = list(zoo.catalogue()) + list(COMBINED), ["po2", "no2", "ub1", "co-po", "po1", "mn2", "cb1", "tm1", "es1", "po1-u"], ["po2", "co-same"]
    else:
        subjects, two, three = ["po1", "no2", "mn2", "ub1", "ub2-asym", "cb1", "tm1", "es1", "co-same"], ["po2"], []
    prepare(list(dict.fromkeys(subjects + two + three)))
    alphabet, probes = (TWO, SHORT) if deep else ([x for x in TWO if x in THREE + ["fail-init", "merged", "twin:asimov-data:observed", "samples-fitted", "fit-slow", "hessian"]], FEW)
    out = []
    for s in subjects:
        k = 16
        out += [{"t": "one", "model": s, "ops": names[i:i + k], "full": deep} for i in range(0, len(names), k)]
    out += [{"t": "many", "model": s, "first": a, "alphabet": alphabet, "depth": 2, "probes": probes} for s in two for a in alphabet]
    out += [{"t": "many", "model": s, "first": a, "alphabet": THREE, "depth": 3, "probes": SHORT} for s in three for a in THREE]
    return out


def weight(case):
    return 5 if case["t"] == "one" else 1


def run(case, rec):
    (run_one if case["t"] == "one" else run_many)(case, rec)
