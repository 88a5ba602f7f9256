"""M07: every subset of the optional backend methods: what is advertised, what works and what is refused how."""
import itertools

import numpy as np
from scipy.optimize import minimize_scalar

import spey
from mc import backends as bk, zoo
from mc.queries import flat
from spey.system.exceptions import CalculatorNotAvailable, CombinerNotAvailable, MethodNotAvailable

BOUNDS = {
    "quick": "all 2^9 subsets of the optional backend methods on 2 models (with and without a nuisance parameter), 22 queries each; inherited, instance-assigned and "
             "abstract implementations; all ordered pairs of 8 subsets as combinations x 4 calculators; 53 default models",
    "thorough": "as quick on 5 models, 3 expectation types and all pairs of 32 subsets",
}
ASSUMPTIONS = ["backend-native likelihoods and fits are exercised for negative log-likelihoods only (the meaning of their return value for return_nll=False is not documented)"]
OPTIONAL = ["get_objective_function", "get_hessian_logpdf_func", "get_sampler", "expected_data", "combine",
            "negative_loglikelihood", "asimov_negative_loglikelihood", "minimize_negative_loglikelihood", "minimize_asimov_negative_loglikelihood"]
MODELS = {
    "two": ([2.0, 1.0], [8.0, 5.0], [11.0, 6.0], 0.3),
    "one": ([2.0, 1.0], [8.0, 5.0], [11.0, 6.0], None),
    "low": ([3.0, 1.0], [8.0, 5.0], [5.0, 6.0], 0.2),
    "three": ([1.0, 2.0, 4.0], [10.0, 4.0, 2.0], [12.0, 3.0, 4.0], 0.4),
    "high": ([2.0], [3.0], [9.0], None),
}


class Truth:
    """Profiled likelihood, fits and Asimov data of a counting model by direct minimisation."""

    def __init__(self, args):
        self.b = bk.Counting(*args)
        self.memo = {}

    def nll(self, mu, data):
        key = (float(mu), tuple(np.round(np.asarray(data, float), 12)))
        if key not in self.memo:
            lp = self.b.get_logpdf_func(data=data)
            if self.b.e is None:
                self.memo[key] = -lp([mu]), [mu]
            else:
                res = minimize_scalar(lambda t: -lp([mu, t]), bounds=(-3.2, 5.0), method="bounded", options={"xatol": 1e-11})
                self.memo[key] = float(res.fun), [mu, float(res.x)]
        return self.memo[key]

    def data(self, e, data=None):
        return self.b.data(e, data)

    def best(self, data, negative=True):
        key = ("best", negative, tuple(np.asarray(data, float)))
        if key not in self.memo:
            lo = self.b.config().minimum_poi if negative else 0.0
            res = minimize_scalar(lambda m: self.nll(m, data)[0], bounds=(lo, 10.0), method="bounded", options={"xatol": 1e-9})
            cand = [(float(res.fun), float(res.x)), (self.nll(lo, data)[0], lo)]
            self.memo[key] = min(cand)[::-1]
        return self.memo[key]

    def asimov(self, e, stat):
        mu = 1.0 if stat == "q0" else 0.0
        return list(self.b.lam(self.nll(mu, self.data(e))[1]))


def methods(truth, calls):
    """Implementations of all optional methods."""
    def nll(self, poi_test=1.0, expected="observed", data=None, return_parameters=False, **kwargs):
        calls.append("negative_loglikelihood")
        if isinstance(poi_test, dict):
            (poi_test,) = poi_test.values()
        v, p = truth.nll(float(poi_test), truth.data(expected, data))
        return (v, np.array(p)) if return_parameters else v

    def min_nll(self, expected="observed", allow_negative_signal=True, data=None, **kwargs):
        calls.append("minimize_negative_loglikelihood")
        return truth.best(truth.data(expected, data), allow_negative_signal)

    def a_nll(self, poi_test=1.0, expected="observed", test_statistics="qtilde", **kwargs):
        calls.append("asimov_negative_loglikelihood")
        return truth.nll(float(poi_test), truth.asimov(expected, test_statistics))[0]

    def a_min(self, expected="observed", test_statistics="qtilde", **kwargs):
        calls.append("minimize_asimov_negative_loglikelihood")
        return truth.best(truth.asimov(expected, test_statistics), test_statistics in ("q", "qmu"))

    def sampler(self, pars):
        lam = self.lam(pars)
        rng = np.random.default_rng(7)
        return lambda n, *a, **k: rng.poisson(lam, size=(n, len(lam)))

    def combine(self, other, **kwargs):
        return type(self)(np.r_[self.s, other.s], np.r_[self.b, other.b], np.r_[self.n, other.n], self.e)
    return {"get_objective_function": bk.objective_with_gradient, "get_hessian_logpdf_func": bk.hessian, "get_sampler": sampler, "expected_data": bk.expected_data, "combine": combine,
            "negative_loglikelihood": nll, "asimov_negative_loglikelihood": a_nll, "minimize_negative_loglikelihood": min_nll, "minimize_asimov_negative_loglikelihood": a_min}


def make(args, subset, style, truth, calls):
    impl = {k: v for k, v in methods(truth, calls).items() if k in subset}
    if style == "class":
        return type("Back", (bk.Counting,), impl)(*args)
    if style == "inherited":
        return type("Sub", (type("Back", (bk.Counting,), impl),), {})(*args)
    if style == "mixin":
        return type("Sub", (type("Mixin", (), impl), bk.Counting), {})(*args)
    b = bk.Counting(*args)
    for k, v in impl.items():
        setattr(b, k, v.__get__(b))
    return b


def permitted(subset):
    s = set(subset)
    out = {"chi_square"}
    if "get_sampler" in s:
        out.add("toy")
    if "expected_data" in s or {"asimov_negative_loglikelihood", "minimize_asimov_negative_loglikelihood"} <= s:
        out.add("asymptotic")
    return out


REFERENCE = {}


def reference(key, make_model, q):
    if key not in REFERENCE:
        REFERENCE[key] = flat(q(make_model()))
    return REFERENCE[key]


def near(a, b, tol=2e-3):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                return False
        elif not abs(x - y) <= tol * max(1.0, abs(y)):
            return False
    return True


def run_subsets(case, rec):
    args = MODELS[case["model"]]
    truth = Truth(args)
    calls = []
    for bits in case["bits"]:
        subset = [k for i, k in enumerate(OPTIONAL) if bits >> i & 1]
        for style in case["styles"]:
            b = make(args, subset, style, truth, calls)
            m = spey.StatisticalModel(b, "m", ntoys=4)
            lab = f"{case['model']} ({style}) with {subset}"
            perm = permitted(subset)
            rec.check(sorted(m.available_calculators) == sorted(perm), "advertised", f"{lab}: {m.available_calculators}, expected {perm}")
            flags = {k for k in ("toy", "asymptotic", "chi_square") if getattr(m, f"is_{k}_calculator_available")}
            rec.check(flags == perm, "flags", f"{lab}: {flags}, expected {perm}")
            rec.state(case["model"], style, bits)
            if style != "class":
                continue
            for e in case["expected"]:
                queries(rec, m, subset, perm, e, case["model"], lab, truth, calls)
            rec.trace()


def full_model(name):
    args = MODELS[name]
    return spey.StatisticalModel(make(args, ["get_objective_function", "expected_data", "get_hessian_logpdf_func"], "class", Truth(args), []), "m")


def queries(rec, m, subset, perm, e, name, lab, truth, calls):
    has = set(subset).__contains__
    asy_ok = "asymptotic" in perm
    # (name, query, is it possible?, error otherwise)
    data = truth.data(e)
    plan = [
        ("likelihood", lambda x: x.likelihood(0.7, expected=e), True, ()),
        ("likelihood-parameters", lambda x: x.likelihood(0.7, expected=e, return_parameters=True)[0], True, ()),
        ("likelihood-data", lambda x: x.likelihood(0.7, expected=e, data=[4.0] * len(data)), True, ()),
        ("fit", lambda x: x.maximize_likelihood(expected=e), True, ()),
        ("fit-positive", lambda x: x.maximize_likelihood(expected=e, allow_negative_signal=False), True, ()),
        ("chi2", lambda x: x.chi2(1.2, expected=e), True, ()),
        ("pull", lambda x: x.pull(1.2, expected=e), True, ()),
        ("exclusion-chi_square", lambda x: x.exclusion_confidence_level(1.5, expected=e, calculator="chi_square"), True, ()),
        ("exclusion-asymptotic", lambda x: x.exclusion_confidence_level(1.5, expected=e), asy_ok, (CalculatorNotAvailable,)),
        ("exclusion-asymptotic-q", lambda x: x.exclusion_confidence_level(1.5, expected=e, allow_negative_signal=True, calculator="asymptotic"), asy_ok, (CalculatorNotAvailable,)),
        ("asimov-data", lambda x: x.generate_asimov_data(expected=e), has("expected_data"), (NotImplementedError, MethodNotAvailable)),
        ("asimov-likelihood", lambda x: x.asimov_likelihood(0.7, expected=e), has("expected_data") or has("asimov_negative_loglikelihood"), (NotImplementedError, MethodNotAvailable)),
        ("asimov-fit", lambda x: x.maximize_asimov_likelihood(expected=e), has("expected_data") or has("minimize_asimov_negative_loglikelihood"), (NotImplementedError, MethodNotAvailable)),
        ("significance", lambda x: x.significance(expected=e)[:2], asy_ok, (NotImplementedError, MethodNotAvailable, CalculatorNotAvailable)),
        ("sigma-hessian", lambda x: x.sigma_mu_from_hessian(0.7, expected=e), has("get_hessian_logpdf_func"), (MethodNotAvailable,)),
    ]
    if asy_ok:
        plan.append(("limit", lambda x: x.poi_upper_limit(expected=e), True, ()))
    for q, f, possible, errors in plan:
        try:
            got = flat(f(m))
            err = None
        except Exception as exc:
            got, err = None, exc
        rec.step()
        if possible:
            if rec.check(err is None, "advertised-fails", f"{lab} {e} {q}: {err!r}"):
                want = reference((name, e, q), lambda: full_model(name), f)
                rec.check(near(got, want), "different", f"{lab} {e} {q}: {got}, with all methods {want}")
                rec.outcome(name, e, q, np.round([x for x in got if isinstance(x, float)], 2).tolist())
        else:
            rec.check(isinstance(err, errors), "not-refused", f"{lab} {e} {q}: {got if err is None else repr(err)}, expected {[x.__name__ for x in errors]}")
    # without a Hessian the uncertainty is the Asimov estimate
    if has("get_hessian_logpdf_func") or asy_ok:
        try:
            s = m.sigma_mu(1.4, expected=e)
            rec.check(np.isfinite(s) and s > 0, "sigma", f"{lab} {e}: sigma_mu {s}")
        except Exception as exc:
            rec.fail("sigma", f"{lab} {e}: {exc!r}")
    # toys
    try:
        out = m.exclusion_confidence_level(1.5, expected=e, calculator="toy", verbose=False)
        rec.check("toy" in perm and all(0 <= x <= 1 for x in out), "toy", f"{lab} {e}: {out}")
    except CalculatorNotAvailable as exc:
        rec.check("toy" not in perm, "toy", f"{lab} {e}: {exc!r}")
    try:
        out = m.fixed_poi_sampler(0.7, size=3, expected=e)
        rec.check("toy" in perm and np.shape(out) == (3, len(data)), "sampler", f"{lab} {e}: {out}")
    except MethodNotAvailable as exc:
        rec.check("toy" not in perm, "sampler", f"{lab} {e}: {exc!r}")
    for name_ in ("none", "", "Asymptotic", "chi2"):
        try:
            out = m.exclusion_confidence_level(1.0, expected=e, calculator=name_)
            rec.fail("unknown-calculator", f"{lab} calculator={name_!r}: {out}")
        except CalculatorNotAvailable:
            pass
    # combination with an equal model
    try:
        c = m.combine(m)
        rec.check(has("combine") and isinstance(c, spey.StatisticalModel), "combine", f"{lab}: {c}")
        rec.check(isinstance(m @ m, spey.StatisticalModel), "combine", lab)
    except CombinerNotAvailable as exc:
        rec.check(not has("combine"), "combine", f"{lab}: {exc!r}")
    # natives are used where there are any
    calls.clear()
    m.likelihood(0.61, expected=e)
    m.maximize_likelihood(expected=e, data=[5.0] * len(data))
    for k in ("negative_loglikelihood", "minimize_negative_loglikelihood"):
        rec.check((k in calls) == has(k), "native", f"{lab} {e}: calls {calls}")
    rec.step(12)


def run_combined(case, rec):
    for (i, a), (j, b) in itertools.product(enumerate(case["first"]), enumerate(case["second"])):
        subs = [[k for n, k in enumerate(OPTIONAL) if bits >> n & 1] for bits in (a, b)]
        truth = [Truth(MODELS["two"]), Truth(MODELS["one"])]
        ms = [spey.StatisticalModel(make(MODELS[n], s, "class", t, []), n) for n, s, t in zip(("two", "one"), subs, truth)]
        c = spey.UnCorrStatisticsCombiner(*ms)
        # the asymptotic calculator of a combination hands the members' Asimov data to the common likelihood
        perm = permitted(subs[0]) & permitted(subs[1]) - {"toy"} - (set() if all("expected_data" in s for s in subs) else {"asymptotic"})
        flags = {k for k in ("toy", "asymptotic", "chi_square") if getattr(c, f"is_{k}_calculator_available")}
        rec.check(flags == perm, "combined-flags", f"{subs}: {flags}, expected {perm}")
        for k in ("toy", "asymptotic", "chi_square", "none"):
            try:
                out = c.exclusion_confidence_level(1.5, calculator=k)
                rec.check(k in perm and len(out) == 1 and 0 <= out[0] <= 1, "combined", f"{subs} {k}: {out}")
                rec.outcome(k, round(float(out[0]), 3))
            except CalculatorNotAvailable as exc:
                rec.check(k not in perm, "combined", f"{subs} {k}: {exc!r}")
            rec.step()
        rec.state("combined", a, b)
        rec.trace()


def run_default(case, rec):
    name = case["name"]
    m = zoo.build(zoo.catalogue()[name])
    m.ntoys = 3
    rec.check(sorted(m.available_calculators) == ["asymptotic", "chi_square", "toy"], "default", f"{name}: {m.available_calculators}")
    for k in ("toy", "asymptotic", "chi_square"):
        out = m.exclusion_confidence_level(1.0, calculator=k, verbose=False)
        rec.step()
        rec.check(len(out) == 1 and 0 <= out[0] <= 1, "default", f"{name} {k}: {out}")
    try:
        m.combine(m)
        rec.fail("default", f"{name}: combined without a routine")
    except CombinerNotAvailable:
        pass
    c = spey.UnCorrStatisticsCombiner(m)
    rec.check(c.is_asymptotic_calculator_available and not c.is_toy_calculator_available and c.is_chi_square_calculator_available, "default", f"{name}: combination")
    rec.state("default", name)
    rec.trace()
    # the objective without gradient leads to the same fit
    a, b = m.maximize_likelihood(), m.maximize_likelihood(do_grad=False)
    rec.check(abs(a[1] - b[1]) <= 2e-3 * max(1, abs(a[1])), "gradient-free", f"{name}: {a}, without gradient {b}")
    rec.sample(f"{name}: {m.available_calculators}")


def cases(tier):
    deep = tier == "thorough"
    out = []
    k = 16
    for name in MODELS if deep else ("two", "one"):
        out += [{"t": "subsets", "model": name, "bits": list(range(i, i + k)), "styles": ["class", "inherited", "mixin", "instance"],
                 "expected": ["observed", "aposteriori", "apriori"] if deep else ["observed" if name == "two" else "apriori"]} for i in range(0, 512, k)]
    some = list(range(0, 512, 16)) if deep else [0, 8, 4, 12, 192 + 64, 64 + 256, 255, 511]
    out += [{"t": "combined", "first": [a], "second": some} for a in some]
    return out + [{"t": "default", "name": n} for n in zoo.catalogue()]


def run(case, rec):
    {"subsets": run_subsets, "combined": run_combined, "default": run_default}[case["t"]](case, rec)
