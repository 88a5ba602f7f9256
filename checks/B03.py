"""B03: the optimiser drivers under every scripted sequence of minimiser outcomes, and with the real minimisers on problems with known minima."""
import copy
import itertools
import logging
import os

import numpy as np
import scipy.optimize

import spey
from mc import patching, zoo
from spey.base.model_config import ModelConfig
from spey.optimizer import core as optcore

BOUNDS = {
    "quick": "1-3 parameters x every POI position x 5 bounds x 7 ways of fixing x ntrials absent..4 x all success/failure sequences x gradient on/off x log-density "
             "on/off; 2^5 option subsets plus unknown ones for both minimisers; all environment/option/setter combinations; separable quadratics: 5 centres x 4 bounds "
             "per parameter x all fixed subsets x 2 minimisers x methods; options of 13 queries x 5 models and of 12 queries x 3 combinations",
    "thorough": "as quick with ntrials up to 6 and complete 3-parameter quadratics",
}
ASSUMPTIONS = ["scripted part: the minimiser is replaced, its answers are chosen by the explorer", "real part: minima within 2e-3 (default tolerance 1e-6)"]
INF = float("inf")


class Outcome(dict):
    __getattr__ = dict.get


class FakeScipy:
    """Answers like scipy.optimize.minimize; records what it was asked."""

    def __init__(self, flags, answers):
        self.flags, self.answers, self.calls = flags, answers, []

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        k = len(self.calls)
        if isinstance(constraints, dict):
            constraints = [constraints]
        self.calls.append({"fun": fun, "x0": np.array(x0, float), "method": method, "jac": jac, "hess": hess, "tol": tol, "options": dict(options or {}),
                           "bounds": None if bounds is None else [tuple(b) for b in bounds], "constraints": list(constraints)})
        flag = self.flags[min(k, len(self.flags) - 1)]
        return Outcome(success=flag, x=np.array(self.answers[k % len(self.answers)], float), fun=100.0 + k, message=f"message {k}", status=0 if flag else 4, nfev=1, nit=1)


def permitted(call, x):
    """Whether a point satisfies bounds and constraints of a call."""
    x = np.asarray(x, float)
    for (lo, hi), v in zip(call["bounds"] or [(None, None)] * len(x), x):
        if (lo is not None and v < lo - 1e-12) or (hi is not None and v > hi + 1e-12):
            return False
    for c in call["constraints"]:
        val = np.atleast_1d(c["fun"](x, *c.get("args", ())))
        if (c["type"] == "eq" and np.any(np.abs(val) > 1e-12)) or (c["type"] == "ineq" and np.any(val < -1e-12)):
            return False
    return True


def contains(outer, inner):
    (a, b), (c, d) = outer, inner
    lo = a is None or (c is not None and a <= c)
    hi = b is None or (d is not None and b >= d)
    return lo and hi


BND = {
    "plain": lambda n: [(-3.0, 10.0), (-5.0, 5.0), (0.0, 2.0)][:n],
    "open": lambda n: [(0.0, 10.0), (None, None), (None, 3.0)][:n],
    "inf": lambda n: [(-INF, INF), (-2.0, -1.0), (1.0, None)][:n],
    "neg": lambda n: [(-10.0, -1.0), (2.0, 4.0), (-1.0, 0.0)][:n],
    "zero": lambda n: [(0.0, 0.5), (0.0, 0.0), (-1e-3, 1e-3)][:n],
}
FIX = ["none", "float-in", "float-out", "float-edge", "dict-poi", "dict-last", "dict-all", "suggested"]


def rotate(bounds, poi):
    out = list(bounds[1:])
    out.insert(poi, bounds[0])
    return out


def fixed_of(kind, npar, poi, bounds):
    lo, hi = bounds[poi]
    lo = -20.0 if lo is None or not np.isfinite(lo) else lo
    hi = 20.0 if hi is None or not np.isfinite(hi) else hi
    last = npar - 1 if poi != npar - 1 else 0
    return {"none": None, "suggested": None, "float-in": 0.5 * (lo + hi), "float-out": hi + 7.0, "float-edge": lo, "dict-poi": {poi: hi + 0.5},
            "dict-last": {last: 4.25}, "dict-all": {i: -1.5 + i for i in range(npar)}}[kind]


def run_script(case, rec):
    npar, poi, bkind, fkind = case["npar"], case["poi"], case["b"], case["f"]
    bounds = rotate(BND[bkind](npar), poi)
    fixed = fixed_of(fkind, npar, poi, bounds)
    target = {} if fixed is None else (fixed if isinstance(fixed, dict) else {poi: fixed})
    target = dict(target)
    x0 = [0.25 * (i + 1) for i in range(npar)]
    if fkind == "suggested":
        target = {npar - 1: x0[npar - 1]}
    answers = [[1.5 - 0.5 * k + i for i in range(npar)] for k in range(7)]
    for ntrials in case["ntrials"]:
        n = max(1, 1 if ntrials is None else ntrials)
        for first in range(n + 1):  # failures before the first success
            flags = [False] * first + [True]
            for explicit, init, grad, useref in itertools.product((True, False), (True, False), (True, False), (True, False)):
                cfg = ModelConfig(poi, -3.0, list(x0), list(bounds), [f"p{i}" for i in range(npar)],
                                  [i == npar - 1 for i in range(npar)] if fkind == "suggested" else None)
                kw = {}
                if explicit:
                    kw["bounds"] = copy.deepcopy(bounds)
                if init:
                    kw["initial_parameters"] = [0.75 - i for i in range(npar)]
                    if fkind == "suggested":
                        target[npar - 1] = kw["initial_parameters"][npar - 1]
                elif fkind == "suggested":
                    target[npar - 1] = x0[npar - 1]
                keep = copy.deepcopy((kw, cfg, fixed))
                if fixed is not None:
                    kw["fixed_poi_value"] = fixed
                if ntrials is not None:
                    kw["ntrials"] = ntrials
                if useref:
                    kw["logpdf"] = lambda x: ("logpdf", tuple(np.asarray(x, float)))
                obj = (lambda x: (float(np.sum(np.square(x))), 2.0 * np.asarray(x))) if grad else (lambda x: float(np.sum(np.square(x))))
                marker = lambda x: 0.5
                user = [{"type": "ineq", "fun": marker}]
                fake = FakeScipy(flags, answers)
                with patching.everywhere(scipy.optimize, "minimize", fake), patching.logs() as log:
                    fun, x = optcore.fit(func=obj, model_configuration=cfg, do_grad=grad, constraints=user, minimizer="scipy", **kw)
                ctx = f"npar={npar} poi={poi} bounds={bounds} fixed={fixed} ntrials={ntrials} outcomes={flags} explicit={explicit} init={init} grad={grad}"
                calls = fake.calls
                attempts = min(n, first + 1)
                good = first < n
                rec.step(len(calls))
                if not rec.check(len(calls) == attempts, "attempts", f"{ctx}: {len(calls)} attempts, expected {attempts}"):
                    continue
                last = len(calls) - 1
                want = 100.0 + last
                rec.check(np.allclose(x, answers[last % 7]) and (fun == ("logpdf", tuple(map(float, answers[last % 7]))) if useref else fun == want), "answer",
                          lambda: f"{ctx}: returned {fun}, {x}; final attempt gave {want}, {answers[last % 7]}")
                warned = log.at(logging.WARNING)
                rec.check(any(f"message {last}" in m for m in warned) == (not good), "warning", lambda: f"{ctx}: warnings {warned}")
                if attempts == 1 and good:
                    rec.check(not warned, "warning", lambda: f"{ctx}: warnings {warned} although the fit succeeded")
                for k, c in enumerate(calls):
                    # the starting point and the objective
                    start = np.array(kw.get("initial_parameters", x0), float) if k == 0 else np.array(answers[(k - 1) % 7], float)
                    free = [i for i in range(npar) if i not in target]
                    rec.check(len(c["x0"]) == npar and np.allclose(c["x0"][free], start[free]), "start", lambda: f"{ctx}: attempt {k} starts at {c['x0']}, expected {start}")
                    if k == 0:
                        rec.check(all(abs(c["x0"][i] - v) < 1e-12 for i, v in target.items()), "start", lambda: f"{ctx}: first attempt starts at {c['x0']}")
                    f = c["fun"](np.array(c["x0"]))
                    val = f[0] if isinstance(f, tuple) else f
                    rec.check(abs(val - float(np.sum(np.square(c["x0"])))) < 1e-9, "objective", f"{ctx}: wrong objective")
                    rec.check(bool(c["jac"]) == grad, "gradient", f"{ctx}: jac={c['jac']} for do_grad={grad}")
                    rec.check(any(q["fun"] is marker or q["fun"](np.zeros(npar)) == 0.5 for q in c["constraints"]), "constraint", f"{ctx}: constraint of the caller missing")
                    # the region the minimiser may search
                    b = c["bounds"]
                    if not rec.check(b is not None and len(b) == npar, "bounds", f"{ctx}: bounds {b}"):
                        continue
                    ref = calls[k - 1]["bounds"] if k else bounds
                    for i in range(npar):
                        if i in target:
                            continue
                        rec.check(contains(b[i], ref[i]), "tightened", lambda: f"{ctx}: attempt {k} bounds {b}, before {ref}")
                        if k == 0:
                            rec.check(tuple(b[i]) == tuple(bounds[i]), "bounds", lambda: f"{ctx}: bounds {b}, expected {bounds}")
                        rec.check(i != poi or b[i][0] == bounds[i][0], "poi-lower", lambda: f"{ctx}: attempt {k} moves the lower bound of the POI: {b}")
                        rec.check(b[i][0] is None or b[i][1] is None or b[i][0] <= b[i][1], "bounds", lambda: f"{ctx}: attempt {k} bounds {b}")
                    # held parameters: nothing but the wanted value is permitted
                    inside = [target.get(i, (lo if lo is not None and np.isfinite(lo) else hi if hi is not None and np.isfinite(hi) else 0.0)) for i, (lo, hi) in enumerate(b)]
                    rec.check(fkind == "suggested" or permitted(c, inside), "infeasible", lambda: f"{ctx}: attempt {k} does not permit {inside} (bounds {b})")
                    for i, v in target.items():
                        for off in (-1.0, -1e-4, 1e-4, 1.0):
                            y = list(inside)
                            y[i] = v + off
                            rec.check(not permitted(c, y), "released", lambda: f"{ctx}: attempt {k} permits parameter {i} = {v + off} instead of {v}")
                    for i in free:
                        for off in (-1e-3, 1e-3):  # the others are not held
                            y = list(inside)
                            y[i] += off
                            rec.check(fkind == "suggested" or permitted(c, y) == all((lo is None or y[j] >= lo - 1e-12) and (hi is None or y[j] <= hi + 1e-12) for j, (lo, hi) in enumerate(b)),
                                      "held", lambda: f"{ctx}: attempt {k} restricts parameter {i} beyond its bounds {b[i]}")
                rec.check(len(user) == 1 and user[0]["fun"] is marker, "caller", f"{ctx}: constraints of the caller modified")
                now = copy.deepcopy(({k: v for k, v in kw.items() if k in keep[0]}, cfg, fixed))
                rec.check(now == keep, "caller", f"{ctx}: inputs modified: {now} from {keep}")
                rec.state(npar, poi, bkind, fkind, ntrials, first, explicit, init, grad, useref)
                rec.trace()
                rec.outcome(len(calls), good, tuple(map(tuple, calls[-1]["bounds"])))


# ------------------------------------------------------------------ options
def quad(n):
    return lambda x: float(np.sum(np.square(np.asarray(x) - 0.5)))


def run_options(case, rec):
    allowed = {"method": "trust-constr", "maxiter": 77, "disp": True, "tol": 3e-4, "ntrials": 3}
    unknown = {"strategy": 2, "errordef": 1.0, "bogus": 1, "max_iter": 5, "gtol": 1e-3, "Method": "SLSQP"}
    cfg = ModelConfig(0, -3.0, [0.1, 0.2], [(-3.0, 10.0), (-5.0, 5.0)], ["a", "b"])
    for r in range(len(allowed) + 1):
        for names in itertools.combinations(allowed, r):
            for bad in [()] + [(u,) for u in unknown] + [tuple(unknown)]:
                opts = {**{k: allowed[k] for k in names}, **{k: unknown[k] for k in bad}}
                fake = FakeScipy([False, False, True], [[0.1, 0.2]])
                hess = lambda x: np.eye(2)
                with patching.everywhere(scipy.optimize, "minimize", fake), patching.logs() as log:
                    optcore.fit(func=quad(2), model_configuration=cfg, hessian=hess, minimizer="scipy", **opts)
                n = 3 if "ntrials" in names else 1
                rec.check(len(fake.calls) == n, "option", f"{opts}: {len(fake.calls)} attempts")
                for c in fake.calls:
                    got = (c["method"], c["options"].get("maxiter"), bool(c["options"].get("disp")), c["tol"])
                    want = (opts.get("method", "SLSQP"), opts.get("maxiter", 10000), opts.get("disp", False), opts.get("tol", 1e-6))
                    rec.check(got == want, "option", lambda: f"{opts}: minimiser called with {got}, expected {want}")
                    rec.check(c["hess"] is hess or np.allclose(c["hess"](np.zeros(2)), np.eye(2)), "hessian", f"{opts}: hess={c['hess']}")
                    rec.check(set(c["options"]) <= {"maxiter", "disp"}, "option", lambda: f"{opts}: minimiser options {c['options']}")
                for u in unknown:
                    hit = [m for m in log.at(logging.WARNING) if m.startswith(u + " ") or f"'{u}'" in m or f" {u} " in m]
                    rec.check(bool(hit) == (u in bad), "unknown-option", lambda: f"{opts}: warnings {log.at(logging.WARNING)}")
                rec.step()
                rec.state(names, bad)
                rec.trace()


def scripted_minuit(Minuit, script, calls):
    class Scripted(Minuit):
        def _record(self, how, ncall):
            try:
                grad = list(self.grad(list(self.values)))
            except TypeError:  # none given
                grad = None
            calls.append({"how": how, "ncall": ncall, "limits": [tuple(x) for x in self.limits], "fixed": list(self.fixed), "values": list(self.values),
                          "errordef": self.errordef, "strategy": int(self.strategy.strategy), "tol": self.tol, "print": self.print_level,
                          "value": self.fcn(list(self.values)), "grad": grad})
            for i, f in enumerate(list(self.fixed)):
                if not f:
                    self.values[i] = script["x"][i]
            calls[-1]["answer"] = list(self.values)  # within the limits
            return self

        def migrad(self, ncall=None, iterate=5, use_simplex=True):
            return self._record("migrad", ncall)

        def simplex(self, ncall=None):
            return self._record("simplex", ncall)

        valid = property(lambda self: script["valid"])
        accurate = property(lambda self: script["accurate"])
        fval = property(lambda self: 321.0)
        fmin = property(lambda self: Outcome(has_reached_call_limit=script["limit"], is_above_max_edm=script["edm"], fval=321.0, is_valid=script["valid"]))
    return Scripted


def run_minuit(case, rec):
    import iminuit
    npar, poi = case["npar"], case["poi"]
    errordefs = [None, 1.0]
    for bkind, fkind in itertools.product(BND, FIX):
        bounds = rotate(BND[bkind](npar), poi)
        fixed = fixed_of(fkind, npar, poi, bounds)
        x0 = [0.25 * (i + 1) for i in range(npar)]
        target = {} if fixed is None else (dict(fixed) if isinstance(fixed, dict) else {poi: fixed})
        if fkind == "suggested":  # a backend suggests a value its bounds contain
            x0 = [min(max(v, -INF if lo is None else lo), INF if hi is None else hi) for v, (lo, hi) in zip(x0, bounds)]
            target = {npar - 1: x0[npar - 1]}
        for valid, accurate, limit, edm, grad, method in itertools.product((True, False), (True, False), (True, False), (True, False), (True, False), (None, "migrad", "simplex")):
            opts = {} if method is None else {"method": method, "maxiter": 55, "disp": 0, "tol": 1e-3, "strategy": 1, "errordef": 1.0}
            calls = []
            script = {"valid": valid, "accurate": accurate, "limit": limit, "edm": edm, "x": [1.5 + i for i in range(npar)]}
            cfg = ModelConfig(poi, -3.0, list(x0), list(bounds), None, [i == npar - 1 for i in range(npar)] if fkind == "suggested" else None)
            obj = (lambda x: (float(np.sum(np.square(x))), 2.0 * np.asarray(x))) if grad else (lambda x: float(np.sum(np.square(x))))
            with patching.everywhere(iminuit, "Minuit", scripted_minuit(iminuit.Minuit, script, calls)), patching.logs() as log:
                fun, x = optcore.fit(func=obj, model_configuration=cfg, do_grad=grad, minimizer="minuit", bounds=copy.deepcopy(bounds),
                                     **({} if fixed is None else {"fixed_poi_value": fixed}), **opts)
            ctx = f"minuit npar={npar} poi={poi} bounds={bounds} fixed={fixed} script={script} {opts}"
            rec.step()
            if not rec.check(len(calls) >= 1, "minuit", f"{ctx}: minimiser not called"):
                continue
            c = calls[-1]
            want = [target.get(i, c["answer"][i]) for i in range(npar)]
            rec.check(np.allclose(x, want) and fun == 321.0, "minuit-answer", lambda: f"{ctx}: returned {fun}, {x}, expected 321.0, {want}")
            got = (c["how"], c["ncall"], c["errordef"], c["strategy"], c["tol"])
            exp = (opts.get("method", "migrad"), opts.get("maxiter", 10000), opts.get("errordef", 0.5), opts.get("strategy", 0), opts.get("tol", 1e-6))
            rec.check(got == exp, "minuit-option", lambda: f"{ctx}: {got}, expected {exp}")
            for i in range(npar):
                rec.check(bool(c["fixed"][i]) == (i in target), "minuit-fixed", lambda: f"{ctx}: fixed {c['fixed']}")
                if i in target:
                    rec.check(abs(c["values"][i] - target[i]) < 1e-12, "minuit-fixed", lambda: f"{ctx}: values {c['values']}")
                else:
                    lo, hi = bounds[i]
                    lim = (-INF if lo is None else lo, INF if hi is None else hi)
                    rec.check(tuple(c["limits"][i]) == lim or lim[0] == lim[1], "minuit-bounds", lambda: f"{ctx}: limits {c['limits']}, expected {bounds}")
            v = np.asarray(c["values"])
            rec.check(abs(c["value"] - np.sum(v ** 2)) < 1e-9, "minuit-objective", f"{ctx}: objective {c['value']}")
            if grad:
                rec.check(c["grad"] is not None and np.allclose(c["grad"], 2 * v), "minuit-gradient", lambda: f"{ctx}: gradient {c['grad']}")
            warned = log.at(logging.WARNING)
            rec.check(bool(warned) == (not valid), "minuit-warning", lambda: f"{ctx}: warnings {warned}")
            rec.state(npar, poi, bkind, fkind, valid, accurate, limit, edm, grad, method)
            rec.trace()
    cfg = ModelConfig(0, -3.0, [0.1], [(-3.0, 10.0)])
    for bad in ("MIGRAD", "slsqp", "", "hesse"):
        try:
            optcore.fit(func=quad(1), model_configuration=cfg, minimizer="minuit", method=bad)
            rec.fail("minuit-method", f"method {bad!r} accepted")
        except ValueError:
            rec.state("bad", bad)
    with patching.logs() as log:
        optcore.fit(func=quad(1), model_configuration=cfg, minimizer="minuit", bogus=3)
    rec.check(any("bogus" in m for m in log.at(logging.WARNING)), "unknown-option", f"minuit: {log.at(logging.WARNING)}")


def run_dispatch(case, rec):
    """Which minimiser runs, for every combination of environment, setter calls and option."""
    import iminuit
    cfg = ModelConfig(0, -3.0, [0.1, 0.2], [(-3.0, 10.0), (-5.0, 5.0)])
    setters = [(), ("scipy",), ("minuit",), ("iminuit",), ("Minuit",), ("minuit", "scipy"), ("scipy", "minuit"), ("minuit", "nope"), ("scipy", "nope")]
    old = os.environ.get("SPEY_OPTIMISER")
    try:
        for env in (None, "scipy", "minuit", "SCIPY", "Minuit", "bogus", ""):
            for names in setters:
                for option in (None, "scipy", "minuit", "bogus", "SCIPY"):
                    os.environ.pop("SPEY_OPTIMISER", None)
                    if env is not None:
                        os.environ["SPEY_OPTIMISER"] = env
                    state = env
                    with patching.logs(logging.ERROR) as log:
                        for nm in names:
                            before = len(log.records)
                            spey.set_optimiser(nm)
                            if nm in ("scipy", "minuit", "iminuit"):
                                state = "scipy" if nm == "scipy" else "minuit"
                            rec.check((len(log.records) > before) == (nm not in ("scipy", "minuit", "iminuit")), "setter", f"set_optimiser({nm!r}) logged {log.at(0)}")
                    chosen = option if option is not None else (state.lower() if state is not None else "scipy")
                    bad = chosen not in ("scipy", "minuit")
                    calls = []
                    fake = FakeScipy([True], [[0.5, 0.5]])
                    script = {"valid": True, "accurate": True, "limit": False, "edm": False, "x": [0.5, 0.5]}
                    with patching.everywhere(scipy.optimize, "minimize", fake), patching.everywhere(iminuit, "Minuit", scripted_minuit(iminuit.Minuit, script, calls)), \
                            patching.logs() as log:
                        optcore.fit(func=quad(2), model_configuration=cfg, **({} if option is None else {"minimizer": option}))
                    got = (len(fake.calls), len(calls))
                    want = (0, 1) if chosen == "minuit" else (1, 0)
                    ctx = f"SPEY_OPTIMISER={env}, set_optimiser{names}, minimizer={option}"
                    rec.check(got == want, "dispatch", f"{ctx}: (scipy, minuit) calls {got}, expected {want}")
                    rec.check(bool(log.at(logging.WARNING)) == bad, "dispatch-warning", lambda: f"{ctx}: warnings {log.at(logging.WARNING)}")
                    rec.step()
                    rec.state(env, names, option)
                    rec.trace()
                    rec.outcome(got, bad)
    finally:
        os.environ.pop("SPEY_OPTIMISER", None)
        if old is not None:
            os.environ["SPEY_OPTIMISER"] = old


# ------------------------------------------------------------------ the real minimisers
CENTRES = [-2.0, -0.3, 0.0, 1.0, 3.5]
RB = [(-5.0, 5.0), (0.0, 2.0), (-4.0, -1.0), (None, None)]
METHODS = [("scipy", "SLSQP"), ("scipy", None), ("minuit", None), ("minuit", "migrad")]


def run_real(case, rec):
    """Minimum of a separable quadratic with some parameters held: the centre clipped to the bounds."""
    npar = case["npar"]
    centres = CENTRES if npar < 3 else CENTRES[::2]
    if case["deep"]:
        centres = CENTRES
    bnds = RB if npar < 3 or case["deep"] else RB[:2]
    width = [1.0, 0.4, 2.5][:npar]
    minimiser, method = case["m"]
    for c in itertools.product(centres, repeat=npar):
        for bs in itertools.product(bnds, repeat=npar):
            for r in range(npar + 1):
                for held in itertools.combinations(range(npar), r):
                    for poi in range(npar):
                        if poi and (r == 0 or npar > 2):
                            continue
                        vals = {i: 0.6 - 0.9 * i for i in held}
                        forms = [vals] if vals else [None]
                        if held == (poi,):
                            forms.append(vals[poi])
                        for fixed in forms:
                            for grad in (True, False):
                                def obj(x):
                                    x = np.asarray(x, float)
                                    v = float(np.sum(0.5 * ((x - c) / width) ** 2)) + 3.0
                                    return (v, (x - c) / np.square(width)) if grad else v
                                cfg = ModelConfig(poi, -5.0, [0.7] * npar, list(bs))
                                kw = {} if fixed is None else {"fixed_poi_value": fixed}
                                if method:
                                    kw["method"] = method
                                fun, x = optcore.fit(func=obj, model_configuration=cfg, do_grad=grad, minimizer=minimiser, bounds=list(bs), **kw)
                                want = [vals.get(i, min(max(c[i], -INF if bs[i][0] is None else bs[i][0]), INF if bs[i][1] is None else bs[i][1])) for i in range(npar)]
                                f0 = float(np.sum(0.5 * ((np.array(want) - c) / width) ** 2)) + 3.0
                                ctx = f"{case['m']} centre={c} bounds={bs} fixed={fixed} grad={grad}"
                                rec.check(all(abs(x[i] - v) < 1e-6 for i, v in vals.items()), "real-fixed", lambda: f"{ctx}: {x}")
                                rec.check(np.all(np.abs(np.array(x) - want) < 0.02) and abs(fun - f0) < 2e-3, "real-minimum", lambda: f"{ctx}: {fun} at {x}, minimum {f0} at {want}")
                                fx = obj(x)
                                rec.check(abs(fun - (fx[0] if grad else fx)) < 1e-6, "real-consistent", lambda: f"{ctx}: {fun} at {x}")
                                rec.step()
                                rec.trace()
                                rec.state(npar, c, bs, held, poi, grad, case["m"], isinstance(fixed, dict))
                                rec.outcome(tuple(np.round(want, 3)))


# ------------------------------------------------------------------ options of the public queries
def toys(m, **kw):
    m.ntoys = 3
    return m.exclusion_confidence_level(1.0, calculator="toy", verbose=False, **kw)


def query_table(m):
    o = {"method": "SLSQP", "tol": 2.5e-7, "maxiter": 1234}
    par = [0.9] * m.backend.config().npar
    return {
        "likelihood": lambda: m.likelihood(1.0, **o),
        "likelihood-dict": lambda: m.likelihood({0: 1.0}, **o),
        "maximize_likelihood": lambda: m.maximize_likelihood(**o),
        "asimov_likelihood": lambda: m.asimov_likelihood(1.0, **o),
        "maximize_asimov_likelihood": lambda: m.maximize_asimov_likelihood(**o),
        "generate_asimov_data": lambda: m.generate_asimov_data(**o),
        "chi2": lambda: m.chi2(1.0, mle_kwargs=o, likelihood_kwargs=o),
        "exclusion": lambda: m.exclusion_confidence_level(1.0, **o),
        "exclusion-negative": lambda: m.exclusion_confidence_level(1.0, allow_negative_signal=True, **o),
        "exclusion-chi2": lambda: m.exclusion_confidence_level(1.0, calculator="chi_square", **o),
        "significance": lambda: m.significance(**o),
        "sigma_mu": lambda: m.sigma_mu(1.0, **o),
        "upper_limit": lambda: m.poi_upper_limit(optimiser_arguments=o),
        "exclusion-toy": lambda: toys(m, **o),
        "fixed_poi_sampler": lambda: m.fixed_poi_sampler(1.0, size=2, **o),
        "init": lambda: m.maximize_likelihood(init_pars=par, **o),
        "minuit": lambda: m.maximize_likelihood(minimizer="minuit"),
    }


def group_table(m):
    o = {"method": "SLSQP", "tol": 2.5e-7, "maxiter": 1234}
    return {
        "likelihood": lambda: m.likelihood(1.0, **o),
        "maximize_likelihood": lambda: m.maximize_likelihood(**o),
        "maximize_likelihood-start": lambda: m.maximize_likelihood(initial_muhat_value=0.9, **o),
        "asimov_likelihood": lambda: m.asimov_likelihood(1.0, **o),
        "maximize_asimov_likelihood": lambda: m.maximize_asimov_likelihood(**o),
        "generate_asimov_data": lambda: m.generate_asimov_data(**o),
        "chi2": lambda: m.chi2(1.0, mle_kwargs=o, likelihood_kwargs=o),
        "exclusion": lambda: m.exclusion_confidence_level(1.0, **o),
        "exclusion-negative": lambda: m.exclusion_confidence_level(1.0, allow_negative_signal=True, **o),
        "exclusion-chi2": lambda: m.exclusion_confidence_level(1.0, calculator="chi_square", **o),
        "significance": lambda: m.significance(**o),
        "sigma_mu": lambda: m.sigma_mu(1.0, **o),
        "upper_limit": lambda: m.poi_upper_limit(optimiser_arguments=o),
        "init": lambda: m.maximize_likelihood(init_pars=[0.9], **o),
    }


def run_route(case, rec):
    """Every fit made on behalf of a query gets the options of the query."""
    group = case["model"].split("+")
    spec = zoo.catalogue()[group[0]]
    single = zoo.Ref(spec).npar == 1
    if len(group) > 1:
        def make():
            return spey.UnCorrStatisticsCombiner(*[zoo.build(zoo.catalogue()[n], analysis=f"m{i}") for i, n in enumerate(group)])
        table, single = group_table, all(zoo.Ref(zoo.catalogue()[n]).npar == 1 for n in group)
    else:
        def make():
            return zoo.build(spec)
        table = query_table
    for name in table(make()):
        q = table(make())[name]
        calls = []
        real = scipy.optimize.minimize

        def spy(*a, **k):
            calls.append((k.get("method"), k.get("tol"), (k.get("options") or {}).get("maxiter"), [float(x) for x in (a[1] if len(a) > 1 else k["x0"])]))
            return real(*a, **k)

        with patching.everywhere(scipy.optimize, "minimize", spy):
            q()
        ctx = f"{case['model']}.{name}"
        if name == "minuit":
            rec.check(not calls, "route", f"{ctx}: scipy used: {calls}")
        else:
            rec.check(bool(calls) or (single and name.startswith(("likelihood", "fixed_poi"))), "route", f"{ctx}: no fit")
            bad = [c for c in calls if c[:3] != ("SLSQP", 2.5e-7, 1234)]
            rec.check(not bad, "route", lambda: f"{ctx}: fits made without the options: {bad[:3]}")
        if name == "init" and len(group) == 1:
            rec.check(calls and np.allclose(calls[0][3], 0.9), "route", f"{ctx}: starts at {calls[:1]}")
        rec.step(len(calls))
        rec.state(case["model"], name)
        rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = []
    nt = [None, 0, 1, 2, 3, 4] + ([5, 6] if deep else [])
    for npar in (1, 2, 3):
        for poi in range(npar):
            out += [{"t": "script", "npar": npar, "poi": poi, "b": b, "f": f, "ntrials": nt} for b in BND for f in FIX]
            out.append({"t": "minuit", "npar": npar, "poi": poi})
        out += [{"t": "real", "npar": npar, "m": m, "deep": deep} for m in METHODS]
    out += [{"t": "options"}, {"t": "dispatch"}]
    out += [{"t": "route", "model": n} for n in ("ub2", "po2", "cb2", "no2", "tm2-norm", "ub2+cb2", "po2+no2", "ub1+po1+tm2-norm")]
    return out


def weight(case):
    return {"real": 50 * case.get("npar", 1) ** 2, "minuit": 10, "route": 20}.get(case["t"], 1)


def run(case, rec):
    {"script": run_script, "options": run_options, "minuit": run_minuit, "dispatch": run_dispatch, "real": run_real, "route": run_route}[case["t"]](case, rec)
