"""B01: combinations against joint models, sums of members and a list of uniquely named analyses."""
import itertools
import math
import warnings

import numpy as np
from scipy.optimize import minimize_scalar

import spey
from mc import backends as bk, zoo
from mc.queries import BASIC, LIMITS, flat
from spey.system.exceptions import AnalysisQueryError, NegativeExpectedYields

BOUNDS = {
    "quick": "all ordered partitions of the bins of 6 models against the joint model, 20 queries; 12 groups of 1-4 members in all orders against sums and direct "
             "minimisation; all sequences of up to 4 of 12 membership operations (5 with 8 operations) against a list; option routing for all queries",
    "thorough": "as quick with 10 models, 3 expectations, 30 groups and sequences one longer",
}
ASSUMPTIONS = ["joint and combined fits agree within the accuracy of the minimisers (2e-3)"]
EXP = ("observed", "aposteriori", "apriori")


# ------------------------------------------------------------------------------ joint models
PO, NO, MN, UB, CB = zoo.PO, zoo.NO, zoo.MN, zoo.UB, zoo.CB
JOINT = {
    "po3": zoo.spec(PO, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4]),
    "po3-over": zoo.spec(PO, [3.0, 2.0, 1.5], [4.0, 6.5, 3.0], [9, 11, 5]),
    "no3": zoo.spec(NO, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3.0, 9.0, 4.0], absolute_uncertainties=[1.0, 0.5, 2.0]),
    "mn3": zoo.spec(MN, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3.0, 9.0, 4.0], covariance_matrix=[[1.0, 0.0, 0.0], [0.0, 0.4, 0.0], [0.0, 0.0, 2.0]]),
    "ub2": zoo.spec(UB, [1.0, 3.0], [5.0, 2.5], [4, 7], absolute_uncertainties=[1.2, 0.4]),
    "ub3": zoo.spec(UB, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4], absolute_uncertainties=[0.5, 1.0, 0.6]),
    "cb3": zoo.spec(CB, [1.0, 2.0, 0.5], [4.0, 6.5, 3.0], [3, 9, 4], covariance_matrix=[[0.25, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.36]]),
    "po4": zoo.spec(PO, [1.0, 2.0, 0.5, 1.0], [4.0, 6.5, 3.0, 5.0], [3, 9, 4, 5]),
    "no4": zoo.spec(NO, [1.0, 2.0, 0.5, 2.0], [4.0, 6.5, 3.0, 5.0], [5.0, 8.0, 4.0, 7.0], absolute_uncertainties=[1.0, 0.5, 2.0, 1.5]),
    "po2-dead": zoo.spec(PO, [0.0, 2.0], [5.0, 3.0], [7, 4]),
}


def partitions(items):
    """All ordered partitions of the bins into non-empty groups (bins in order within a group)."""
    def parts(xs):
        if not xs:
            yield []
            return
        first, rest = xs[0], xs[1:]
        for k in range(len(rest) + 1):
            for more in itertools.combinations(rest, k):
                left = [x for x in rest if x not in more]
                for p in parts(left):
                    yield [[first, *more]] + p
    for p in parts(list(items)):
        for q in itertools.permutations(p):
            yield [list(g) for g in q]


def part(sp, bins):
    kw = sp["kw"]
    out = {"pdf": sp["pdf"], "kw": {}}
    for k, v in kw.items():
        out["kw"][k] = [[v[i][j] for j in bins] for i in bins] if k == "covariance_matrix" else [v[i] for i in bins]
    return out


def near(a, b, tol):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                return False
        elif math.isinf(x) or math.isinf(y) or math.isnan(x) or math.isnan(y):
            if not (x == y or (math.isnan(x) and math.isnan(y))):
                return False
        elif not abs(x - y) <= tol * max(1.0, abs(y)):
            return False
    return True


SKIP = ("likelihood-pars", "asimov-data", "asimov-data-q0", "sigma_mu", "limit-90")


def run_joint(case, rec):
    sp = JOINT[case["name"]]
    joint = zoo.build(sp)
    nb = len(sp["kw"]["data"])
    todo = [(k, f, e) for k, f in {**BASIC, **LIMITS}.items() for e in case["expected"] if k not in SKIP and not (k == "chi2-right" and e != "observed")]
    want = {(k, e): f(joint, e) for k, f, e in todo}
    other = [float(x) + 1 for x in sp["kw"]["data"]]
    want_data = joint.likelihood(0.6, data=other), joint.maximize_likelihood(data=other)
    for groups in case["groups"]:
        members = [zoo.build(part(sp, g), analysis=f"a{g}") for g in groups]
        c = spey.UnCorrStatisticsCombiner(*members)
        for k, f, e in todo:
            got = f(c, e)
            rec.step()
            rec.check(near(got, want[k, e], 3e-3 if k not in ("likelihood", "likelihood0") else 2e-4), "joint", lambda: f"{case['name']} as {groups} {e} {k}: {flat(got)}, joint model {flat(want[k, e])}")
            rec.outcome(k, e, str(flat(got))[:50])
        data = {f"a{g}": [other[i] for i in g] for g in groups}
        rec.check(near(c.likelihood(0.6, data=data), want_data[0], 1e-4) and near(c.maximize_likelihood(data=data), want_data[1], 3e-3), "joint-data", f"{case['name']} as {groups}: with explicit data")
        for e, t in itertools.product(case["expected"], ("qtilde", "q0")):
            got, ref = c.generate_asimov_data(expected=e, test_statistic=t), None
            if sp["pdf"] in (PO, NO, MN):
                ref = joint.generate_asimov_data(expected=e, test_statistic=t)
                rec.check(all(near(list(got[f"a{g}"]), [ref[i] for i in g], 1e-6) for g in groups), "joint-asimov", f"{case['name']} as {groups} {e} {t}: {got}, joint {ref}")
        rec.check(near(c.sigma_mu(1.2), c.sigma_mu(1.2), 1e-9), "sigma", "")
        rec.state(case["name"], str(groups))
        rec.trace()
    rec.sample(f"{case['name']} as {case['groups'][:3]}...: {len(todo)} queries equal the joint model's")
    del nb


# ------------------------------------------------------------------------------ sums of members
GROUPS = [["po1"], ["po1", "po2"], ["po2", "no2", "mn2"], ["ub1", "po2"], ["cb1", "no1"], ["tm1", "po1"], ["es1", "no2"], ["ub2-asym", "po1"], ["po1-over", "po1-zero"],
          ["po2-neg", "no1"], ["po1", "po1"], ["no1", "no2", "no3", "mn2"]]
MORE = [[a, b] for a, b in itertools.combinations(["po3", "no2-cov", "mn3", "ub2", "cb2", "tm2", "es2", "ub2-norm", "cb2-anti"], 2)]


def run_sums(case, rec):
    names = case["group"]
    cat = zoo.catalogue()
    orders = list(itertools.permutations(range(len(names))))[:case["orders"]]
    refs = None
    for order in orders:
        members = {i: zoo.build(cat[names[i]], analysis=f"m{i}") for i in order}
        c = spey.UnCorrStatisticsCombiner(*members.values())
        min_poi = max(members[i].backend.config().minimum_poi for i in order)
        rec.check(c.minimum_poi == min_poi, "minimum-poi", f"{names} {order}: {c.minimum_poi}, members {min_poi}")
        rec.check(c.is_alive == any(zoo.Ref(cat[n]).alive for n in names), "alive", f"{names}")
        sets = [None, {f"m{i}": [float(x) + 1 for x in cat[names[i]]["kw"]["data"]] for i in order}, {"m0": [float(x) + 2 for x in cat[names[0]]["kw"]["data"]]}]
        line = {}
        # later orders only have to agree with the first one
        for e in EXP if refs is None or case["deep"] else EXP[:1]:
            for nd, d in enumerate(sets):
                kw = {} if d is None else {"data": d}
                total = lambda mu: sum(members[i].likelihood(float(mu), expected=e, data=(d or {}).get(f"m{i}")) for i in order)  # noqa: E731,B023
                for mu in (0.0, 0.4, 1.0, 2.5) + ((-0.1,) if min_poi < -0.1 else ()):
                    want = total(mu)
                    got, lik = c.likelihood(mu, expected=e, **kw), c.likelihood(mu, expected=e, return_nll=False, **kw)
                    rec.step(2)
                    rec.check(abs(got - want) <= 1e-8 * max(1, abs(want)), "sum", f"{names} {order} {e} data={d} mu={mu}: {got}, members {want}")
                    rec.check(abs(lik - math.exp(-want)) <= 1e-7 * math.exp(-want), "sum-likelihood", f"{names} {order} {e} mu={mu}: {lik}, members {math.exp(-want)}")
                    line[e, nd, mu] = got
                for neg in (True, False):
                    muhat, nll = c.maximize_likelihood(expected=e, allow_negative_signal=neg, **kw)
                    rec.step()
                    lo = max(min_poi, -20.0) if neg else 0.0
                    best = min((minimize_scalar(total, bounds=b, method="bounded", options={"xatol": 1e-5}) for b in ((lo, 10.0), (max(lo, muhat - 0.5), min(10.0, muhat + 0.5)))), key=lambda x: x.fun)
                    low = min(best.fun, total(lo))
                    rec.check(abs(nll - total(muhat)) <= 1e-6 * max(1, abs(nll)), "fit-value", f"{names} {order} {e} data={d}: {muhat}, {nll}; sum there {total(muhat)}")
                    rec.check(lo - 1e-9 <= muhat <= 10.0 + 1e-9, "fit-bounds", f"{names} {order} {e}: best fit {muhat} outside [{lo}, 10]")
                    rec.check(nll <= low + 2e-3, "fit-minimum", f"{names} {order} {e} data={d} negative={neg}: {muhat}, {nll}; minimum {low} at {best.x}")
                    line[e, nd, neg] = nll
                    res, v = c.maximize_likelihood(expected=e, allow_negative_signal=neg, poi_indices=["mu", 0], return_nll=False, **kw)
                    rec.check(list(res) == ["mu", 0] and abs(res["mu"] - muhat) < 1e-3 and res["mu"] == res[0] and abs(v - math.exp(-nll)) <= 1e-3 * math.exp(-nll), "fit-named", f"{names}: {res}, {v}")
                    for kw2 in ({"init_pars": [0.7]}, {"initial_muhat_value": 0.7}, {"par_bounds": [(0.1, 0.35)]}):
                        m2, n2 = c.maximize_likelihood(expected=e, allow_negative_signal=neg, **kw, **kw2)
                        rec.step()
                        if "par_bounds" in kw2:
                            inner = minimize_scalar(total, bounds=(0.1, 0.35), method="bounded", options={"xatol": 1e-5}).fun
                            rec.check(0.1 - 1e-9 <= m2 <= 0.35 + 1e-9 and n2 <= min(inner, total(0.1), total(0.35)) + 2e-3, "fit-range", f"{names} {e} {kw2}: {m2}, {n2}")
                        else:
                            rec.check(abs(n2 - nll) <= 2e-3, "fit-start", f"{names} {e} {kw2}: {n2}, otherwise {nll}")
                rec.state(str(names), order, e, str(d))
                rec.trace()
            for t in ("qtilde", "q", "q0"):
                a = c.generate_asimov_data(expected=e, test_statistic=t)
                for i in order:
                    w = members[i].generate_asimov_data(expected=e, test_statistic=t)
                    rec.check(near(list(a[f"m{i}"]), list(w), 1e-6), "asimov", f"{names} {e} {t} member {i}: {a}, {w}")
                line[e, t] = c.asimov_likelihood(0.7, expected=e, test_statistics=t)
                line[e, t, "fit"] = c.maximize_asimov_likelihood(expected=e, test_statistics=t)[1]
            line[e, "cls"] = c.exclusion_confidence_level(1.1, expected=e)[-1]
        if refs is None:
            refs = line
        bad = [(k, v, refs[k]) for k, v in line.items() if not abs(v - refs[k]) <= 1e-3 * max(1.0, abs(refs[k]))]
        rec.check(not bad, "order", f"{names}: members in the order {order} give {bad[:5]} (query, value, value in the order {orders[0]})")
        limits = {e: c.poi_upper_limit(expected=e) for e in ("observed", "apriori")}
        for e, mu in limits.items():
            if np.isfinite(mu):
                cl = c.exclusion_confidence_level(mu, expected=e)
                cl = cl[2] if e == "apriori" else cl[0]
                rec.check(abs(cl - 0.95) < 3e-3, "limit", f"{names} {order} {e}: limit {mu} is excluded at {cl}")
        rec.outcome(np.round(list(line.values()), 3).tolist())


# ------------------------------------------------------------------------------ membership
def model(name, i=0):
    m = spey.StatisticalModel(bk.Counting([1.0 + i], [5.0 + i], [6.0]), name)
    return m


OPS = ["append a", "append b", "append c", "append A", "remove a", "remove b", "remove x", "append bad", "merge a", "merge bc", "self merge b", "get"]


def run_members(case, rec):
    n = case.get("names", {"a": "a", "b": "b", "c": "c"})
    pool = {"a": model(n["a"]), "b": model(n["b"], 1), "c": model(n["c"], 2), "A": model(n["a"], 3)}
    nll = {id(m): m.likelihood(0.5) for m in pool.values()}
    start = case["start"]
    for tail in itertools.product(case["ops"], repeat=case["depth"] - 1):
        history = [case["first"], *tail]
        c, want = spey.UnCorrStatisticsCombiner(*[pool[k] for k in start]), [pool[k] for k in start]
        for op in history:
            verb, _, arg = op.partition(" ")
            err, expect, out = None, None, None
            try:
                if verb == "append":
                    if arg == "bad":
                        expect = TypeError
                        c.append(bk.Counting([1.0], [2.0], [3.0]))
                    else:
                        if pool[arg].analysis in [m.analysis for m in want]:
                            expect = AnalysisQueryError
                        else:
                            want = want + [pool[arg]]
                        c.append(pool[arg])
                elif verb == "remove":
                    arg = n.get(arg, arg)
                    if arg in [m.analysis for m in want]:
                        want = [m for m in want if m.analysis != arg]
                    else:
                        expect = AnalysisQueryError
                    c.remove(arg)
                elif verb in ("merge", "self"):
                    arg = arg.split()[-1]
                    new = [pool[k] for k in arg]
                    if any(m.analysis in [x.analysis for x in want] for m in new):
                        expect = AnalysisQueryError
                    operand = new[0] if len(new) == 1 and verb == "merge" else spey.UnCorrStatisticsCombiner(*new)
                    out = c @ operand
                    if isinstance(operand, spey.UnCorrStatisticsCombiner):
                        rec.check([id(x) for x in operand] == [id(x) for x in new], "merge-operand", f"{history}: right operand changed")
                    rec.check(out is not c and [id(x) for x in out] == [id(x) for x in want + new], "merge", f"{history}: merged {out.analyses}")
                    if expect is None:
                        # the merged one is independent
                        out.remove(new[0].analysis)
                else:
                    lookups(rec, c, want, history)
            except Exception as exc:
                err = exc
            rec.step()
            rec.check((err is None) if expect is None else isinstance(err, expect), "rejection", f"{start} {history}: {op}: {err!r}, expected {expect and expect.__name__}")
            rec.check([id(m) for m in c] == [id(m) for m in want], "members", f"{start} {history} after {op}: {c.analyses}, expected {[m.analysis for m in want]}")
        lookups(rec, c, want, history)
        s = c.likelihood(0.5)
        rec.check(abs(s - sum(nll[id(m)] for m in want)) < 1e-9, "sum", f"{start} {history}: {s}")
        rec.state(start, tuple(history))
        rec.outcome(tuple(c.analyses))
        rec.trace()


def lookups(rec, c, want, history):
    n = len(want)
    ids = [id(m) for m in want]
    rec.check(len(c) == n and c.analyses == [m.analysis for m in want] and [id(m) for m in c.statistical_models] == ids, "listing", f"{history}: {c.analyses}, length {len(c)}")
    rec.check([(k, id(m)) for k, m in c.items()] == [(m.analysis, id(m)) for m in want], "items", f"{history}")
    for i in list(range(-n - 2, n + 2)):
        for cast in (int, np.int64, np.int32):
            try:
                got = c[cast(i)]
                rec.check(-n <= i < n and got is want[i], "index", f"{history}: [{i}] is {got.analysis} of {c.analyses}")
            except AnalysisQueryError:
                rec.check(not -n <= i < n, "index", f"{history}: [{i}] refused with {n} members")
    for name in ("a", "b", "c", "x", "", "SR10", "SR1", "SR", "sr1", "S"):
        hit = [m for m in want if m.analysis == name]
        try:
            rec.check(c[name] is hit[0] if hit else (c[name], False)[1], "name", f"{history}: [{name!r}]")
        except AnalysisQueryError:
            rec.check(not hit, "name", f"{history}: [{name!r}] refused, members {c.analyses}")
    for s in (slice(None), slice(0, 1), slice(1, None), slice(None, None, -1), slice(-2, None)):
        rec.check([id(m) for m in c[s]] == ids[s], "slice", f"{history}: {s}")


# ------------------------------------------------------------------------------ options and odd members
def run_options(case, rec):
    """Which options and data reach which member."""
    seen = []

    class Rec(bk.Counting):
        get_objective_function = bk.objective_with_gradient
        get_hessian_logpdf_func = bk.hessian
        expected_data = bk.expected_data

        def negative_loglikelihood(self, poi_test=1.0, expected="observed", data=None, return_parameters=False, **kw):
            kw = {k: v for k, v in kw.items() if v is not None}
            seen.append((self.name, self.tag, None if data is None else [float(x) for x in data], str(expected), kw))
            lp = -self.get_logpdf_func(expected, data)([float(poi_test)])
            return lp
    for options, data, e in itertools.product(
            ({}, {"one": {"maxiter": 500}}, {"two": {"ntrials": 2}}, {"one": {"maxiter": 500}, "two": {"maxiter": 600}, "three": {"tol": 0.1}}),
            (None, {"m0": [3.0]}, {"m1": [4.0], "m2": [5.0]}), EXP):
        members = []
        for i, kind in enumerate(("one", "two", "one")):
            cls = type("R", (Rec,), {"name": kind, "tag": i})
            members.append(spey.StatisticalModel(cls([1.0 + i], [5.0], [6.0 + i]), f"m{i}"))
        c = spey.UnCorrStatisticsCombiner(*members)
        queries = {
            "likelihood": lambda: c.likelihood(0.5, expected=e, data=data, statistical_model_options=options),
            "fit": lambda: c.maximize_likelihood(expected=e, data=data, statistical_model_options=options, initial_muhat_value=0.4),
            "asimov-likelihood": lambda: c.asimov_likelihood(0.5, expected=e, statistical_model_options=options),
            "asimov-fit": lambda: c.maximize_asimov_likelihood(expected=e, statistical_model_options=options),
        }
        for q, f in queries.items():
            seen.clear()
            f()
            rec.step()
            rec.check({x[1] for x in seen} == {0, 1, 2}, "all-members", f"{q} {options}: only {sorted({x[1] for x in seen})}")
            for kind, tag, d, ee, kw in seen:
                rec.check(kw == options.get(kind, {}), "options", f"{q} {options}: member {tag} of {kind} got {kw}")
                rec.check(ee == e, "expected", f"{q}: member {tag} got {ee}")
                if q in ("likelihood", "fit"):
                    rec.check(d == (data or {}).get(f"m{tag}"), "data", f"{q} data={data}: member {tag} got {d}")
                else:
                    rec.check(d is not None and abs(d[0] - 5.0) < 1e-6, "asimov-data", f"{q}: member {tag} got {d}")
            rec.state(q, str(options), str(data), e)
            rec.trace()
    # a member that cannot be evaluated
    class Bad(bk.Counting):
        def negative_loglikelihood(self, poi_test=1.0, **kw):
            if poi_test < self.edge:
                raise NegativeExpectedYields("negative yields")
            return 1.5

    for pos, edge in itertools.product(range(3), (0.0, 1.0)):
        members = [model(f"m{i}", i) for i in range(2)]
        bad = spey.StatisticalModel(type("B", (Bad,), {"edge": edge})([1.0], [5.0], [6.0]), "bad")
        members.insert(pos, bad)
        c = spey.UnCorrStatisticsCombiner(*members)
        for mu, nll in itertools.product((-0.5, 0.5, 1.5), (True, False)):
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                out = c.likelihood(mu, return_nll=nll)
            rec.step()
            if mu < edge:
                rec.check(np.isnan(out) and any("negative yields" in str(w.message) for w in caught), "invalid-member", f"position {pos} mu={mu} nll={nll}: {out}, warnings {[str(w.message) for w in caught]}")
            else:
                want = 1.5 + sum(m.likelihood(mu) for m in members if m is not bad)
                rec.check(abs(out - (want if nll else math.exp(-want))) < 1e-9, "invalid-member", f"position {pos} mu={mu}: {out}, expected {want}")
            rec.state("bad", pos, edge, mu, nll)
    # sensitivity: the smallest expected excluded cross section
    for xs in itertools.product((0.1, 1.0, 3.0), repeat=3):
        members = [zoo.build(zoo.catalogue()[n], analysis=n, xsection=x) for n, x in zip(("po1", "no1", "po2"), xs)]
        c = spey.UnCorrStatisticsCombiner(*members)
        lim = [m.s95exp for m in members]
        got = c.find_most_sensitive()
        rec.step()
        rec.check(got is members[int(np.argmin(lim))], "most-sensitive", f"{xs}: {got.analysis}, limits {lim}")
        rec.state("sensitive", xs)
        rec.trace()
    # construction
    for bad in ([model("a"), model("a")], [model("a"), 3], ["x"], [None]):
        try:
            spey.UnCorrStatisticsCombiner(*bad)
            rec.fail("construction", f"{bad} accepted")
        except (AnalysisQueryError, TypeError):
            pass
    for bad in (3, "x", None, [model("z")]):
        c = spey.UnCorrStatisticsCombiner(model("a"))
        try:
            c @ bad
            rec.fail("merge-type", f"merged with {bad!r}")
        except ValueError:
            rec.check(c.analyses == ["a"], "merge-type", f"{c.analyses}")
        rec.step()


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name in list(JOINT) if deep else ["po3", "po3-over", "no3", "mn3", "ub2", "cb3", "po2-dead"]:
        groups = list(partitions(range(len(JOINT[name]["kw"]["data"]))))
        if name in ("cb3", "ub3") and not deep:
            groups = [g for g in groups if len(g) > 1][:4]
        k = 4
        out += [{"t": "joint", "name": name, "groups": groups[i:i + k], "expected": ["observed", "apriori"] if not deep and name != "cb3" else ["observed"] if not deep else list(EXP)} for i in range(0, len(groups), k)]
    out += [{"t": "sums", "group": g, "orders": (3 if len(g) > 2 else 2) if not deep else 24, "deep": deep} for g in GROUPS + (MORE if deep else [])]
    more = 1 if deep else 0
    for start in ([], ["a"], ["b", "a", "c"]):
        out += [{"t": "members", "first": o, "ops": OPS, "depth": 3 + more, "start": start} for o in OPS]
        eight = [o for o in OPS if o not in ("append bad", "get", "self merge b", "merge bc")]
        out += [{"t": "members", "first": o, "ops": eight, "depth": 4 + more, "start": start} for o in eight]
    for names in ({"a": "SR10", "b": "SR1", "c": "SR"}, {"a": "SR", "b": "SR1", "c": "SR10"}, {"a": "x1", "b": "", "c": "sr1"}):
        out += [{"t": "members", "first": o, "ops": OPS, "depth": 2 + more, "start": ["a", "b", "c"], "names": names} for o in OPS]
    return out + [{"t": "options"}]


def weight(case):
    return {"joint": 10, "sums": 20, "members": 1, "options": 20}[case["t"]]


def run(case, rec):
    {"joint": run_joint, "sums": run_sums, "members": run_members, "options": run_options}[case["t"]](case, rec)
