"""H06: Asimov data are the expected data at the conditional fit, and Asimov queries use exactly these data."""
import itertools

import numpy as np

import spey
from mc import backends as bk, zoo
from mc.refopt import reference_minimum

BOUNDS = {
    "quick": "53 models x 3 expectations x 5 statistic names (x explicit data, starting points, bounds); 5 combinations; all on scripted backends with recording",
    "thorough": "as quick with four data sets per model and all pairs of 12 models as combinations",
}
ASSUMPTIONS = ["agreement of profiled parameters within 3e-3 of the yields (accuracy of the fits)"]
STATS = ["qtilde", "q", "qmu", "qmutilde", "q0"]




def run_model(case, rec):
    name = case["name"]
    sp = zoo.catalogue()[name]
    r, m = zoo.Ref(sp), zoo.build(sp)
    for e, stat in itertools.product(("observed", "aposteriori", "apriori"), STATS):
        mu = 1.0 if stat == "q0" else 0.0
        obs = r.data(e)
        sets = [(None, obs)]
        if stat in ("qtilde", "q0"):
            sets.append(([float(x) + 2 for x in r.n], r.n + 2))
            if case["deep"]:
                sets += [([float(x) for x in r.b * 0.5 + 0.3], r.b * 0.5 + 0.3), ([0.0] * r.nb, np.zeros(r.nb))]
        for d, ref in sets:
            lab = f"{name} {e} {stat} data={d}"
            kw = {} if d is None else {"data": d}
            got = m.generate_asimov_data(expected=e, test_statistic=stat, **kw)
            rec.step()
            nll, p = m.likelihood(mu, expected=e, return_parameters=True, **kw)
            want = r.expected_data(p)
            got = np.asarray(got, float)
            rec.check(got.shape == want.shape and np.all(np.isfinite(got)), "shape", f"{lab}: {got}, expected data {want}")
            if got.shape != want.shape:
                continue
            scale = 3e-3 * np.maximum(1.0, np.abs(want))
            if not name.endswith("-sig"):
                rec.check(np.all(np.abs(got - want) <= scale), "asimov", lambda: f"{lab}: {got}, expected data at the fit with POI {mu}: {want}")
                # optimality of the conditional fit itself
                best, bp = reference_minimum(r, ref, [(None, None)] + r.bounds()[1:], {0: mu}, [p])
                rec.check(nll <= best + 2e-3 * max(1, abs(best) * 1e-2), "conditional-fit", f"{lab}: NLL {nll}, minimum {best} at {bp}")
            # the likelihood of these data is largest at the signal strength they were made with
            # (with nuisance parameters pulled by the data the constraint terms stay where they were)
            if stat in ("qtilde", "q0") and (r.npar == 1 or (e == "apriori" and stat == "qtilde" and d is None and name not in ("po1-u", "po2-u"))):
                n0 = m.likelihood(mu, expected=e, data=list(got))
                for x in (mu + 0.4, mu + 1.5) + ((mu - 0.3,) if mu - 0.3 > r.min_poi else ()):
                    rec.check(m.likelihood(x, expected=e, data=list(got)) >= n0 - 3e-3, "asimov-maximum", f"{lab}: NLL at {x} below NLL at {mu} on Asimov data")
                    rec.step()
            rec.state(name, e, stat, str(d))
            rec.trace()
            rec.outcome(np.round(got, 3).tolist())
        # options of the fits are used for the data and for the queries
        if stat in ("qtilde", "q0") and e != "aposteriori" and not name.endswith("-sig"):
            b = r.bounds()
            tight = [tuple(b[0])] + [(-0.15, 0.2)] * (r.npar - 1)
            start = [0.8 if i == 0 else 0.1 - 0.05 * (i % 3) for i in range(r.npar)]
            start = [s if lo is None or lo <= s <= hi else 0.5 * (lo + hi) for s, (lo, hi) in zip(start, b)]
            for opt in ({"par_bounds": tight}, {"init_pars": start}, {"par_bounds": tight, "init_pars": start}):
                try:
                    data = m.generate_asimov_data(expected=e, test_statistic=stat, **opt)
                    _, p = m.likelihood(mu, expected=e, return_parameters=True, **opt)
                    want = r.expected_data(p)
                    y = m.likelihood(0.6, expected=e, data=data, **opt)
                    z = m.maximize_likelihood(expected=e, allow_negative_signal=False, data=data, **opt)
                except ValueError:
                    rec.note("bounds refused")
                    continue
                rec.check(np.all(np.abs(np.asarray(data, float) - want) <= 3e-3 * np.maximum(1.0, np.abs(want))), "asimov-options", lambda: f"{name} {e} {stat} {opt}: {data}, expected data at the fit {want}")
                x = m.asimov_likelihood(0.6, expected=e, test_statistics=stat, **opt)
                rec.check(abs(x - y) <= 1e-6 * max(1, abs(y)), "asimov-options", f"{name} {e} {stat} {opt}: Asimov likelihood {x}; with the data passed {y}")
                x = m.maximize_asimov_likelihood(expected=e, test_statistics=stat, **opt)
                rec.check(abs(x[0] - z[0]) <= 1e-5 * max(1, abs(z[0])) and abs(x[1] - z[1]) <= 1e-6 * max(1, abs(z[1])), "asimov-options", f"{name} {e} {stat} {opt}: Asimov fit {x}; with the data passed {z}")
                rec.step(5)
                rec.state(name, e, stat, str(opt))
        # Asimov queries are the queries with these data
        if stat in ("qtilde", "q", "q0"):
            data = m.generate_asimov_data(expected=e, test_statistic=stat)
            for mu_t in (0.0, 0.6, 1.3):
                a, b = m.asimov_likelihood(mu_t, expected=e, test_statistics=stat), m.likelihood(mu_t, expected=e, data=data)
                c, d2 = m.asimov_likelihood(mu_t, expected=e, test_statistics=stat, return_nll=False), m.likelihood(mu_t, expected=e, data=data, return_nll=False)
                rec.step(4)
                rec.check(abs(a - b) <= 1e-6 * max(1, abs(b)) and abs(c - d2) <= 1e-6 * abs(d2), "asimov-likelihood", f"{name} {e} {stat} mu={mu_t}: {a}, {c}; with the data passed {b}, {d2}")
            x = m.maximize_asimov_likelihood(expected=e, test_statistics=stat)
            y = m.maximize_likelihood(expected=e, allow_negative_signal=stat == "q", data=data)
            rec.check(abs(x[0] - y[0]) <= 1e-5 * max(1, abs(y[0])) and abs(x[1] - y[1]) <= 1e-6 * max(1, abs(y[1])), "asimov-fit", f"{name} {e} {stat}: {x}; with the data passed {y}")
            x = m.maximize_asimov_likelihood(expected=e, test_statistics=stat, return_nll=False)
            rec.check(abs(x[1] - np.exp(-y[1])) <= 1e-6 * np.exp(-y[1]), "asimov-fit", f"{name} {e} {stat}: likelihood {x}; NLL with the data passed {y}")
            rec.step(3)
    rec.sample(f"{name}: 3 expectations x 5 statistics")


GROUPS = [["po2", "no2"], ["ub2", "po1"], ["mn2", "tm1"], ["es1", "cb1"], ["no1", "no2", "no3"],
          ["ub1-zero", "no1"], ["ub1-zero", "po1-zero"], ["ub3", "ub1-zero"]]


def run_group(case, rec):
    """Asimov data of a combination come from the common fit of all members."""
    names = case["group"]
    members = [zoo.build(zoo.catalogue()[n], analysis=f"m{i}") for i, n in enumerate(names)]
    c = spey.UnCorrStatisticsCombiner(*members)
    for e, stat in itertools.product(("observed", "apriori"), ("qtilde", "q", "q0")):
        data = c.generate_asimov_data(expected=e, test_statistic=stat)
        rec.step()
        rec.check(sorted(data) == [f"m{i}" for i in range(len(names))], "names", f"{names}: data for {list(data)}")
        mu = 1.0 if stat == "q0" else 0.0
        for i, n in enumerate(names):
            r = zoo.Ref(zoo.catalogue()[n])
            _, p = members[i].likelihood(mu, expected=e, return_parameters=True)
            want = r.expected_data(p)
            rec.check(np.all(np.abs(np.asarray(data[f"m{i}"], float) - want) <= 3e-3 * np.maximum(1, np.abs(want))), "asimov",
                      lambda: f"{names} member {n} {e} {stat}: {data[f'm{i}']}, expected data {want}")
        for x in (0.0, 0.7, 1.2):
            a, b = c.asimov_likelihood(x, expected=e, test_statistics=stat), sum(members[i].likelihood(x, expected=e, data=list(data[f"m{i}"])) for i in range(len(names)))
            rec.check(abs(a - b) <= 1e-5 * max(1, abs(b)), "asimov-likelihood", f"{names} {e} {stat} mu={x}: {a}, sum over members {b}")
        muhat, nll = c.maximize_asimov_likelihood(expected=e, test_statistics=stat)
        total = lambda x: sum(members[i].likelihood(float(x), expected=e, data=list(data[f"m{i}"])) for i in range(len(names)))  # noqa: E731
        # the fit is the smallest sum over the allowed range
        rec.check(stat == "q" or muhat >= -1e-9, "asimov-fit", f"{names} {e} {stat}: best fit {muhat} is negative")
        lo = max([-10.0] + [zoo.Ref(zoo.catalogue()[n]).min_poi for n in names]) if stat == "q" else 0.0
        for mu_t in (lo * 0.9, lo * 0.5, lo * 0.25, lo * 0.1, lo * 0.05, 0.0, 0.3, 0.6, 0.9, 1.2):
            try:
                v = total(mu_t)
            except ValueError:
                continue
            rec.check(nll <= v + 2e-3 * max(1.0, abs(v) * 0.1), "asimov-fit", lambda: f"{names} {e} {stat}: best fit {muhat}, {nll}; sum at {mu_t} is {v}")
        x = c.maximize_asimov_likelihood(expected=e, test_statistics=stat, return_nll=False)
        rec.check(abs(x[0] - muhat) <= 1e-4 * max(1, abs(muhat)) and abs(x[1] - np.exp(-nll)) <= 1e-4 * np.exp(-nll), "asimov-fit", f"{names} {e} {stat}: likelihood {x}, NLL {muhat}, {nll}")
        for mu_t in (0.0, 0.9):
            a, b = c.asimov_likelihood(mu_t, expected=e, test_statistics=stat, return_nll=False), c.asimov_likelihood(mu_t, expected=e, test_statistics=stat)
            rec.check(abs(a - np.exp(-b)) <= 1e-6 * a, "asimov-likelihood", f"{names} {e} {stat} mu={mu_t}: likelihood {a}, NLL {b}")
        rec.step(5)
        rec.check(abs(nll - total(muhat)) <= 1e-4 and nll <= total(mu) + 2e-3, "asimov-fit", f"{names} {e} {stat}: best fit {muhat}, {nll}; sum at {mu} {total(mu)}")
        rec.state(names, e, stat)
        rec.trace()


def run_scripted(case, rec):
    """Which fits are made, with which options, and where their parameters go."""
    for e, stat, extra in itertools.product(("observed", "aposteriori", "apriori"), STATS, ({}, {"init_pars": [0.7, 0.3]}, {"par_bounds": [(-0.5, 3.0), (-0.2, 0.25)]})):
        seen = []

        class Back(bk.Counting):
            get_objective_function = bk.objective_with_gradient

            def expected_data(self, pars):
                seen.append(np.array(pars, float))
                return [float(x) for x in self.lam(pars)] + [float(pars[1])]
        b = Back([2.0, 1.0], [8.0, 5.0], [14.0, 4.0], 0.3)
        m = spey.StatisticalModel(b, "scripted")
        got = m.generate_asimov_data(expected=e, test_statistic=stat, **extra)
        rec.step()
        mu = 1.0 if stat == "q0" else 0.0
        d = b.b if e == "apriori" else b.n
        lo, hi = extra.get("par_bounds", [None, (-5.0, 5.0)])[1]
        from scipy.optimize import minimize_scalar
        lp = b.get_logpdf_func(data=d)
        best = minimize_scalar(lambda t: -lp([mu, t]), bounds=(max(lo, -3.3), hi), method="bounded", options={"xatol": 1e-10}).x
        rec.check(len(seen) == 1 and abs(seen[0][0] - mu) < 1e-9 and abs(seen[0][1] - best) < 2e-3, "parameters", f"{e} {stat} {extra}: expected data at {seen}, conditional fit ({mu}, {best})")
        rec.check(np.allclose(got, list(b.lam(seen[-1])) + [seen[-1][1]], atol=1e-12), "returned", f"{e} {stat}: {got}")
        rec.state(e, stat, str(extra))
        rec.trace()


def cases(tier):
    deep = tier == "thorough"
    groups = GROUPS
    if deep:
        groups = GROUPS + [list(p) for p in itertools.combinations(["po1", "po2", "no1", "no2", "mn2", "ub1", "ub2", "cb2", "tm2", "es2", "po3", "no3"], 2)]
    return [{"t": "model", "name": k, "deep": deep} for k in zoo.catalogue()] + [{"t": "group", "group": g} for g in groups] + [{"t": "scripted"}]


def weight(case):
    return zoo.Ref(zoo.catalogue()[case["name"]]).npar if case["t"] == "model" else 50


def run(case, rec):
    {"model": run_model, "group": run_group, "scripted": run_scripted}[case["t"]](case, rec)
