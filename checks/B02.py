"""B02: every derived configuration of a grid of model configurations against the documented bounds and indices."""
import copy
import itertools
import math

import numpy as np

import spey
from mc import zoo
from spey.base.model_config import ModelConfig

try:
    from spey.base.utils import resolve_parameter_index
except ImportError:  # an internal helper: only used where it exists
    resolve_parameter_index = None

BOUNDS = {
    "quick": "1-3 parameters x every POI position x 9 POI bounds x 4 nuisance bounds x 4 minimum POIs x 17 values, all assignments of 9 values to every subset of "
             "parameters; all renaming maps of up to 3 names; 53 backend models and 10 combinations x 2 sign options x 5 upper bounds",
    "thorough": "as quick with 13 POI bounds, 7 nuisance bounds, 6 minimum POIs, 21 values, 1-4 parameters",
}
ASSUMPTIONS = ["configurations are those a backend can hand out: lower bounds below upper ones, minimum POI not above zero"]

INF = float("inf")
PB = [(-1.5, 10.0), (0.0, 10.0), (-0.5, 0.5), (None, 10.0), (-INF, INF), (2.0, 3.0), (None, None), (0.0, None), (-2.0, None)]
PB_MORE = [(-30.0, 40.0), (-INF, 10.0), (0, 1), (None, INF)]
NB = [(-5.0, 5.0), (None, None), (0.0, 1.0), (2.0, 6.0)]
NB_MORE = [(-INF, INF), (None, 3.0), (-4.0, -2.0)]
MIN = [-1.5, 0.0, -INF, -30.0]
MIN_MORE = [-1e-3, -10.0]
VALUES = [-50.0, -10.0, -3.0, -1.5, -1.0, -0.5, -1e-9, 0.0, 1e-9, 0.5, 1, 2.0, 5.0, 9.999, 10.0, 12.5, 1e4]
VALUES_MORE = [-1e4, 3.0, 40.0, 39]
MULTI = [-50.0, -1.5, -0.2, 0.0, 0.7, 2, 5.0, 10.0, 300.0]


def value_of(v):
    return float(v)


def same_bounds(a, b):
    return len(a) == len(b) and all(len(tuple(x)) == 2 and tuple(x) == tuple(y) for x, y in zip(a, b))


def finite_poi_oracle(lo, hi, mn, v):
    """None if the bounds stay as they are, otherwise what is required of the new ones."""
    if lo is None or hi is None or lo < v < hi:
        return None
    return mn if v < 0 else 0.0


def poi_ok(got, old, mn, v):
    lo, hi = old
    want_low = finite_poi_oracle(lo, hi, mn, v)
    glo, ghi = got
    if want_low is None:
        return (glo, ghi) == (lo, hi)
    if glo != want_low or glo is None or ghi is None or not glo <= ghi:
        return False
    if v >= want_low and not (glo <= v < ghi):  # room above the value
        return False
    return True


def nuisance_ok(got, old, v):
    lo, hi = old
    glo, ghi = got
    if lo is None or hi is None or lo < v < hi:
        return (glo, ghi) == (lo, hi)
    return glo <= lo and ghi >= hi and glo <= v <= ghi and glo < ghi and (glo == lo or glo == v) and (ghi == hi or v >= hi)


def make(npar, poi, pb, nbs, mn):
    b = list(nbs)
    b.insert(poi, pb)
    return ModelConfig(poi_index=poi, minimum_poi=mn, suggested_init=[1.0] * npar, suggested_bounds=list(b), parameter_names=[f"p{i}" for i in range(npar)],
                       suggested_fixed=[False] * npar)


def snapshot(c):
    return copy.deepcopy((c.poi_index, c.minimum_poi, c.suggested_init, c.suggested_bounds, c.parameter_names, c.suggested_fixed))


def run_grid(case, rec):
    npar, poi, deep = case["npar"], case["poi"], case["deep"]
    nb = NB + (NB_MORE if deep else [])
    values = VALUES + (VALUES_MORE if deep else [])
    pb = [(float(x) if isinstance(x, str) else x) for x in case["pb"]]
    pb = tuple(pb)
    if npar > 3:
        nb = NB[:3]
    for nbs in itertools.product(nb, repeat=npar - 1):
        for mn in MIN + (MIN_MORE if deep else []):
            cfg = make(npar, poi, pb, nbs, mn)
            before = snapshot(cfg)
            old = list(cfg.suggested_bounds)
            ctx = f"bounds {old}, POI {poi}, minimum {mn}"
            rec.check(same_bounds(cfg.fixed_poi_bounds(None), old) and same_bounds(cfg.fixed_poi_bounds(), old) and same_bounds(cfg.fixed_poi_bounds_multi(None), old)
                      and same_bounds(cfg.fixed_poi_bounds_multi({}), old), "no-value", f"{ctx}: bounds without a fixed value differ")
            rec.check(cfg.npar == npar, "npar", f"{ctx}: npar {cfg.npar}")
            for v in values:
                for form in (float(v), v if isinstance(v, int) else np.float64(v)):
                    got = cfg.fixed_poi_bounds(form)
                    multi = cfg.fixed_poi_bounds_multi({poi: form})
                    rec.step(2)
                    for name, g in (("fixed_poi_bounds", got), ("fixed_poi_bounds_multi", multi)):
                        ok = len(g) == npar and all(tuple(g[k]) == tuple(old[k]) for k in range(npar) if k != poi)
                        rec.check(ok, "others", lambda: f"{ctx}: {name}({form}) = {g} changes other parameters")
                        rec.check(poi_ok(g[poi], old[poi], mn, form), "poi-bounds", lambda: f"{ctx}: {name}({form!r}) = {g}")
                    rec.outcome(tuple(got[poi]))
                    # the derived bounds belong to the caller
                    for g in (got, multi):
                        g[poi] = (123.0, 456.0)
                    rec.check(snapshot(cfg) == before, "original", f"{ctx}: original changed by fixing {v}")
                rec.state(npar, poi, pb, nbs, mn, v)
                rec.trace()
            for allow in (True, False):
                for upper in (None, 0.5, 2, 10.0, 40.0):
                    got = cfg.rescale_poi_bounds(allow_negative_signal=allow, poi_upper_bound=upper)
                    want = list(old)
                    want[poi] = (mn if allow else 0.0, old[poi][1] if upper is None else upper)
                    rec.check(same_bounds(got, want), "rescale", lambda: f"{ctx}: rescale_poi_bounds({allow}, {upper}) = {got}, expected {want}")
                    got[poi] = (1, 2)
                    rec.check(snapshot(cfg) == before, "original", f"{ctx}: original changed by rescaling")
                    rec.step()
                    rec.state("rescale", npar, poi, pb, nbs, mn, allow, upper)
    rec.sample(f"{npar} parameters, POI {poi} with bounds {pb}")


def run_multi(case, rec):
    """Every assignment of values to every subset of the parameters."""
    npar, poi = case["npar"], case["poi"]
    values = MULTI if npar < 3 or case["deep"] else MULTI[::2]
    for pb in PB[:5] + PB[7:8]:
        for nbs in itertools.combinations_with_replacement(NB, npar - 1):
            mn = -1.5
            cfg = make(npar, poi, pb, nbs, mn)
            before = snapshot(cfg)
            old = list(cfg.suggested_bounds)
            for r in range(1, npar + 1):
                for idx in itertools.permutations(range(npar), r):
                    for vals in itertools.product(values, repeat=r):
                        d = dict(zip(idx, vals))
                        got = cfg.fixed_poi_bounds_multi(d)
                        ok = len(got) == npar
                        for k in range(npar):
                            if k not in d:
                                ok = ok and tuple(got[k]) == tuple(old[k])
                            elif k == poi:
                                ok = ok and poi_ok(got[k], old[k], mn, d[k])
                            else:
                                ok = ok and nuisance_ok(got[k], old[k], d[k])
                        rec.check(ok, "multi", lambda: f"bounds {old}, POI {poi}, minimum {mn}: fixed_poi_bounds_multi({d}) = {got}")
                        rec.step()
                        rec.state(npar, poi, pb, nbs, idx, vals)
            rec.check(snapshot(cfg) == before, "original", f"bounds {old}: original changed")
            rec.trace()


def raises(fn, kinds):
    try:
        out = fn()
    except kinds:
        return True, None
    except Exception as exc:  # noqa: BLE001
        return False, repr(exc)
    return False, repr(out)


def run_resolve(case, rec):
    npar = case["npar"]
    names = ["mu", "theta_0", "0"][:npar]  # a name which looks like an index
    for poi in range(npar):
        for named in (True, False):
            cfg = ModelConfig(poi, -1.0, [1.0] * npar, [(-1.0, 10.0)] * npar, list(names) if named else None)
            before = snapshot(cfg)
            ctx = f"names {cfg.parameter_names}, POI {poi}"
            for v in (0.0, 1, -2.5, np.float64(3), np.int64(2), np.array(1.5)):
                got = cfg.resolve_poi_indices(v)
                rec.check(got == {poi: float(v)} and all(type(k) is int and isinstance(x, float) for k, x in got.items()), "resolve", lambda: f"{ctx}: resolve({v!r}) = {got}")
                rec.step()
                rec.state(npar, poi, named, repr(v))
            keys = list(range(npar)) + [np.int64(i) for i in range(npar)] + (list(names) if named else [])
            where = {**{i: i for i in range(npar)}, **({n: i for i, n in enumerate(names)} if named else {})}
            for r in range(0, npar + 1):
                for ks in itertools.permutations(keys, r):
                    if len({where[k] for k in ks}) != r:
                        continue  # one parameter fixed twice
                    d = {k: float(i) - 0.5 for i, k in enumerate(ks)}
                    want = {where[k]: x for k, x in d.items()}
                    got = cfg.resolve_poi_indices(d)
                    rec.check(got == want and all(type(k) is int for k in got), "resolve", lambda: f"{ctx}: resolve({d}) = {got}, expected {want}")
                    rec.step()
                    rec.state(npar, poi, named, repr(ks))
                    rec.trace()
            for bad in ["", "mu ", "Mu", "theta_7", "p0"] + ([] if named else list(names)):
                for d in ({bad: 1.0}, {0: 1.0, bad: 2.0}, {bad: 2.0, 0: 1.0}):
                    ok, what = raises(lambda: cfg.resolve_poi_indices(d), ValueError)
                    rec.check(ok, "unknown-name", lambda: f"{ctx}: resolve({d}) gives {what}")
                    rec.state(npar, poi, named, repr(d))
            if resolve_parameter_index is not None:
                for i in range(-4, npar + 3):
                    for form in (i, np.int64(i)):
                        if 0 <= i < npar and i != poi and npar > 1:
                            got = resolve_parameter_index(form, cfg)
                            rec.check(got == i, "parameter-index", lambda: f"{ctx}: index {i} resolved to {got}")
                        else:
                            ok, what = raises(lambda: resolve_parameter_index(form, cfg), ValueError)
                            rec.check(ok, "parameter-index", lambda: f"{ctx}: index {i} of {npar} parameters gives {what}")
                        rec.state("pi", npar, poi, i)
                for i, n in enumerate(names):
                    if named and npar > 1:
                        rec.check(resolve_parameter_index(n, cfg) == i, "parameter-index", f"{ctx}: name {n}")
                    else:
                        ok, what = raises(lambda: resolve_parameter_index(n, cfg), ValueError)
                        rec.check(ok, "parameter-index", lambda: f"{ctx}: name {n} gives {what}")
                ok, what = raises(lambda: resolve_parameter_index("nope", cfg), ValueError)
                rec.check(ok, "parameter-index", lambda: f"{ctx}: unknown name gives {what}")
            rec.check(snapshot(cfg) == before, "original", f"{ctx}: original changed")


def run_rename(case, rec):
    """All renaming maps (applied at once) from a small alphabet of names, and all pairs of them."""
    npar = case["npar"]
    names = ["a", "b", "c"][:npar]
    targets = ["a", "b", "c", "x"]
    maps = [{}]
    for r in range(1, npar + 1):
        for ks in itertools.permutations(names + ["x"], r):
            for ts in itertools.product(targets, repeat=r):
                maps.append(dict(zip(ks, ts)))

    def model(state, m):
        if any(k not in state for k in m):
            return None
        new = [m.get(n, n) for n in state]
        return new if len(set(new)) == len(new) else None

    second = maps if case["deep"] or npar < 3 else [m for m in maps if len(m) < 2]
    for m1 in maps:
        for m2 in second:
            cfg = ModelConfig(0, -1.0, [1.0] * npar, [(-1.0, 10.0)] * npar, list(names))
            state = list(names)
            for m in (m1, m2):
                keep = dict(m)
                want = model(state, m)
                try:
                    cfg.change_parameter_names(m)
                    got = list(cfg.parameter_names)
                except ValueError:
                    got = None
                rec.step()
                rec.check(got == want, "rename", lambda: f"names {state}, map {m}: {got}, expected {want or 'ValueError'}")
                state = want or state
                rec.check(cfg.parameter_names == state and m == keep, "rename", lambda: f"map {m} leaves {cfg.parameter_names}, expected {state}")
                for i, n in enumerate(state):
                    rec.check(cfg.resolve_poi_indices({n: 2.0}) == {i: 2.0}, "rename", lambda: f"name {n} of {state} resolves wrongly")
            rec.state(npar, repr(m1), repr(m2))
            rec.trace()


UPPER = [10.0, 0.5, 3, 40.0, 1000.0]


def config_ok(rec, ctx, cfg, ref_min, npar, want_poi, rest, names_unique=True):
    ok = cfg.npar == npar and len(cfg.suggested_bounds) == npar and len(cfg.suggested_init) == npar and 0 <= cfg.poi_index < npar
    rec.check(ok, "config-shape", lambda: f"{ctx}: {cfg}")
    if not ok:
        return
    close = lambda a, b: a == b or (a is not None and b is not None and abs(a - b) <= 1e-9 * max(1, abs(b)))
    rec.check(close(cfg.minimum_poi, ref_min), "minimum-poi", lambda: f"{ctx}: minimum POI {cfg.minimum_poi}, expected {ref_min}")
    got = cfg.suggested_bounds[cfg.poi_index]
    rec.check(close(got[0], want_poi[0]) and close(got[1], want_poi[1]), "config-bounds", lambda: f"{ctx}: POI bounds {got}, expected {want_poi}")
    if rest is not None:
        others = [tuple(b) for i, b in enumerate(cfg.suggested_bounds) if i != cfg.poi_index]
        rec.check(others[: len(rest)] == rest, "config-bounds", lambda: f"{ctx}: other bounds {others}, expected {rest}")
    rec.check(all(np.isfinite(x) for x in cfg.suggested_init), "config-init", lambda: f"{ctx}: {cfg.suggested_init}")
    if cfg.parameter_names is not None:
        rec.check(len(cfg.parameter_names) == npar and (not names_unique or len(set(cfg.parameter_names)) == npar), "config-names", lambda: f"{ctx}: {cfg.parameter_names}")
    if cfg.suggested_fixed is not None:
        rec.check(len(cfg.suggested_fixed) == npar, "config-fixed", lambda: f"{ctx}: {cfg.suggested_fixed}")


def run_backend(case, rec):
    spec = zoo.catalogue()[case["model"]]
    ref = zoo.Ref(spec)
    unnamed = sum(1 for m in spec["kw"].get("modifiers") or [] if "name" not in m)
    calls = list(itertools.product((True, False), UPPER))
    for order in (calls, calls[::-1]):
        backend = zoo.build(spec).backend
        for allow, upper in order:
            for call in (lambda: backend.config(allow, upper), lambda: backend.config(allow_negative_signal=allow, poi_upper_bound=upper)):
                cfg = call()
                rec.step()
                config_ok(rec, f"{case['model']}.config({allow}, {upper})", cfg, ref.min_poi, ref.npar, (ref.min_poi if allow else 0.0, upper),
                          [tuple(b) for b in ref.sig_bounds])
                if not allow:
                    rec.check(cfg.suggested_bounds[cfg.poi_index][0] >= 0, "config-bounds", "negative signal allowed")
            if np.isfinite(ref.min_poi) and ref.alive:
                lam = cfg.minimum_poi * np.asarray(ref.s) + ref.b
                rec.check(np.all(lam[np.asarray(ref.s) > 0] >= -1e-9), "minimum-poi", f"{case['model']}: negative yields {lam} at the minimum POI")
            rec.state(case["model"], allow, upper)
        cfg = backend.config()
        config_ok(rec, f"{case['model']}.config()", cfg, ref.min_poi, ref.npar, (ref.min_poi, 10.0), None)
        rec.trace()
    # names can be used to address parameters
    m = zoo.build(spec)
    names = m.backend.config().parameter_names
    if names is not None:
        for i, n in enumerate(names):
            rec.check(m.backend.config().resolve_poi_indices({n: 1.0}) == {i: 1.0}, "config-names", f"{case['model']}: name {n}")
    rec.outcome(case["model"], ref.npar)


def run_combination(case, rec):
    names = case["models"]
    models = []
    for i, n in enumerate(names):
        m = zoo.build(zoo.catalogue()[n], analysis=f"a{i}")
        models.append(m)
    want = max(zoo.Ref(zoo.catalogue()[n]).min_poi for n in names)
    comb = spey.UnCorrStatisticsCombiner(*models)
    got = comb.minimum_poi
    rec.check(got == want or abs(got - want) < 1e-9, "combination", f"{names}: minimum POI {got}, expected {want}")
    rec.state(*names)
    rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = []
    for npar in range(1, 5 if deep else 4):
        for poi in range(npar):
            for pb in PB + (PB_MORE if deep else []):
                out.append({"t": "grid", "npar": npar, "poi": poi, "pb": [str(x) if x is not None and math.isinf(x) else x for x in pb], "deep": deep})
            if npar < 4:
                out.append({"t": "multi", "npar": npar, "poi": poi, "deep": deep})
    for npar in (1, 2, 3):
        out += [{"t": "resolve", "npar": npar}, {"t": "rename", "npar": npar, "deep": deep}]
    out += [{"t": "backend", "model": n} for n in zoo.catalogue()]
    pool = ["po1", "ub2", "cb2", "no1", "po2-dead-bin"]
    out += [{"t": "combination", "models": list(c)} for r in (1, 2) for c in itertools.permutations(pool, r)]
    return out


def weight(case):
    return {"grid": 5 ** case.get("npar", 1), "multi": 6 ** case.get("npar", 1)}.get(case["t"], 1)


def run(case, rec):
    {"grid": run_grid, "multi": run_multi, "resolve": run_resolve, "rename": run_rename, "backend": run_backend, "combination": run_combination}[case["t"]](case, rec)
