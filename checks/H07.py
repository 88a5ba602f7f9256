"""H07: chi-square, pull, significance and sigma_mu on scripted likelihoods, counting experiments and all catalogue models."""
import itertools
import math

import numpy as np

import spey
from mc import backends as bk, zoo
from mc.stub import Parabola, Stub

BOUNDS = {
    "quick": "6 best fits x 3 widths x 2 offsets per expectation; 7 tested values in 6 forms x 3 denominators x 3 sign options x option forwarding; "
             "sigma_mu on 5 Hessian situations x 5 statistics x 5 signals; 53 models x 3 expectations",
    "thorough": "as quick with 12 best fits, 6 widths, 15 tested values and 5 signal strengths per model",
}
ASSUMPTIONS = ["Phi from math.erfc; derivatives of the reference likelihood by central differences (1e-4 relative)"]
EXP = ("observed", "aposteriori", "apriori")


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))))


def curves_of(m, s, base):
    return {"observed": Parabola(m, s, base), "aposteriori": Parabola(m + 0.3, s * 1.2, base + 1), "apriori": Parabola(m * 0.5 - 0.1, s * 0.7, base - 2)}


# ------------------------------------------------------------------------------ scripted likelihoods
def run_chi2(case, rec):
    curves = curves_of(case["m"], case["s"], case["base"])
    points = case["points"]
    for e in EXP:
        c = curves[e]
        for den, neg in itertools.product((None, 0.0, 1.5), (None, False, True)):
            negkw = {} if neg is None else {"allow_negative_signal": neg}
            ref = c.best(bool(neg))[1] if den is None else c(den)
            want = np.array([2 * (c(x) - ref) for x in points])
            forms = {
                "list": list(points), "tuple": tuple(points), "array": np.array(points), "empty": [], "scan": {"mu": list(points)}, "scan-array": {"mu": np.array(points)},
            }
            stub = Stub(lambda k: curves[k])
            lab = f"{case} {e} denominator={den} negative={neg}"
            for x, w in zip(points, want):
                for v in (x, np.float64(x), {"mu": x}):
                    got = stub.chi2(v, poi_test_denominator=den, expected=e, **negkw)
                    rec.check(np.ndim(got) == 0 and close(got, w), "chi2", f"{lab} chi2({v!r}) = {got}, expected {w}")
                    rec.step()
            for k, v in forms.items():
                w = want if k != "empty" else want[:0]
                got = stub.chi2(v, poi_test_denominator=den, expected=e, **negkw)
                rec.check(close(got, w), f"chi2-{k}", lambda: f"{lab} {k}: {got}, expected {w}")
                if k.startswith("scan"):
                    rec.check(list(v) == ["mu"] and close(v["mu"], points), "chi2-scan-input", f"{lab}: scan dictionary is now {v}")
                rec.step()
            rec.check(all(x[0] == "likelihood" or x[2] == bool(neg) for x in stub.calls), "chi2-sign", f"{lab}: calls {stub.calls[:3]}")
            rec.state("chi2", case["m"], case["s"], case["base"], e, den, neg)
            rec.trace()
        for neg in (None, False, True):
            muhat, low = c.best(neg is not False)
            negkw = {} if neg is None else {"allow_negative_signal": neg}
            stub = Stub(lambda k: curves[k])
            want = [math.copysign(1, muhat - x) * math.sqrt(max(2 * (c(x) - low), 0)) if x != muhat else 0.0 for x in points]
            for x, w in zip(points, want):
                got = stub.pull(x, expected=e, **negkw)
                rec.check(np.ndim(got) == 0 and close(got, w, 1e-8), "pull", f"{case} {e} negative={neg} pull({x}) = {got}, expected {w}")
                # consistency with chi2 for the same options
                x2 = stub.chi2(x, expected=e, allow_negative_signal=neg is not False)
                rec.check(abs(max(x2, 0) - got**2) <= 1e-8 * max(1, abs(x2)), "pull-chi2", f"{case} {e} pull({x}) = {got}, chi2 {x2}")
                rec.step(2)
            for f in (list, tuple, np.array):
                rec.check(close(stub.pull(f(points), expected=e, **negkw), want, 1e-8), "pull-list", f"{case} {e} negative={neg} {f}")
                rec.step()
            rec.outcome(np.round(want, 6).tolist())
            rec.trace()
    rec.sample(f"m={case['m']} s={case['s']}: {len(points)} points in 9 forms")


def run_forward(case, rec):
    """Which options reach which of the two likelihood evaluations."""
    for e, den, form in itertools.product(EXP, (None, 0.5), (0.7, [0.7, 1.1], {"mu": [0.7, 1.1]}, {"mu": 0.7})):
        for opts in itertools.product((None, [1.0]), (None, [(0.0, 2.0)]), (None, {"method": "A"}), (None, {"method": "B"})):
            ip, pb, mle, lk = opts
            stub = Stub(lambda k: Parabola(0.4))
            stub.chi2(form, poi_test_denominator=den, expected=e, init_pars=ip, par_bounds=pb, mle_kwargs=mle, likelihood_kwargs=lk)
            rec.step()
            base = {"init_pars": ip, "par_bounds": pb}
            first, rest = stub.calls[0], stub.calls[1:]
            n = 2 if isinstance(form, list) or (isinstance(form, dict) and isinstance(form["mu"], list)) else 1
            low = [x for x in stub.calls if x[-1] == {**base, **(mle or {})}]
            num = [x for x in stub.calls if x[-1] == {**base, **(lk or {})} and x[0] == "likelihood"]
            rec.check(len(stub.calls) == n + 1 and len(low) >= 1 and len(num) >= n and all(x[1] == e for x in stub.calls), "options", f"{e} den={den} {form} {opts}: calls {stub.calls}")
            rec.check(sum(x[0] == "maximize" for x in stub.calls) == (den is None), "options", f"den={den}: calls {stub.calls}")
            rec.state("forward", e, den, str(form), str(opts))
    for e, extra in itertools.product(EXP, ({}, {"init_pars": [1.0]}, {"par_bounds": [(0, 2)], "method": "A"})):
        stub = Stub(lambda k: Parabola(0.4), lambda k, t: Parabola(0.8 if t == "q0" else 0.0))
        stub.pull([0.1, 0.5], expected=e, **extra)
        rec.check(all(x[-1] == extra and x[1] == e for x in stub.calls) and len(stub.calls) == 3, "options-pull", f"{e} {extra}: {stub.calls}")
        stub.calls.clear()
        stub.significance(expected=e, **extra)
        rec.check(all(x[-1] == extra and x[1] == e for x in stub.calls), "options-significance", f"{e} {extra}: {stub.calls}")
        rec.check({x[2] for x in stub.calls if "asimov" in x[0]} == {"q0"}, "options-significance", f"{e} {extra}: {stub.calls}")
        for t in ("q", "qmu", "qtilde", "qmutilde", "q0"):
            stub.calls.clear()
            stub.sigma_mu(0.9, expected=e, test_statistics=t, **extra)
            rec.check(all(x[-1] == extra and x[1] == e and x[2] == {"qmu": "q", "qmutilde": "qtilde"}.get(t, t) for x in stub.calls), "options-sigma", f"{e} {t} {extra}: {stub.calls}")
        rec.step(7)
        rec.trace()
    stub = Stub(lambda k: Parabola(0.4))
    try:
        stub.chi2({"a": [1.0, 2.0], "b": [1.0]})
        rec.fail("two-scans", "a scan over two parameters is accepted")
    except NotImplementedError:
        pass
    except Exception as exc:
        rec.fail("two-scans", f"{exc!r}")


def q_of(stat, mu, c, best):
    """Definition of the test statistic on the curve c."""
    if stat == "q0":
        m, low = best
        return 2 * (c(0.0) - low) if m >= 0 else 0.0
    m, low = best
    if m > mu:
        return 0.0
    if stat == "qtilde" and m < 0:
        return max(0.0, 2 * (c(mu) - c(0.0)))
    return max(0.0, 2 * (c(mu) - low))


def run_significance(case, rec):
    m, s, mA, sA = case["m"], case["s"], case["mA"], case["sA"]
    for e in EXP:
        curves = curves_of(m, s, 2.0)
        asi = {(k, t): Parabola(mA + 0.2 * i + {"q": 0.0, "qtilde": 0.1, "q0": 0.4}[t], sA * (1 + 0.1 * i), 1.0)
               for i, k in enumerate(EXP) for t in ("q", "qtilde", "q0")}
        stub = Stub(lambda k: curves[k], lambda k, t: asi[k, t])
        obs, a = curves[e], asi[e, "q0"]
        q, qA = q_of("q0", 0, obs, obs.best(False)), q_of("q0", 0, a, a.best(False))
        if qA <= 0:
            continue
        got = stub.significance(expected=e)
        rec.step()
        sA_, s_, p, pe = got
        lab = f"{case} {e}"
        rec.check(close(sA_, math.sqrt(qA), 1e-8) and close(s_, math.sqrt(q), 1e-8), "significance", f"{lab}: {got[:2]}, expected {math.sqrt(qA)}, {math.sqrt(q)}")
        rec.check(close(list(p), [cdf(-math.sqrt(q))], 1e-8), "significance-p", f"{lab}: {p}, expected {cdf(-math.sqrt(q))}")
        want = [cdf(-(math.sqrt(qA) + k)) for k in (-2, -1, 0, 1, 2)]
        rec.check(close(list(pe), want, 1e-8) or close(list(pe), want[::-1], 1e-8), "significance-expected", f"{lab}: {pe}, expected {want}")
        rec.outcome(round(float(s_), 9), round(float(sA_), 9))
        # uncertainty of the signal strength without a Hessian
        for t, mu in itertools.product(("q", "qmu", "qtilde", "qmutilde", "q0"), (0.0, 0.3, 1.0, 2.5, -0.5)):
            kt = {"qmu": "q", "qmutilde": "qtilde"}.get(t, t)
            a = asi[e, kt]
            best = a.best(kt == "q")
            mu_ = 0.0 if kt == "q0" else mu
            qA = q_of(kt, mu_, a, best)
            want = 1.0 if qA <= 0 else abs(mu_ - best[0]) / math.sqrt(qA)
            got = stub.sigma_mu(mu, expected=e, test_statistics=t)
            rec.check(close(got, want, 1e-7), "sigma-asimov", f"{lab} sigma_mu({mu}, {t}) = {got}, expected {want}")
            rec.step()
        rec.state("significance", str(case), e)
        rec.trace()


# ------------------------------------------------------------------------------ Hessian situations
def run_hessian(case, rec):
    """Curvature estimate where there is one, Asimov estimate otherwise."""
    for kind, e, (s, b, n, eps) in itertools.product(
            ("exact", "missing", "singular", "negative", "nan"), EXP,
            [([2.0], [5.0], [7.0], None), ([2.0, 1.0], [8.0, 5.0], [9.0, 4.0], 0.3), ([1.0, 3.0], [20.0, 12.0], [25.0, 10.0], 0.1)]):
        ns = {"get_objective_function": bk.objective_with_gradient, "expected_data": bk.expected_data}
        if kind == "exact":
            ns["get_hessian_logpdf_func"] = bk.hessian
        elif kind != "missing":
            dim = 1 if eps is None else 2
            mat = {"singular": np.zeros((dim, dim)), "negative": np.eye(dim) * 0.25, "nan": np.full((dim, dim), np.nan)}[kind]
            ns["get_hessian_logpdf_func"] = lambda self, expected="observed", data=None, mat=mat: (lambda p: mat)
        b_ = type("B", (bk.Counting,), ns)(s, b, n, eps)
        m = spey.StatisticalModel(b_, "h")
        for mu, t, extra in itertools.product((0.0, 0.5, 1.0, 2.0), ("qtilde", "q", "q0"), ({}, {"data": list(np.array(n) + 1)})):
            if extra and kind != "exact":
                continue
            got = m.sigma_mu(mu, expected=e, test_statistics=t, **extra)
            rec.step()
            if kind == "exact":
                _, p = m.likelihood(mu, expected=e, return_parameters=True, **extra)
                h = -bk.hessian(b_, e, extra.get("data"))(p)
                want = math.sqrt(np.linalg.inv(h)[0, 0])
                tol = 1e-5
            else:
                mhat, low = m.maximize_asimov_likelihood(expected=e, test_statistics=t)
                mu_ = 0.0 if t == "q0" else mu
                curve = lambda x: m.asimov_likelihood(x, expected=e, test_statistics=t)  # noqa: E731
                q = q_of(t, mu_, curve, (mhat, low))
                want = 1.0 if q <= 0 else abs(mu_ - mhat) / math.sqrt(q)
                tol = 1e-4
                if q < 1e-4:
                    # the ratio of two vanishing numbers
                    rec.check(np.isfinite(got) and got >= 0, "sigma", f"{kind} {e} sigma_mu({mu}, {t}) = {got}")
                    continue
            rec.check(close(got, want, tol), f"sigma-{kind}", f"{kind} {e} s={s} sigma_mu({mu}, {t}, {extra}) = {got}, expected {want}")
            rec.state(kind, e, str(s), mu, t, str(extra))
            rec.outcome(round(float(got), 6))
            rec.trace()


# ------------------------------------------------------------------------------ models
def second_derivatives(f, p):
    p = np.asarray(p, float)
    n = len(p)
    h = 2e-4 * np.maximum(1.0, np.abs(p))
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            v = 0.0
            for si, sj in itertools.product((1, -1), repeat=2):
                x = p.copy()
                x[i] += si * h[i]
                x[j] += sj * h[j]
                v += si * sj * f(x)
            out[i, j] = out[j, i] = v / (4 * h[i] * h[j])
    return out


def run_model(case, rec):
    name = case["name"]
    sp = zoo.catalogue()[name]
    r, m = zoo.Ref(sp), zoo.build(sp)
    for e in EXP:
        muhat, low = m.maximize_likelihood(expected=e)
        pm, plow = m.maximize_likelihood(expected=e, allow_negative_signal=False)
        pts = case["points"]
        nll = {x: m.likelihood(x, expected=e) for x in set(pts) | {0.0}}
        tol = 1e-7
        for x in pts:
            lab = f"{name} {e} mu={x}"
            rec.check(close(m.chi2(x, expected=e), 2 * (nll[x] - plow), tol), "chi2", f"{lab}: {m.chi2(x, expected=e)}, expected {2 * (nll[x] - plow)}")
            rec.check(close(m.chi2(x, expected=e, allow_negative_signal=True), 2 * (nll[x] - low), tol), "chi2", f"{lab} with negative signals")
            rec.check(close(m.chi2(x, poi_test_denominator=0.0, expected=e), 2 * (nll[x] - nll[0.0]), tol), "chi2-denominator", lab)
            w = np.sign(muhat - x) * math.sqrt(max(2 * (nll[x] - low), 0))
            rec.check(close(m.pull(x, expected=e), w, 1e-6), "pull", f"{lab}: {m.pull(x, expected=e)}, expected {w}")
            rec.step(5)
            # curvature of the reference at the profiled parameters
            _, p = m.likelihood(x, expected=e, return_parameters=True)
            h = -second_derivatives(lambda y: r.logpdf(y, expected=e), p)
            got = m.sigma_mu(x, expected=e)
            rec.step()
            v = None
            # no second derivative at the kink of asymmetric modifiers
            kink = any(np.any(lu != ld) and np.any(np.abs(np.asarray(p)[idx]) < 1e-2) for idx, lu, ld in r.mods)
            if not kink and np.linalg.cond(h) < 1e7:
                v = np.linalg.inv(h)[0, 0]
            if v is not None and v > 1e-3:
                rec.check(abs(got - math.sqrt(v)) <= 2e-3 * math.sqrt(v), "sigma", f"{lab}: sigma_mu {got}, curvature estimate {math.sqrt(v)}")
            else:
                rec.check(np.isfinite(got) and got > 0, "sigma", f"{lab}: sigma_mu {got} (no curvature estimate)")
            rec.state(name, e, x)
            rec.outcome(round(float(got), 6))
        w = [2 * (nll[x] - plow) for x in pts]
        rec.check(close(m.chi2(list(pts), expected=e), w, tol), "chi2-list", f"{name} {e}")
        rec.check(close(m.chi2(np.array(pts), expected=e), w, tol), "chi2-list", f"{name} {e} (array)")
        poi = m.backend.config().poi_index
        rec.check(close(m.chi2({poi: list(pts)}, expected=e), w, tol), "chi2-scan", f"{name} {e}")
        rec.check(close(m.pull(list(pts), expected=e), [np.sign(muhat - x) * math.sqrt(max(2 * (nll[x] - low), 0)) for x in pts], 1e-6), "pull-list", f"{name} {e}")
        sA, s, p, pe = m.significance(expected=e)
        q0 = 2 * (nll[0.0] - plow) if pm > 0 else 0.0
        rec.check(abs(s**2 - max(q0, 0)) <= 1e-6 * max(1, q0), "significance", f"{name} {e}: {s}, q0 {q0}")
        a_hat, a_low = m.maximize_asimov_likelihood(expected=e, test_statistics="q0")
        qA = 2 * (m.asimov_likelihood(0.0, expected=e, test_statistics="q0") - a_low)
        rec.check(abs(sA**2 - qA) <= 1e-6 * max(1, qA), "significance-asimov", f"{name} {e}: {sA}, q0 {qA}")
        rec.check(close(list(p), [cdf(-s)], 1e-7), "significance-p", f"{name} {e}: {p}, sqrt(q0) {s}")
        rec.step(5)
        rec.trace()
    rec.sample(f"{name}: chi2, pull, sigma_mu and significance")


def cases(tier):
    deep = tier == "thorough"
    ms = [-1.3, -0.2, 0.0, 0.4, 1.0, 2.7] + ([-4.0, -1e-3, 1e-3, 0.9, 3.3, 8.0] if deep else [])
    ss = [0.3, 1.0, 2.5] + ([0.05, 0.7, 6.0] if deep else [])
    pts = [-1.0, 0.0, 0.4, 0.9, 1.0, 2.0, 5.0] + ([-3.0, -0.2, 1e-3, 0.1, 1.3, 2.7, 3.0, 9.0] if deep else [])
    out = [{"t": "chi2", "m": m, "s": s, "base": b, "points": pts} for m in ms for s in ss for b in (0.0, 37.5)]
    out += [{"t": "significance", "m": m, "s": s, "mA": mA, "sA": sA} for m in ms for s in ss for mA in (0.0, 0.6, 1.0) for sA in (0.4, 1.5)]
    out += [{"t": "forward"}, {"t": "hessian"}]
    mp = [0.0, 1.0] + ([0.4, 1.7, 3.0] if deep else [])
    return out + [{"t": "model", "name": k, "points": mp} for k in zoo.catalogue()]


def weight(case):
    return {"model": 5, "hessian": 20}.get(case["t"], 1)


def run(case, rec):
    {"chi2": run_chi2, "forward": run_forward, "significance": run_significance, "hessian": run_hessian, "model": run_model}[case["t"]](case, rec)
