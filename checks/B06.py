"""B06: signal-uncertainty modifiers and the third-moment expansion against their formulae on grids."""
import itertools
import math

import numpy as np
from scipy import stats

import spey
from mc import patching, zoo
from spey.backends.default_pdf.third_moment import compute_third_moments, third_moment_expansion
from spey.backends.default_pdf.uncertainty_synthesizer import signal_uncertainty_synthesizer
from spey.backends.distributions import ConstraintModel
from spey.system.exceptions import InvalidUncertaintyDefinition

BOUNDS = {
    "quick": "6 signal vectors of 1-3 bins x all ordered lists of up to 2 of 16 modifiers (undefined entries included) x 0-2 signal parameters x default/explicit domain x 7^k nuisance values; "
             "malformed descriptions at every position; third moments: 9 variances x 13 fractions of the admissible range per bin, 1-3 bins x 5 correlations; 15 x 15 envelopes",
    "thorough": "as quick with lists of up to 3 modifiers, 19 fractions and 25 x 25 envelopes",
}
ASSUMPTIONS = ["bins without signal and one-sided negative or undefined variations are clamped to no variation (documented)", "cross-bin correlations within the documented 1e-5 regularisation"]

SIGNALS = [[2.0], [1.0, 3.0], [0.0, 2.0], [2.0, -0.5], [1.0, 2.0, 0.5], [0.0, 0.0, 5.0]]
ALPHA = [-2.0, -1.0, -0.3, 0.0, 0.4, 1.0, 3.0]


def forms(n):
    """Descriptions of the uncertainty of n bins: (type, values)."""
    base = [0.2, 0.5, 0.1, 0.3][:n]
    out = []
    for t in ("normalization", "shape"):
        out += [(t, list(base)), (t, [[x, 0.5 * x] for x in base]), (t, [[0.3 * x, 2.0 * x] for x in base]), (t, [[x, 0.0] for x in base]),
                (t, [[-x, x] for x in base]), (t, [0.0] * n), (t, [[1.5, 0.2]] + [[0.0, 0.7]] * (n - 1)), (t, [[math.nan, x] if i == 0 else [x, math.nan] for i, x in enumerate(base)])]
    return out


def deltas(signal, values):
    """Relative variations (up, down), at least one."""
    v = np.array(values, float)
    up, dn = (v, v) if v.ndim == 1 else (v[:, 0], v[:, 1])
    out = []
    for w in (up, dn):
        d = np.array([1.0 + (x / s if s != 0 else 0.0) for x, s in zip(w, signal)])
        out.append(np.where(d > 1.0, d, 1.0))  # including undefined ones
    return out


def run_mod(case, rec):
    signal = case["signal"]
    n = len(signal)
    for r in range(0, case["r"] + 1):
        for mods in itertools.permutations(forms(n), r) if r < 3 else itertools.permutations(forms(n)[::3], r):
            for nsp, start in ((0, None), (2, None), (1, 1), (0, 7)):
                named = (nsp + r) % 2 == 0
                desc = []
                for i, (t, v) in enumerate(mods):
                    d = {"type": t, "uncertainties": np.array(v) if i % 2 else v}
                    if named:
                        d["name"] = f"src{i}"
                    desc.append(d)
                sig = list(signal) if nsp else np.array(signal)
                out = signal_uncertainty_synthesizer(sig, desc, n_signal_parameters=nsp, domain_start=start)
                first = 1 + nsp + n if start is None else start
                pos, k = [], first
                for t, _ in mods:
                    m = 1 if t == "normalization" else n
                    pos.append(list(range(k, k + m)))
                    k += m
                ctx = f"signal {signal}, modifiers {mods}, {nsp} signal parameters, start {start}"
                total = k - first
                names = list(out["parameter_names"])
                want_names = []
                for i, (t, _) in enumerate(mods):
                    nm = f"theta_sig_src{i}" if named else f"theta_sig_mod{i}"
                    want_names += [nm] if t == "normalization" else [f"{nm}_{b}" for b in range(n)]
                rec.check(out["n_parameters"] == total and names == want_names, "bookkeeping", lambda: f"{ctx}: {out['n_parameters']} parameters {names}, expected {want_names}")
                dd = [deltas(signal, v) for _, v in mods]
                points = list(itertools.product(ALPHA, repeat=total)) if total <= 2 else \
                    [tuple(0.0 if j != i else a for j in range(total)) for i in range(total) for a in ALPHA] + \
                    [tuple(ALPHA[(i * st + o) % 7] for i in range(total)) for st in (1, 2, 3) for o in range(7)]
                cm = ConstraintModel(out["constraint"]) if total else None
                rec.check(total > 0 or len(out["constraint"]) == 0, "bookkeeping", f"{ctx}: constraints without parameters")
                if total:
                    rec.check(np.allclose(cm.expected_data(), 0.0) and len(np.atleast_1d(cm.expected_data())) == total, "constraint", f"{ctx}: expected auxiliary data {cm.expected_data()}")
                for a in points:
                    pars = np.array([9.0] * first + list(a) + [5.0])
                    got = np.asarray(out["lambda"](pars), float) * np.ones(n)
                    want = np.ones(n)
                    for (up, dn), idx in zip(dd, pos):
                        al = np.array([pars[i] for i in idx]) * np.ones(n)
                        want = want * np.where(al >= 0, up ** al, dn ** al)
                    rec.check(np.allclose(got, want, rtol=1e-10, atol=0), "modifier", lambda: f"{ctx} at {a}: {got}, expected {want}")
                    if total:
                        c, w = float(cm.log_prob(pars)), float(np.sum(stats.norm.logpdf(a)))
                        rec.check(abs(c - w) <= 1e-9 * max(1, abs(w)), "constraint", lambda: f"{ctx} at {a}: constraint {c}, expected {w}")
                    rec.step()
                rec.state(signal, mods, nsp, start)
                rec.trace()
                rec.outcome(total, tuple(np.round(got, 6)))


def run_bad(case, rec):
    """Malformed descriptions are rejected wherever they stand, and by the models."""
    for signal in SIGNALS:
        n = len(signal)
        good = {"type": "normalization", "uncertainties": [0.1] * n}
        bads = [{"type": "lognormal", "uncertainties": [0.1] * n}, {"uncertainties": [0.1] * n}, {"type": None, "uncertainties": [0.1] * n}, {"type": "Shape", "uncertainties": [0.1] * n}]
        for t in ("normalization", "shape"):
            bads += [{"type": t, "uncertainties": [0.1] * (n + 1)}, {"type": t, "uncertainties": [[0.1, 0.2]] * (n + 1)}, {"type": t, "uncertainties": [[[0.1, 0.2]]] * n}]
            if n > 1:
                bads += [{"type": t, "uncertainties": [0.1] * (n - 1)}, {"type": t, "uncertainties": [[0.1, 0.2]] * (n - 1)}]
            else:
                bads += [{"type": t, "uncertainties": []}]
        for bad in bads:
            for pre, post in itertools.product(range(3), range(2)):
                mods = [dict(good) for _ in range(pre)] + [bad] + [dict(good) for _ in range(post)]
                makers = {"synthesizer": lambda: signal_uncertainty_synthesizer(signal, mods)}
                if pre == 1:
                    makers["model"] = lambda: spey.get_backend("default.uncorrelated_background")(
                        signal_yields=signal, background_yields=[5.0] * n, data=[4] * n, absolute_uncertainties=[1.0] * n, modifiers=mods)
                for name, mk in makers.items():
                    try:
                        mk()
                        rec.fail("accepted", f"signal {signal}: {name} accepts {mods}")
                    except InvalidUncertaintyDefinition:
                        pass
                    except Exception as exc:  # noqa: BLE001
                        rec.fail("wrong-error", f"signal {signal}: {name} with {mods} raises {exc!r}")
                    rec.step()
                rec.state(tuple(signal), repr(bad), pre, post)
                rec.trace()


VAR = [1e-4, 0.01, 0.5, 1.0, 2.0, 37.0, 1e4, 1e6, 4e8]
FRAC = [-1.0, -0.999, -0.5, -0.1, -1e-6, 0.0, 1e-6, 0.1, 0.5, 0.9, 1.0, 1.01, -3.0]
FRAC_MORE = [-0.9, -1e-3, 1e-12, 1e-3, 0.25, 0.999999]


def frac_list(deep):
    return FRAC + (FRAC_MORE if deep else [])


def expand(mean, cov, m3):
    with patching.logs() as log, np.errstate(all="ignore"):
        out = third_moment_expansion(np.array(mean, float), np.array(cov, float), np.array(m3, float), True)
    return [np.asarray(x, float) for x in out], bool(log.records)


def admissible(v, m3):
    """1: certainly, -1: certainly not, 0: too close to tell in floating point."""
    r = m3 * m3 / (8.0 * v ** 3)
    return 1 if r < 1 - 1e-12 else -1 if r > 1 + 1e-12 else 0


def moments(A, B, C):
    """Mean, variance and third moment of A + B t + C t^2 for a standard normal t."""
    return A + C, B ** 2 + 2 * C ** 2, 6 * B ** 2 * C + 8 * C ** 3


def check_bin(rec, ctx, A, B, C, mean, v, m3):
    ok = admissible(v, m3)
    mu, var, skew = moments(A, B, C)
    sd = math.sqrt(v)
    fine = all(map(math.isfinite, (A, B, C))) and B >= 0 and abs(mu - mean) <= 1e-9 * max(1.0, abs(mean), sd) and abs(var - v) <= 1e-9 * v
    plain = C == 0 and abs(B - sd) <= 1e-9 * sd
    right = abs(skew - m3) <= 1e-7 * v ** 1.5 + (1e-5 * abs(m3) if abs(m3) < 1e-4 * v ** 1.5 else 0)
    fine = fine and (right if ok == 1 else plain if ok == -1 else plain or abs(skew - m3) <= 1e-5 * v ** 1.5)
    rec.check(fine, "moments", lambda: f"{ctx}: coefficients {(A, B, C)} have mean, variance, third moment {(mu, var, skew)}, requested {(mean, v, m3)}")
    if ok == 1 and m3:
        rec.check(C * m3 > 0 and abs(C) <= sd, "sign", lambda: f"{ctx}: C = {C} for third moment {m3}")


def run_third1(case, rec):
    for v in VAR:
        for f in frac_list(case["deep"]):
            for mean in (-1.0, 0.0, 3.0, 1e5):
                m3 = f * math.sqrt(8.0 * v ** 3)
                (A, B, C, rho), warned = expand([mean], [[v]], [m3])
                ctx = f"mean {mean}, variance {v}, third moment {m3}"
                check_bin(rec, ctx, A[0], B[0], C[0], mean, v, m3)
                tol = 10 * 1e-5 / math.sqrt(v) + 1e-9
                rec.check(abs(rho[0, 0] - 1.0) <= tol, "correlation", lambda: f"{ctx}: correlation of the bin with itself {rho[0, 0]}")
                if admissible(v, m3):
                    rec.check(warned == (admissible(v, m3) < 0), "warning", f"{ctx}: warning {warned}")
                with np.errstate(all="ignore"):
                    three = third_moment_expansion(np.array([mean]), np.array([[v]]), np.array([m3]))
                rec.check(len(three) == 3 and all(np.array_equal(x, y) for x, y in zip(three, (A, B, C))), "form", f"{ctx}: result without correlations differs")
                rec.step(2)
                rec.state(v, f, mean)
                rec.trace()
                rec.outcome(round(float(C[0]), 9))


def run_third(case, rec):
    n = case["n"]
    fr = [f for f in frac_list(case["deep"]) if abs(f) <= 1] if n == 2 else [-0.9, -0.1, 0.0, 0.5, 1.0]
    var = [0.01, 1.0, 37.0, 1e6] if n == 2 else [1.0, 37.0]
    i0 = case["i"]
    for vs in itertools.product(var, repeat=n):
        for fs in itertools.product(fr, repeat=n):
            if fr.index(fs[0]) % 4 != i0:
                continue
            for c in (0.0, 0.3, 0.9, -0.2, 0.999):
                corr = np.full((n, n), c)
                np.fill_diagonal(corr, 1.0)
                sd = np.sqrt(np.array(vs))
                cov = corr * np.outer(sd, sd)
                m3 = [f * math.sqrt(8.0 * v ** 3) for f, v in zip(fs, vs)]
                (A, B, C, rho), _ = expand([5.0] * n, cov, m3)
                ctx = f"covariance {cov.tolist()}, third moments {m3}"
                for i in range(n):
                    check_bin(rec, ctx, A[i], B[i], C[i], 5.0, vs[i], m3[i])
                rec.check(rho.shape == (n, n) and np.all(np.isfinite(rho)) and np.allclose(rho, rho.T, atol=1e-12), "correlation", lambda: f"{ctx}: correlations {rho}")
                for i, j in itertools.combinations(range(n), 2):
                    d = (B[i] * B[j]) ** 2 + 8 * C[i] * C[j] * cov[i, j]
                    slack = 8 * abs(cov[i, j]) * 1e-5 * (abs(C[i]) + abs(C[j]) + 1e-5)
                    if d > 10 * slack:  # away from where no correlation reproduces the covariance
                        back = B[i] * B[j] * rho[i, j] + 2 * C[i] * C[j] * rho[i, j] ** 2
                        tol = 10 * slack * rho[i, j] ** 2 / 4 + 1e-9 * sd[i] * sd[j] + 2e-5 * (abs(C[i]) + abs(C[j]) + 1e-5) * rho[i, j] ** 2 * 4
                        rec.check(abs(back - cov[i, j]) <= tol, "correlation", lambda: f"{ctx}: correlation {rho[i, j]} of bins {i}, {j} gives covariance {back}, requested {cov[i, j]}")
                rec.step()
                rec.state(n, vs, fs, c)
                rec.trace()
                rec.outcome(tuple(np.round(rho[0], 8)))


def run_model(case, rec):
    """Models at and beyond the admissible boundary still evaluate the documented likelihood."""
    for v, f in itertools.product([0.25, 0.5, 1.0, 2.0, 1e6], [-1.0, -0.5, 0.0, 1.0, 1.5]):
        b = 3.0 + 3 * math.sqrt(v)
        for extra in (0.0, 0.4):
            cov = [[v, extra * math.sqrt(v)], [extra * math.sqrt(v), 1.0]]
            spec = zoo.spec(zoo.TM, [1.0, 2.0], [b, 6.0], [b + 1, 5.0], covariance_matrix=cov, third_moment=[f * math.sqrt(8 * v ** 3), 0.2])
            ref = zoo.Ref(spec)
            with np.errstate(all="ignore"):
                m = zoo.build(spec)
                for p in itertools.product([0.0, 1.0], [-0.5, 0.0, 0.5], [-0.5, 0.8]):
                    if np.any(ref.lam(np.array(p)) < 0.1):
                        continue
                    want = ref.logpdf(np.array(p))
                    got = float(m.backend.get_logpdf_func()(np.array(p)))
                    rec.check(abs(got - want) <= 1e-6 * max(1, abs(want)), "model", lambda: f"{spec} at {p}: {got}, reference {want}")
                    rec.step()
            rec.state(v, f, extra)
            rec.trace()


def run_envelope(case, rec):
    """Third moment of the bifurcated Gaussian: sqrt(8/pi) (u - l)(u^2 + l^2)."""
    grid = [0.0, 1e-4, 0.01, 0.3, 0.5, 1.0, 1.5, 2.0, 7.0, 20.0, 100.0, 500.0, 1e3, 1e4, 1e5]
    if case["deep"]:
        grid += [1e-3, 0.1, 0.999, 1.001, 3.0, 50.0, 333.0, 2e3, 5e4, 1e6]
    for u in grid:
        for l in grid:
            want = math.sqrt(8 / math.pi) * (u - l) * (u * u + l * l)
            for su, sl in ((1, 1), (1, -1), (-1, -1)):
                for form in (list, np.array):
                    got = compute_third_moments(form([su * u, 1.0]), form([sl * l, 1.0]))
                    tol = 1e-7 * max(u, l) ** 3 + 1e-15
                    rec.check(len(got) == 2 and abs(got[0] - want) <= tol and abs(got[1]) < 1e-7, "envelope", lambda: f"envelope +{u} -{l}: third moments {got}, expected {[want, 0.0]}")
                    pair = compute_third_moments(form([su * u, 1.0]), form([sl * l, 1.0]), True)
                    rec.check(len(pair) == 2 and np.array_equal(pair[0], got) and np.all(np.asarray(pair[1]) >= 0), "envelope", lambda: f"envelope +{u} -{l}: {pair}")
                    rec.step(2)
            rec.state(u, l)
            rec.trace()
            rec.outcome(round(want, 9))


def cases(tier):
    deep = tier == "thorough"
    out = [{"t": "mod", "signal": s, "r": 3 if deep else 2} for s in SIGNALS]
    out += [{"t": "bad"}, {"t": "third1", "deep": deep}, {"t": "envelope", "deep": deep}, {"t": "model"}]
    out += [{"t": "third", "n": n, "i": i, "deep": deep} for n in (2, 3) for i in range(4)]
    return out


def weight(case):
    return 10 if case["t"] in ("mod", "third") else 1


def run(case, rec):
    {"mod": run_mod, "bad": run_bad, "third1": run_third1, "third": run_third, "model": run_model, "envelope": run_envelope}[case["t"]](case, rec)
