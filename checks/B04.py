"""B04: samplers of every model, with the random source replaced by one whose answers are chosen by the explorer."""
import itertools

import numpy as np
from scipy import stats

import spey
from mc import patching, refopt, zoo

BOUNDS = {
    "quick": "53 models x 4-5 parameter points x sample sizes 1-3 x with/without auxiliary data (3 ways of asking) x (9 Poisson quantiles; zero, all unit and "
             "distinct normal deviates); profiled samplers of 11 models x 3 POI values x 3 expectation types; the distributions with 7 "
             "centres of 1-4 components (zeros included) x 3 domains x constant or parameter-dependent scales x sample sizes 1-3",
    "thorough": "as quick with 27 further lattice points, sample sizes up to 6, profiled samplers of every model without signal parameters",
}
ASSUMPTIONS = ["samples are drawn from numpy's global RandomState (as scipy does); a sampler with another source is judged by the moments of a large sample instead"]

U = [0.02, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.98]


class Source(np.random.RandomState):
    """A RandomState whose deviates are scripted; matrices and scales are applied by numpy and scipy."""

    def script(self, u=None, z=None):
        self.u, self.z, self.drawn = u, z, []
        return self

    def _shape(self, size, *par):
        if size is None:
            return np.broadcast(*[np.asarray(p) for p in par]).shape if par else ()
        return tuple(np.atleast_1d(size))

    def _normals(self, shape):
        k0 = sum(d[1] for d in self.drawn if d[0] == "z")
        n = int(np.prod(shape)) if shape else 1
        self.drawn.append(("z", n))
        return np.array([self.z(k0 + k) for k in range(n)], float).reshape(shape)

    def poisson(self, lam=1.0, size=None):
        shape = self._shape(size, lam)
        k0 = sum(d[1] for d in self.drawn if d[0] == "u")
        n = int(np.prod(shape)) if shape else 1
        self.drawn.append(("u", n))
        u = np.array([self.u(k0 + k) for k in range(n)]).reshape(shape)
        return stats.poisson.ppf(u, np.broadcast_to(lam, shape)).astype(np.int64)

    def standard_normal(self, size=None):
        return self._normals(self._shape(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = self._shape(size, loc, scale)
        return np.asarray(loc) + np.asarray(scale) * self._normals(shape)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        w, v = np.linalg.eigh(cov)
        shape = self._shape(size) if size is not None else ()
        z = self._normals(tuple(shape) + (len(mean),))
        return mean + z @ (v * np.sqrt(np.clip(w, 0, None))).T


def draw(fn, u=lambda k: 0.5, z=lambda k: 0.0):
    src = Source(0).script(u, z)
    import numpy.random.mtrand as mt
    keep = {k: getattr(np.random, k) for k in ("poisson", "normal", "standard_normal", "multivariate_normal")}
    with patching.everywhere(mt, "_rand", src):
        for k in keep:
            setattr(np.random, k, getattr(src, k))
        try:
            out = fn()
        finally:
            for k, v in keep.items():
                setattr(np.random, k, v)
    return np.asarray(out), src.drawn


def points(ref, deep):
    """Interior parameter points with positive expected yields."""
    n = ref.npar - 1
    cand = [[1.0] + [0.0] * n, [0.0] + [0.0] * n, [0.5] + [0.3 - 0.25 * i for i in range(n)], [2.0] + [-0.4 + 0.3 * i for i in range(n)]]
    cand += [[ref.min_poi / 2 if np.isfinite(ref.min_poi) else -0.5] + [0.1] * n]
    if deep:
        cand += [[1.5] + list(v) for v in itertools.islice(itertools.product((-0.5, 0.0, 0.7), repeat=n), 27)]
    return [p for p in cand if np.all(ref.lam(np.array(p)) > 0.05)]


def covariance_aux(ref):
    blocks = []
    if ref.constrained:
        blocks.append(np.eye(ref.nb) if ref.pdf == "default.uncorrelated_background" else np.atleast_2d(ref.rho))
    blocks += [np.eye(len(i)) for i, _, _ in ref.mods]
    n = sum(len(b) for b in blocks)
    out = np.zeros((n, n))
    k = 0
    for b in blocks:
        out[k:k + len(b), k:k + len(b)] = b
        k += len(b)
    return out


def judge(rec, ctx, ref, p, call, size, aux, layout):
    """Everything about one sampler call: shape, law of each block and independence."""
    nb = ref.nb
    n_aux = len(covariance_aux(ref)) if aux else 0
    lam = np.clip(ref.lam(np.array(p)), 1e-20, None)
    poiss = ref.pdf not in ("default.normal", "default.multivariate_normal")
    width = nb + n_aux
    out, drawn = draw(call)
    rec.step()
    if not rec.check(out.shape == (size, width) and out.shape[1] == len(layout), "shape", f"{ctx}: shape {out.shape}, expected {(size, width)}; expected data {layout}"):
        return
    nu, nz = (sum(d[1] for d in drawn if d[0] == k) for k in "uz")
    known = nu + nz > 0
    if not known:  # another source of randomness
        rec.note("samplers judged by moments")
        big = np.asarray(call.big())
        mean = np.concatenate([lam, np.zeros(n_aux)])
        cov = np.zeros((width, width))
        cov[:nb, :nb] = np.diag(lam) if poiss else main_cov(ref, p)
        cov[nb:, nb:] = covariance_aux(ref)[:n_aux, :n_aux]
        tol = 7 / np.sqrt(len(big))
        rec.check(np.all(np.abs(big.mean(0) - mean) <= tol * np.sqrt(np.diag(cov)) + 1e-9), "law", f"{ctx}: mean {big.mean(0)}, expected {mean}")
        sd = np.sqrt(np.outer(np.diag(cov), np.diag(cov))) + 1e-12
        rec.check(np.all(np.abs(np.atleast_2d(np.cov(big.T)) - cov) <= 3 * tol * sd + 1e-9), "law", f"{ctx}: covariance {np.cov(big.T)}, expected {cov}")
        return
    # Poisson part: quantiles of the expected yields
    if poiss:
        rec.check(nu == size * nb, "draws", f"{ctx}: {nu} Poisson draws for {size} x {nb} bins")
        for u in U:
            out, _ = draw(call, u=lambda k: u)
            want = stats.poisson.ppf(u, lam)
            rec.check(np.array_equal(out[:, :nb], np.tile(want, (size, 1))), "law", lambda: f"{ctx}: yields at quantile {u}: {out[:, :nb]}, expected {want}")
            rec.check(np.all(out[:, nb:] == 0), "law", lambda: f"{ctx}: auxiliary data {out[:, nb:]} at zero deviates")
            rec.step()
        if size > 1:
            out, _ = draw(call, u=lambda k: 0.01 + 0.98 * k / max(1, size * nb - 1))
            rec.check(all(len(set(out[:, j])) > 1 for j in range(nb) if lam[j] > 3.0), "independence", lambda: f"{ctx}: rows repeat the same draw: {out}")
    # Gaussian part: affine in the deviates, so zero and the unit deviates determine its law
    off = nb if poiss else 0
    gauss = width - off
    cov = covariance_aux(ref)[:n_aux, :n_aux] if poiss else main_cov(ref, p)
    mean = np.zeros(n_aux) if poiss else lam
    if not poiss:
        rec.check(n_aux == 0, "shape", f"{ctx}: auxiliary data of a model without")
    if gauss:
        rec.check(nz == size * gauss, "draws", f"{ctx}: {nz} normal draws for {size} x {gauss} columns")
        base, _ = draw(call)
        rec.check(np.allclose(base[:, off:], np.tile(mean, (size, 1)), atol=1e-9), "law", lambda: f"{ctx}: centre {base[:, off:]}, expected {mean}")
        A = np.zeros((nz, size, gauss))
        for k in range(nz):
            out, _ = draw(call, z=lambda i: float(i == k))
            A[k] = out[:, off:] - base[:, off:]
            rec.check(np.array_equal(out[:, :off], base[:, :off]), "independence", f"{ctx}: yields depend on normal deviate {k}")
            rec.step()
        full = A.reshape(nz, size * gauss)
        got = full.T @ full
        want = np.kron(np.eye(size), cov)
        rec.check(np.allclose(got, want, rtol=1e-6, atol=1e-7 * max(1.0, np.max(np.abs(cov)))), "law", lambda: f"{ctx}: covariance of the sample {got}, expected {want}")
        k = np.linspace(-1.5, 1.5, nz + 1)
        out, _ = draw(call, z=lambda i: k[i % nz])
        rec.check(np.allclose(out[:, off:] - base[:, off:], np.tensordot(k[:nz], A, 1), atol=1e-7), "law", f"{ctx}: not affine in the normal deviates")


def main_cov(ref, p):
    s = np.asarray(ref.scale(p), float)
    return np.diag(s ** 2) if ref.pdf == "default.normal" else s


class Call:
    def __init__(self, sampler, size, how):
        self.sampler, self.size, self.how = sampler, size, how

    def __call__(self, size=None):
        s = self.size if size is None else size
        if self.how == "default":
            return self.sampler(s)
        if self.how == "keyword":
            return self.sampler(s, include_auxiliary=True)
        return self.sampler(s, include_auxiliary=False)

    def big(self):
        np.random.seed(12345)
        return self(20000)


def run_model(case, rec):
    spec = zoo.catalogue()[case["model"]]
    ref = zoo.Ref(spec)
    m = zoo.build(spec)
    has_aux = len(covariance_aux(ref)) > 0
    for p in points(ref, case["deep"]):
        for form in (np.array(p),):
            sampler = m.backend.get_sampler(form)
            for size in range(1, case["size"] + 1):
                for how in ("default", "keyword", "without"):
                    aux = how != "without" and has_aux
                    try:
                        layout = m.backend.expected_data(form, include_auxiliary=how != "without")
                    except TypeError:
                        layout = m.backend.expected_data(form)
                    ctx = f"{case['model']} at {p}, size {size}, {how}"
                    rec.check(np.allclose(np.asarray(layout, float), ref.expected_data(np.array(p), aux=aux), rtol=1e-9, atol=1e-12), "expected",
                              lambda: f"{ctx}: expected data {layout}, reference {ref.expected_data(np.array(p), aux=aux)}")
                    call = Call(sampler, size, how)
                    judge(rec, ctx, ref, p, call, size, aux, np.atleast_1d(layout))
                    rec.state(case["model"], tuple(p), size, how)
                    rec.trace()
            # every toy can be evaluated and fitted
            data, _ = draw(Call(sampler, 3, "default"), u=lambda k: 0.1 + 0.05 * (k % 10), z=lambda k: -1.0 + 0.1 * k)
            logpdf = m.backend.get_logpdf_func(data=None)
            for row in data:
                got = m.backend.get_logpdf_func(data=row)(np.array(p))
                want = ref.logpdf(np.array(p), row[: ref.nb])
                rec.check(abs(float(got) - want) <= 1e-8 * max(1, abs(want)), "row", lambda: f"{case['model']} at {p}: log density of toy {row}: {got}, reference {want}")
                rec.step()
            rec.check(np.isfinite(float(logpdf(np.array(p)))), "row", "log density not finite")
            # the sampler is for these parameters, also after another sampler of the model was used
            other = m.backend.get_sampler(np.array([0.0] + list(p[1:])))
            draw(Call(other, 2, "default"))
            again, _ = draw(Call(sampler, 2, "default"))
            first, _ = draw(Call(m.backend.get_sampler(np.array(p)), 2, "default"))
            rec.check(np.array_equal(again, first), "stale", f"{case['model']} at {p}: sampler affected by another one")
            # and the same seed gives the same data
            seq = []
            for _ in range(2):
                np.random.seed(7)
                seq.append(np.asarray(sampler(4)))
            rec.check(np.array_equal(*seq), "seed", f"{case['model']} at {p}: different data from the same seed")
        rec.outcome(case["model"], len(layout))


def run_profiled(case, rec):
    """Samplers at a fixed signal strength use the parameters which maximise the likelihood there."""
    spec = zoo.catalogue()[case["model"]]
    ref = zoo.Ref(spec)
    for expected in ("observed", "aposteriori", "apriori"):
        for poi in (0.0, 1.0, 0.5):
            m = zoo.build(spec)
            e = spey.ExpectationType[expected]
            nll, pars = refopt.reference_minimum(ref, ref.data(expected), ref.bounds(), {0: poi})
            lam = ref.lam(pars)
            if np.any(lam < 0.05):
                continue
            ctx = f"{case['model']} expected={expected} mu={poi}"
            width = ref.nb + len(covariance_aux(ref))
            for form in (poi, {0: poi}):
                sampler = m.fixed_poi_sampler(form, expected=e)
                for size in (1, 2, 3):
                    got, _ = draw(lambda: m.fixed_poi_sampler(form, size=size, expected=e))
                    rec.check(got.shape == (size, width), "profiled-shape", f"{ctx}: size {size} gives {got.shape}")
                    rec.step()
                rec.state(case["model"], expected, poi, isinstance(form, dict))
                rec.trace()
                # law of the yields at the profiled parameters
                if spec["pdf"] not in (zoo.NO, zoo.MN):
                    for u in U:
                        got, _ = draw(lambda: sampler(1), u=lambda k: u)
                        lo, hi = stats.poisson.ppf(u, lam * 0.99 - 0.01), stats.poisson.ppf(u, lam * 1.01 + 0.01)
                        rec.check(np.all(got[0, : ref.nb] >= lo) and np.all(got[0, : ref.nb] <= hi), "profiled", lambda: f"{ctx}: yields {got} at quantile {u}, expected yields {lam}")
                else:
                    got, _ = draw(lambda: sampler(1))
                    rec.check(np.allclose(got[0, : ref.nb], lam, rtol=1e-2, atol=2e-2), "profiled", lambda: f"{ctx}: centre {got}, expected {lam}")


LOCS = [[0.0, 0.0, 0.0], [0.3, 0.0, -0.5], [0.0, 1.2], [2.0, 0.0, 0.5, 0.0], [4.0], [1.5, 7.0, 0.4, 3.0], [-1.0, -1.0, -1.0]]
CORR = 0.35


def run_dist(case, rec):
    """The distributions themselves, with every combination of centres (zeros included), scales, constant and parameter-dependent forms, and domains."""
    from spey.backends.distributions import ConstraintModel, MainModel, MultivariateNormal, Normal, Poisson
    loc = np.array(case["loc"])
    n = len(loc)
    scale = 0.3 + 0.4 * np.arange(n)
    cov = np.diag(scale) @ (np.eye(n) * (1 - CORR) + CORR) @ np.diag(scale)
    pars = np.arange(1.0, n + 4.0) / 4.0
    dep = {"fixed": lambda v: 1.0, "callable": lambda v: 1.0 + float(np.sum(np.asarray(v) ** 2))}

    def gaussian(label, call, mean, want_cov):
        """call(size) is affine in the deviates with this mean and covariance."""
        for size in (1, 2, 3):
            base, drawn = draw(lambda: call(size))
            nz = sum(d[1] for d in drawn if d[0] == "z")
            rec.step()
            if nz == 0:
                np.random.seed(4321)
                base = np.asarray(call(20000))
                rec.check(np.all(np.abs(base.mean(0) - mean) < 0.05 * np.sqrt(np.diag(want_cov))) and np.allclose(np.cov(base.T), want_cov, atol=0.1 * np.max(want_cov)), "dist-law", f"{label}: moments of a large sample")
                return
            if not rec.check(base.shape == (size, n) and np.allclose(base, mean, atol=1e-12), "dist-law", lambda: f"{label}: centre {base}, expected {size} x {mean}"):
                continue
            A = np.array([draw(lambda: call(size), z=lambda i: float(i == k))[0] - base for k in range(nz)]).reshape(nz, size * n)
            want = np.kron(np.eye(size), want_cov)
            rec.check(np.allclose(A.T @ A, want, rtol=1e-9, atol=1e-10), "dist-law", lambda: f"{label}: covariance {(A.T @ A).tolist()}, expected {want.tolist()}")
            rec.state(label, tuple(loc), size)
        rec.trace()
    for dom in (slice(None, None), slice(1, None), slice(0, n)):
        x = pars[dom]
        for form, f in dep.items():
            sc = scale if form == "fixed" else (lambda v: scale * f(v))
            cv = cov if form == "fixed" else (lambda v: cov * f(v))
            gaussian(f"Normal {form} {dom}", lambda s: Normal(loc, sc, dom).sample(pars, s), loc, np.diag((scale * f(x)) ** 2))
            gaussian(f"MultivariateNormal {form} {dom}", lambda s: MultivariateNormal(loc, cv, dom).sample(pars, s), loc, cov * f(x))
            for kind, c in (("normal", sc), ("multivariate_normal", cv)):
                want = np.diag((scale * f(pars)) ** 2) if kind == "normal" else cov * f(pars)
                model = MainModel(lambda p: loc * p[0], cov=c, pdf_type=kind)
                gaussian(f"MainModel {kind} {form}", lambda s: model.sample(pars, s), loc * pars[0], want)
    half = n // 2
    if half:
        parts = [{"distribution_type": "normal", "args": [loc[:half], scale[:half]], "kwargs": {"domain": slice(0, half)}},
                 {"distribution_type": "multivariatenormal", "args": [loc[half:], cov[half:, half:]], "kwargs": {"domain": slice(half, n)}}]
        want = np.zeros((n, n))
        want[:half, :half] = np.diag(scale[:half] ** 2)
        want[half:, half:] = cov[half:, half:]
        gaussian("ConstraintModel", lambda s: ConstraintModel(parts).sample(pars, s), loc, want)
        gaussian("ConstraintModel reversed", lambda s: ConstraintModel(parts[::-1]).sample(pars, s)[:, list(range(n - half, n)) + list(range(n - half))], loc, want)
    if np.all(loc >= 0):
        lam = np.clip(loc, 1e-20, None)
        for size in (1, 2, 3):
            for u in U:
                out, _ = draw(lambda: Poisson(loc).sample(size), u=lambda k: u)
                rec.check(out.shape == (size, n) and np.array_equal(out, np.tile(stats.poisson.ppf(u, lam), (size, 1))), "dist-law", lambda: f"Poisson {loc}: {out} at quantile {u}")
                out, _ = draw(lambda: MainModel(lambda p: loc * p[0]).sample(pars, size), u=lambda k: u)
                rec.check(np.array_equal(out, np.tile(stats.poisson.ppf(u, np.clip(loc * pars[0], 1e-20, None)), (size, 1))), "dist-law", lambda: f"MainModel {loc}: {out} at quantile {u}")
                rec.step(2)
            rec.state("Poisson", tuple(loc), size)
    rec.outcome(n)


PROFILED = ["po1", "po2", "po2-u", "no2", "mn2", "ub2", "ub2-asym", "cb2", "tm2", "es2", "ub3"]


def cases(tier):
    deep = tier == "thorough"
    out = [{"t": "model", "model": n, "deep": deep, "size": 6 if deep else 3} for n in zoo.catalogue()]
    out += [{"t": "profiled", "model": n} for n in ([k for k, v in zoo.catalogue().items() if "sig" not in v] if deep else PROFILED)]
    return out + [{"t": "dist", "loc": loc} for loc in LOCS]


def weight(case):
    if case["t"] == "dist":
        return 2
    return zoo.Ref(zoo.catalogue()[case["model"]]).npar + (3 if case["t"] == "profiled" else 0)


def run(case, rec):
    {"model": run_model, "profiled": run_profiled, "dist": run_dist}[case["t"]](case, rec)
