"""K02: correlation/covariance conversions and merging of bins over all groupings of a few bins."""
import itertools
from fractions import Fraction

import numpy as np

from spey.helper_functions import correlation_to_covariance, covariance_to_correlation, merge_correlated_bins

BOUNDS = {
    "quick": "all positive-definite correlation matrices over 7 values for 1-3 bins (4 bins over 3 values) x all vectors over 6 standard deviations from 1e-8 to 1e8; "
             "all ordered lists of disjoint groups of up to 5 bins x 4 covariances x integer/float inputs x without signal/with positive/with mixed-sign signal; all lists of up to two subsets (overlapping, repeated, negative, out of range)",
    "thorough": "as quick with 4 bins over 5 correlation values, up to 6 bins, and lists of up to three subsets",
}
ASSUMPTIONS = ["groups are lists of bin numbers; an empty group is outside the property"]

RHO = [-0.9, -0.5, -0.1, 0.0, 0.3, 0.7, 0.999]
SD = [1e-8, 1e-3, 0.5, 1.0, 30.0, 1e8]


def ordered_lists(n):
    """All ordered lists of disjoint non-empty groups (in increasing order) of {0..n-1}."""
    out = set()

    def rec(left, acc):
        out.add(tuple(acc))
        for r in range(1, len(left) + 1):
            for g in itertools.combinations(left, r):
                rec(tuple(i for i in left if i not in g), acc + [g])

    rec(tuple(range(n)), [])
    return sorted(out)


def cov(n, kind):
    i = np.arange(n)
    sd = 1.0 + i * 1.5
    if kind == "diag":
        return np.diag(sd ** 2)
    if kind == "pos":
        return np.outer(sd, sd) * 0.5 ** np.abs(i[:, None] - i[None, :])
    if kind == "mixed":
        s = np.where(i % 2, -1.0, 1.0)
        return np.outer(sd * s, sd * s) * (0.3 + 0.7 * np.eye(n)) + 0.0
    return np.array([[(5 if a == b else (a + 2 * b) if a < b else (b + 2 * a)) for a in range(n)] for b in range(n)])  # integers


def run_conv(case, rec):
    n, vals = case["n"], case["vals"]
    pairs = list(itertools.combinations(range(n), 2))
    for off in itertools.product(vals, repeat=len(pairs)):
        rho = np.eye(n)
        for (i, j), v in zip(pairs, off):
            rho[i, j] = rho[j, i] = v
        if np.linalg.eigvalsh(rho)[0] <= 1e-9:
            continue
        sds = itertools.product(SD, repeat=n) if n < 4 else [tuple(np.roll(SD, k)[:n]) for k in range(len(SD))]
        for sd in sds:
            for form in ("array", "list") if off[:1] == tuple(vals[:1]) or n == 1 else ("array",):
                a, b = (rho, np.array(sd)) if form == "array" else (rho.tolist(), list(sd))
                a0, b0 = np.array(a), np.array(b)
                c = np.asarray(correlation_to_covariance(a, b))
                want = np.array([[float(Fraction(sd[i]) * Fraction(rho[i, j]) * Fraction(sd[j])) for j in range(n)] for i in range(n)])
                ctx = f"rho {off}, sd {sd}"
                rec.check(c.shape == (n, n) and np.allclose(c, want, rtol=1e-12, atol=0), "to-covariance", lambda: f"{ctx}: {c.tolist()}, expected {want.tolist()}")
                src = c if form == "array" else c.tolist()
                back = np.asarray(covariance_to_correlation(src))
                rec.check(np.allclose(back, rho, rtol=1e-12, atol=1e-300) and np.allclose(np.diag(back), 1.0, rtol=1e-12), "to-correlation", lambda: f"{ctx}: {back.tolist()}")
                again = np.asarray(correlation_to_covariance(back, np.sqrt(np.diag(c))))
                rec.check(np.allclose(again, c, rtol=1e-12, atol=0), "round-trip", lambda: f"{ctx}: {again.tolist()} / {c.tolist()}")
                rec.check(np.array_equal(a0, np.array(a)) and np.array_equal(b0, np.array(b)) and np.allclose(np.asarray(src), want, rtol=1e-12, atol=0), "inputs-changed", ctx)
                rec.step(3)
                rec.trace()
                rec.state("conv", n, off, sd)
    rec.sample(f"{n} bins over {vals}")


def expected(groups, n, b, d, c, s):
    full = [list(g) for g in groups] + [[i] for i in range(n) if not any(i in g for g in groups)]
    add = lambda v: [sum(v[i] for i in g) for g in full]
    return full, add(b), add(d), [[sum(c[i][j] for i in g for j in h) for h in full] for g in full], (add(s) if s is not None else None)


def run_merge(case, rec):
    n = case["n"]
    for groups in ordered_lists(n):
        for kind in case["kinds"]:
            c = cov(n, kind)
            for dtype in (int, float):
                b = np.array([10, 21, 33, 46, 60, 75][:n], dtype) if dtype is int else np.array([10.25, 21.5, 0.0, 46.125, 1e-3, 75.0][:n])
                d = np.array([12, 0, 31, 40, 66, 70][:n], dtype)
                for s in (None, np.array([1, 0, 3, 4, 5, 6][:n], dtype), np.array([-2, 1, 0, 3, -1, 2][:n], dtype)):
                    for ret in (False, True):
                        variants = [[list(g) for g in groups]]
                        if any(len(g) > 1 for g in groups):
                            variants.append([list(g)[::-1] for g in groups])
                        for gs in variants:
                            before = (b.copy(), d.copy(), c.copy(), None if s is None else s.copy(), [list(g) for g in gs])
                            r = merge_correlated_bins(b, d, c, gs, signal_yields=s, return_group_indices=ret)
                            full, wb, wd, wc, ws = expected(gs, n, b, d, c, s)
                            ctx = f"groups {gs}, {kind}, {dtype.__name__}, signal {s}"
                            want_keys = {"background_yields", "data", "covariance_matrix"} | ({"signal_yields"} if s is not None else set()) | ({"group_indices"} if ret else set())
                            rec.check(set(r) == want_keys, "keys", lambda: f"{ctx}: {sorted(r)}")
                            for k, w in (("background_yields", wb), ("data", wd), ("covariance_matrix", wc), ("signal_yields", ws)):
                                if w is not None:
                                    rec.check(k in r and np.shape(r[k]) == np.shape(w) and np.allclose(r[k], w, rtol=1e-12, atol=1e-12), "merged-" + k, lambda: f"{ctx}: {r.get(k)}, expected {w}")
                            if ret:
                                rec.check([sorted(map(int, g)) for g in r["group_indices"]] == [sorted(g) for g in full], "group-indices", lambda: f"{ctx}: {r['group_indices']}")
                            rec.check(np.array_equal(b, before[0]) and np.array_equal(d, before[1]) and np.array_equal(c, before[2]) and gs == before[4]
                                      and (s is None or np.array_equal(s, before[3])), "inputs-changed", ctx)
                            for k in ("background_yields", "data", "covariance_matrix"):
                                r[k] *= 0
                            rec.check(np.array_equal(b, before[0]) and np.array_equal(d, before[1]) and np.array_equal(c, before[2]), "aliased", ctx)
                            rec.step()
                            rec.trace()
                            rec.state("merge", n, groups, kind, dtype.__name__, None if s is None else tuple(s), ret)
    rec.sample(f"{len(ordered_lists(n))} groupings of {n} bins")


def run_bad(case, rec):
    n = 4
    b, d, c = np.array([10.0, 20.0, 30.0, 40.0]), np.array([12.0, 22.0, 31.0, 41.0]), cov(4, "pos")
    idx = [-1, 0, 1, 3, 4] if case["r"] < 3 else [-4, 0, 1, 3]
    subsets = [list(g) for r in (1, 2, 3) for g in itertools.product(idx, repeat=r) if r < 3 or case["r"] < 2]
    for gs in itertools.product(subsets, repeat=case["r"]):
        flat = [i for g in gs for i in g]
        legal = all(0 <= i < n for i in flat) and len(set(flat)) == len(flat)
        try:
            r = merge_correlated_bins(b, d, c, [list(g) for g in gs])
        except Exception:
            r = None
        rec.step()
        rec.state("bad", gs)
        rec.outcome(legal, r is None)
        if legal:
            rec.check(r is not None and np.isclose(np.sum(r["background_yields"]), 100.0) and np.isclose(np.sum(r["covariance_matrix"]), c.sum()), "legal-groups", lambda: f"{gs}: {r}")
        else:
            # either refused, or (numbers counted from the end) still every bin exactly once
            rec.check(r is None or (np.isclose(np.sum(r["background_yields"]), 100.0) and np.isclose(np.sum(r["data"]), d.sum())
                                    and np.isclose(np.sum(r["covariance_matrix"]), c.sum())), "invalid-groups", lambda: f"{gs} accepted: {r}")
    if case["r"] == 1:
        for b2, d2, c2, s2 in ((b[:3], d, c, None), (b, d[:3], c, None), (b, d, c[:3, :3], None), (b, d, c[:, :3], None), (b, d, c, b[:3])):
            try:
                r = merge_correlated_bins(b2, d2, c2, [[0, 1]], signal_yields=s2)
                rec.fail("lengths", f"{np.shape(b2)}, {np.shape(d2)}, {np.shape(c2)}, {np.shape(s2)} accepted: {r}")
            except Exception:
                rec.step()
        rec.trace()


def cases(tier):
    thorough = tier == "thorough"
    out = [{"k": "conv", "n": 1, "vals": RHO}, {"k": "conv", "n": 2, "vals": RHO}]
    out += [{"k": "conv", "n": 3, "vals": RHO}, {"k": "conv", "n": 4, "vals": [-0.5, 0.0, 0.7] if not thorough else [-0.5, -0.1, 0.0, 0.3, 0.7]}]
    kinds = ["diag", "pos", "mixed", "int"]
    out += [{"k": "merge", "n": n, "kinds": ks} for n in range(1, 7 if thorough else 6) for ks in ([kinds] if n < 4 else [[k] for k in kinds])]
    out += [{"k": "bad", "r": r} for r in ((1, 2, 3) if thorough else (1, 2))]
    return out


def weight(case):
    return case.get("n", 1) ** 3


def run(case, rec):
    {"conv": run_conv, "merge": run_merge, "bad": run_bad}[case["k"]](case, rec)
