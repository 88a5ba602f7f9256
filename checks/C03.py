"""C03: cached methods belong to one object (all object histories up to a depth)."""
import copy
import gc
import itertools
import weakref

import numpy as np

import spey
from spey.system.cache import cache_results

BOUNDS = {
    "quick": "all sequences of 4-5 operations (3 for StatisticalModel) over at most 3 live objects for 12 class shapes",
    "thorough": "all sequences of 6 operations (4 for StatisticalModel) over at most 3 live objects for 12 class shapes",
}
ASSUMPTIONS = ["objects that do not support weak references are excluded from the collection requirement (documented)"]


def make_classes():
    def deco(**kw):
        return cache_results(maxsize=4, **kw)

    class Base:
        def __init__(self, v):
            self.v = v

        @deco()
        def fn(self, k):
            return ["base", self.v, k]

        @deco(copy_on_return=False)
        def other(self, k):
            return ("other", self.v, k)

    class Inherit(Base):
        pass

    class Override(Base):
        @deco()
        def fn(self, k):
            return ["sub", self.v, k, super().fn(k), super().fn(k + 1)]

    class Third(Override):
        @deco(per_instance=True)
        def fn(self, k):
            return ["third", self.v, k, super().fn(k)]

    class PlainOverride(Base):
        def fn(self, k):
            return ["plain", self.v, k, super().fn(k)]

    class Slots:
        __slots__ = ("v", "__weakref__")

        def __init__(self, v):
            self.v = v

        @deco()
        def fn(self, k):
            return ["slots", self.v, k]

        @deco()
        def other(self, k):
            return ("other", self.v, k)

    class SlotsOverride(Slots):
        __slots__ = ()

        @deco()
        def fn(self, k):
            return ["slotsub", self.v, k, super().fn(k)]

    class SlotsDict(Slots):  # a subclass of a slotted class which has a __dict__ again
        @deco()
        def fn(self, k):
            return ["slotdict", self.v, k, super().fn(k)]

    class NoWeak:
        __slots__ = ("v",)

        def __init__(self, v):
            self.v = v

        @deco()
        def fn(self, k):
            return ["noweak", self.v, k]

        @deco()
        def other(self, k):
            return ("other", self.v, k)

    class EqualAll(Base):  # all instances compare equal: identity decides, not equality
        def __eq__(self, o):
            return isinstance(o, EqualAll)

        def __hash__(self):
            return 7

    class SlotsEqual(Slots):
        __slots__ = ()

        def __eq__(self, o):
            return isinstance(o, SlotsEqual)

        def __hash__(self):
            return 7

    class SlotsUnhashable(Slots):
        __slots__ = ()

        def __eq__(self, o):
            return True

    return {c.__name__: c for c in (SlotsEqual, SlotsUnhashable, Inherit, Base, Override, Third, PlainOverride, Slots, SlotsOverride, SlotsDict, NoWeak, EqualAll)}


def expect(cls, v, k):
    """What the undecorated methods return."""
    return {
        "Base": lambda: ["base", v, k],
        "Inherit": lambda: ["base", v, k],
        "EqualAll": lambda: ["base", v, k],
        "Override": lambda: ["sub", v, k, ["base", v, k], ["base", v, k + 1]],
        "Third": lambda: ["third", v, k, expect("Override", v, k)],
        "PlainOverride": lambda: ["plain", v, k, ["base", v, k]],
        "Slots": lambda: ["slots", v, k],
        "SlotsEqual": lambda: ["slots", v, k],
        "SlotsUnhashable": lambda: ["slots", v, k],
        "SlotsOverride": lambda: ["slotsub", v, k, ["slots", v, k]],
        "SlotsDict": lambda: ["slotdict", v, k, ["slots", v, k]],
        "NoWeak": lambda: ["noweak", v, k],
    }[cls]()


OPS = ["new", "call0", "call1", "cross", "copy", "deep", "del", "clear", "poison"]


def run_objects(case, rec):
    name = case["cls"]
    gc.collect()
    gc.freeze()
    for rest in itertools.product(OPS, repeat=case["depth"] - len(case["prefix"])):
        hist = tuple(case["prefix"]) + rest
        one_history(name, hist, rec)
        if len(rec.failures) > 10:
            break
    gc.unfreeze()


_CLASSES = make_classes()


def one_history(name, hist, rec):
    cls = _CLASSES[name]
    objs, nextv = [], [0]

    def fresh():
        nextv[0] += 1
        return nextv[0]

    # an object that never gets touched in between and an always-live instance of a relative
    def do_call(o, k, where):
        got = o.fn(k)
        want = expect(name, o.v, k)
        rec.check(got == want, "wrong-object", f"{name} {hist}: {where}: object {o.v} returned {got}, expected {want}")
        got[0] = "poison"
        oth = o.other(k)
        rec.check(oth == ("other", o.v, k), "wrong-object", f"{name} {hist}: {where}: other gave {oth}")

    objs.append(cls(fresh()))
    for i, op in enumerate(hist):
        rec.step()
        if op == "new":
            if len(objs) < 3:
                objs.append(cls(fresh()))
        elif op in ("call0", "call1"):
            if objs:
                do_call(objs[-1], int(op[-1]), op)
        elif op == "cross":
            for o in objs:
                do_call(o, 0, op)
            o = None
        elif op in ("copy", "deep"):
            if objs and len(objs) < 3:
                c = (copy.copy if op == "copy" else copy.deepcopy)(objs[-1])
                c.v = fresh()
                objs.append(c)
                del c
        elif op == "clear":
            if objs:
                f = objs[0].fn
                if hasattr(f, "cache_clear"):
                    f.cache_clear()
                del f
        elif op == "poison":
            for o in objs:
                o.fn(0).clear()
            o = None
        elif op == "del":
            if objs:
                o = objs.pop(0)
                try:
                    ref = weakref.ref(o)
                except TypeError:
                    ref = None
                del o
                if ref is not None:
                    if ref() is not None:
                        gc.collect()
                    rec.check(ref() is None, "leak", f"{name} {hist}: object still alive after deletion")
    for o in objs:
        do_call(o, 0, "end")
        do_call(o, 1, "end")
    # the class itself still gives the plain function
    if objs:
        got = cls.fn(objs[0], 5)
        rec.check(got == expect(name, objs[0].v, 5), "class-access", f"{name}: {got}")
    rec.state(name, hist)
    rec.outcome(name, tuple(o.v for o in objs))
    rec.trace()


# ------------------------------------------------------------------ the statistical models
def build(i):
    sig = [[3.0], [5.0], [2.0], [4.0]][i % 4]
    return spey.get_backend("default.poisson")(
        signal_yields=sig, background_yields=[4.0 + i], data=[6 + 2 * i], analysis=f"m{i}"
    )


def probe(m):
    return [
        float(m.maximize_likelihood()[0]),
        float(m.maximize_likelihood(expected="apriori")[1]),
        [float(x) for x in m.generate_asimov_data(test_statistic="q0")],
        float(m.maximize_asimov_likelihood(test_statistics="q0")[1]),
    ]


_WANT = {}


def want(i):
    if i not in _WANT:
        _WANT[i] = probe(build(i))
    return _WANT[i]


MOPS = ["new", "query", "copy", "deep", "del", "swap", "queryall"]


def run_models(case, rec):
    gc.collect()
    gc.freeze()
    for rest in itertools.product(MOPS, repeat=case["depth"] - len(case["prefix"])):
        hist = tuple(case["prefix"]) + rest
        models = [(0, build(0))]
        n = 1
        for op in hist:
            rec.step()
            if op == "new" and len(models) < 3:
                models.append((n, build(n)))
                n += 1
            elif op == "query" and models:
                i, m = models[-1]
                rec.check(np.allclose(np.hstack(probe(m)), np.hstack(want(i)), rtol=1e-9, atol=1e-12), "wrong-object",
                          f"{hist}: model {i} answered {probe(m)}, fresh model {want(i)}")
            elif op == "queryall":
                for i, m in models:
                    rec.check(np.allclose(np.hstack(probe(m)), np.hstack(want(i)), rtol=1e-9, atol=1e-12), "wrong-object",
                              f"{hist}: model {i} answered {probe(m)}, fresh model {want(i)}")
            elif op in ("copy", "deep") and models and len(models) < 3:
                i, m = models[-1]
                c = (copy.copy if op == "copy" else copy.deepcopy)(m)
                models.append((i, c))
            elif op == "swap" and models:
                # a copy that gets the backend of another model is another model
                i, m = models.pop()
                j = (i + 1) % 4
                c = copy.copy(m)
                c._backend = build(j).backend
                models.append((j, c))
                del m, c
            elif op == "del" and models:
                i, m = models.pop(0)
                c = None
                ref, bref = weakref.ref(m), weakref.ref(m.backend)
                shared = any(o.backend is m.backend for _, o in models)
                del m
                gc.collect()
                rec.check(ref() is None, "leak", f"{hist}: model {i} still alive after deletion")
                rec.check(shared or "deep" in hist or bref() is None, "leak", f"{hist}: backend of model {i} still alive")
        for i, m in models:
            got = probe(m)
            rec.check(np.allclose(np.hstack(got), np.hstack(want(i)), rtol=1e-9, atol=1e-12), "wrong-object",
                      f"{hist}: at the end model {i} answered {got}, fresh model {want(i)}")
        rec.state("model", hist)
        rec.trace()
        if len(rec.failures) > 10:
            break
    gc.unfreeze()
    rec.sample(f"StatisticalModel history prefix {case['prefix']} depth {case['depth']}")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name in _CLASSES:
        for p in OPS:
            out.append({"t": "objects", "cls": name, "prefix": [p], "depth": 6 if deep else (5 if name in ("Override", "Slots") else 4)})
    for p in itertools.product(MOPS, repeat=2 if deep else 1):
        out.append({"t": "models", "prefix": list(p), "depth": 4 if deep else 3})
    return out


def run(case, rec):
    (run_objects if case["t"] == "objects" else run_models)(case, rec)
