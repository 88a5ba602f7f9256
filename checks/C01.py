"""C01: the result cache is transparent and bounded (sequential histories, argument pairs)."""
import collections
import enum
import itertools

import numpy as np

from spey.system.cache import cache_results

BOUNDS = {
    "quick": "all operation sequences of length 5 (plain) / 4 (methods, slots) over 9 operations, deduplicated search to length 9, "
             "all ordered pairs of 60 argument values and of 20 call forms",
    "thorough": "all operation sequences of length 6 (plain) / 5 (methods, slots), deduplicated search to length 12, "
                "all ordered pairs and triples of argument values, all pairs of call forms",
}
ASSUMPTIONS = [
    "arguments equal under == but of different type (1, True, 1.0; list and tuple; array and list) may or may not share a result",
]

# ------------------------------------------------------------------ part 1: histories
OPS = ["c0", "c1", "c2", "c3", "f0", "f1", "m0", "x", "g"]
KINDS = ["plain", "method", "slots"]


class Boom(Exception):
    pass


class Subject:
    """One decorated callable together with the count of its computations."""

    def __init__(self, kind, maxsize, copy):
        self.count = collections.Counter()
        self.fail = False
        me = self

        def body(x):
            me.count[x] += 1
            if me.fail:
                raise Boom(x)
            return [x, [x * 10]]

        if kind == "plain":
            @cache_results(maxsize=maxsize, copy_on_return=copy)
            def fn(x):
                return body(x)
            self.fn = fn
        elif kind == "method":
            class Owner:
                @cache_results(maxsize=maxsize, copy_on_return=copy)
                def fn(self, x):
                    return body(x)
            self.owner = Owner()
        else:
            class Owner:  # noqa: F811
                __slots__ = ("__weakref__",)

                @cache_results(maxsize=maxsize, copy_on_return=copy, per_instance=True)
                def fn(self, x):
                    return body(x)
            self.owner = Owner()
        self.kind = kind

    def get(self):
        return self.fn if self.kind == "plain" else self.owner.fn


class Model:
    """First-in first-out store of the last maxsize computed keys."""

    def __init__(self, maxsize):
        self.maxsize = maxsize
        self.store = collections.OrderedDict()
        self.count = collections.Counter()

    def call(self, k, fail):
        if k in self.store:
            return "ok"
        self.count[k] += 1
        if fail:
            return "boom"
        self.store[k] = True
        if self.maxsize is not None:
            while len(self.store) > self.maxsize:
                self.store.popitem(last=False)
        return "ok"


def apply(subj, model, op, copy, rec, hist):
    k = int(op[1]) if len(op) > 1 else None
    if op == "x":
        subj.get().cache_clear()
        model.store.clear()
    elif op == "g":
        snap = subj.get().get_cache()
        if copy:
            for v in snap.values():
                if isinstance(v, list):
                    v.append("poison")
    else:
        subj.fail = op[0] == "f"
        want = model.call(k, subj.fail)
        try:
            got = subj.get()(k)
            out = "ok"
        except Boom as exc:
            out = "boom"
            rec.check(exc.args == (k,), "wrong-exception", f"{hist}: {exc!r} for key {k}")
        subj.fail = False
        if not rec.check(out == want, "outcome", f"{hist}: call {op} gave {out}, reference {want}"):
            return
        if out == "ok":
            rec.check(got == [k, [k * 10]], "wrong-value", f"{hist}: fn({k}) returned {got}")
            if op[0] == "m" and copy:
                got[1].append("poison")
                got.append("poison")
    rec.check(
        subj.count == model.count, "computations",
        f"{hist}: computations {dict(subj.count)}, reference {dict(model.count)}",
    )
    info = subj.get().cache_info()
    rec.check(
        info["size"] == len(model.store) and info["maxsize"] == model.maxsize, "size",
        f"{hist}: cache_info {info}, reference size {len(model.store)} maxsize {model.maxsize}",
    )


def run_history(kind, maxsize, copy, hist, rec):
    subj, model = Subject(kind, maxsize, copy), Model(maxsize)
    for i, op in enumerate(hist):
        apply(subj, model, op, copy, rec, (kind, maxsize, copy, hist[: i + 1]))
        rec.step()
    rec.trace()
    rec.outcome(tuple(sorted(subj.count.items())))
    return model


def histories(case, rec):
    kind, maxsize, copy = case["kind"], case["maxsize"], case["copy"]
    first = tuple(case["prefix"])
    for rest in itertools.product(OPS, repeat=case["depth"] - len(first)):
        m = run_history(kind, maxsize, copy, first + rest, rec)
        rec.state("h", kind, maxsize, copy, tuple(m.store), tuple(sorted(m.count.items())))
        if len(rec.failures) > 20:
            return
    rec.sample(f"{kind} maxsize={maxsize} copy={copy}: {'.'.join(first + rest)}")


def search(case, rec):
    """Breadth-first over reference states; each state is entered by replaying its history."""
    kind, maxsize, copy = case["kind"], case["maxsize"], case["copy"]
    seen, frontier = {((), ())}, collections.deque([()])
    while frontier:
        hist = frontier.popleft()
        for op in OPS:
            nxt = hist + (op,)
            m = run_history(kind, maxsize, copy, nxt, rec)
            # the reference's future depends on its store only; the last operation is kept so that
            # states reached through a failure, a hit or a clearing are expanded separately
            key = (tuple(m.store), nxt[-2:])
            if key not in seen and len(nxt) < case["depth"]:
                seen.add(key)
                rec.state("s", kind, maxsize, copy, key)
                frontier.append(nxt)
        if len(rec.failures) > 20:
            return


# ------------------------------------------------------------------ part 2: argument values
class Colour(enum.Enum):
    RED = 1
    BLUE = 2


class Unhashable:
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.v == other.v

    def __repr__(self):
        return f"Unhashable({self.v})"


def make_values():
    """name -> (factory of a fresh object, content class, relaxed class)

    Same content class: the second call must be a hit.  Different relaxed class: it must not be.
    """
    A = np.array
    big = np.zeros(3000)
    big2 = big.copy()
    big2[1500] = 1.0
    big3 = big.copy()
    big3[-1] = 1e-300
    base = np.arange(6.0)
    V = {}

    def add(name, factory, content, relaxed=None):
        V[name] = (factory, content, relaxed if relaxed is not None else content)

    add("int1", lambda: 1, "i1", "one")
    add("true", lambda: True, "t1", "one")
    add("float1", lambda: 1.0, "f1", "one")
    add("npfloat1", lambda: np.float64(1.0), "nf1", "one")
    add("npint1", lambda: np.int64(1), "ni1", "one")
    add("int2", lambda: 2, "i2")
    add("int-1", lambda: -1, "i-1")
    add("int-2", lambda: -2, "i-2")  # hash(-1) == hash(-2)
    add("zero", lambda: 0, "i0", "zero")
    add("false", lambda: False, "f0", "zero")
    add("negzero", lambda: -0.0, "nz", "zero")
    add("str1", lambda: "1", "s1")
    add("bytes1", lambda: b"1", "b1")
    add("none", lambda: None, "none")
    add("strnone", lambda: "None", "snone")
    add("empty-str", lambda: "", "es")
    add("big-int", lambda: 2**61 - 1, "bi")  # hash 0
    add("red", lambda: Colour.RED, "red")
    add("blue", lambda: Colour.BLUE, "blue")
    add("list12", lambda: [1, 2], "l12", "seq12")
    add("tuple12", lambda: (1, 2), "t12", "seq12")
    add("list21", lambda: [2, 1], "l21")
    add("list1", lambda: [1], "l1", "seq1")
    add("listlist1", lambda: [[1]], "ll1", "seqseq1")
    add("list[1],2", lambda: [[1], 2], "l[1]2")
    add("list[1,2]", lambda: [[1, 2]], "l[12]")
    add("list1[2]", lambda: [1, [2]], "l1[2]")
    add("list[]", lambda: [], "l[]", "empty-seq")
    add("tuple()", lambda: (), "t()", "empty-seq")
    add("list[[]]", lambda: [[]], "l[[]]")
    add("listNone", lambda: [None], "lN")
    add("list-s12", lambda: ["1", "2"], "ls12")
    add("list-floats", lambda: [0.1, 0.2], "lf")
    add("list-floats'", lambda: [0.1, 0.2 + 1e-15], "lf'")
    add("a12", lambda: A([1, 2]), "a12i", "a12i")
    add("a12f", lambda: A([1.0, 2.0]), "a12f")
    add("a12f4", lambda: A([1.0, 2.0], dtype=np.float32), "a12f4")
    add("a12be", lambda: A([1, 2], dtype=">i8"), "a12be")
    add("a21", lambda: A([2, 1]), "a21")
    add("a2d", lambda: A([[1, 2]]), "a2d")
    add("a2dT", lambda: A([[1], [2]]), "a2dT")
    add("a-empty", lambda: A([]), "ae")
    add("a-empty2", lambda: np.zeros((0, 2)), "ae2")
    add("a0d", lambda: A(5), "a0d")
    add("a1d5", lambda: A([5]), "a1d5")
    add("a-bool", lambda: A([True, False]), "ab")
    add("a-uint8", lambda: A([1, 0], dtype=np.uint8), "au8")
    add("a-strided", lambda: base[::2].copy(), "a024")
    add("a-strided-view", lambda: np.arange(6.0)[::2], "a024")
    add("a-reversed", lambda: np.arange(3.0)[::-1], "a210")
    add("a-reversed-copy", lambda: np.array([2.0, 1.0, 0.0]), "a210")
    add("a-fortran", lambda: np.asfortranarray(np.arange(4.0).reshape(2, 2)), "a0123")
    add("a-c", lambda: np.arange(4.0).reshape(2, 2), "a0123")
    add("a-transposed", lambda: np.arange(4.0).reshape(2, 2).T, "a0213")
    add("a-flat", lambda: np.arange(4.0), "aflat")
    add("a-big", lambda: big.copy(), "big")
    add("a-big2", lambda: big2.copy(), "big2")
    add("a-big3", lambda: big3.copy(), "big3")
    add("a-obj", lambda: A([{"q": 1}, None], dtype=object), "ao1")
    add("a-obj2", lambda: A([{"q": 2}, None], dtype=object), "ao2")
    add("a-str", lambda: A(["x", "y"]), "as")
    add("dict", lambda: {"a": 1, "b": 2}, "dab")
    add("dict-order", lambda: {"b": 2, "a": 1}, "dab")
    add("dict-swap", lambda: {"a": 2, "b": 1}, "dba")
    add("dict-sub", lambda: {"a": 1}, "da")
    add("dict-pairs", lambda: [("a", 1)], "pairs")
    add("dict-empty", lambda: {}, "d{}")
    add("dict-mixed", lambda: {0: 1, "a": 2}, "dm")
    add("dict-mixed-order", lambda: {"a": 2, 0: 1}, "dm")
    add("dict-mixed-values", lambda: {"a": None, "b": [1]}, "dmv")
    add("dict-array", lambda: {"a": A([1.0, 2.0])}, "darr")
    add("dict-array2", lambda: {"a": A([1.0, 3.0])}, "darr2")
    add("dict-nested", lambda: {"a": {"b": 1}}, "dn")
    add("dict-nested2", lambda: {"a": {"b": 2}}, "dn2")
    add("dict-tuple-key", lambda: {(1, 2): 1}, "dtk")
    add("set", lambda: {1, 2}, "set", "set12")
    add("frozenset", lambda: frozenset({2, 1}), "fset", "set12")
    add("set3", lambda: {1, 2, 3}, "set3")
    add("unhashable1", lambda: Unhashable(1), "u1")
    add("unhashable2", lambda: Unhashable(2), "u2")
    add("list-of-arrays", lambda: [A([1.0]), A([2.0])], "loa")
    add("list-of-arrays2", lambda: [A([1.0, 2.0]), A([])], "loa2")
    add("list-of-dicts", lambda: [{"a": 1}, {"b": 2}], "lod")
    add("bounds", lambda: [(0.0, 1.0), (None, 2.0)], "bnd")
    add("bounds2", lambda: [(0.0, 1.0), (2.0, None)], "bnd2")
    return V


VALUES = make_values()


def describe(x):
    """What a function sees of its argument (types of containers ignored where == ignores them)."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, describe(x.tolist()))
    if isinstance(x, dict):
        return ("dict", sorted(((repr(k), describe(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return ("seq", [describe(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, (bool, int, float, np.number)):
        return ("number", float(x) if x == x else "nan", 1 if x == 0 else 0)
    return (type(x).__name__, repr(x))


def value_subject(kind):
    calls = []

    def body(x):
        calls.append(describe(x))
        return calls[-1]

    if kind == "plain":
        fn = cache_results(maxsize=None)(lambda x=None: body(x))
        return (lambda *a, **k: fn(*a, **k)), calls
    if kind == "kwargs":
        fn = cache_results(maxsize=None)(lambda **kw: body(kw["x"]))
        return (lambda x: fn(x=x)), calls
    if kind == "varargs":
        fn = cache_results(maxsize=None)(lambda *a: body(a[0]))
        return (lambda x: fn(x)), calls

    class Owner:
        @cache_results(maxsize=8)
        def fn(self, x):
            return body(x)
    o = Owner()
    return (lambda *a, **k: o.fn(*a, **k)), calls


def pairs(case, rec):
    names = list(VALUES)
    a = case["first"]
    fa, ca, ra = VALUES[a]
    for kind in ("plain", "kwargs", "varargs", "method"):
        for b in names:
            fb, cb, rb = VALUES[b]
            fn, calls = value_subject(kind)
            xa, xb = fa(), fb()
            r1 = fn(xa)
            rec.check(r1 == describe(xa) and len(calls) == 1, "wrong-value", f"{kind}: first call with {a}")
            r2 = fn(xb)
            n2 = len(calls)
            rec.step(3)
            rec.trace()
            rec.state("v", kind, a, b)
            rec.outcome(a, b, n2)
            if ca == cb:
                rec.check(n2 == 1, "computed-again", f"{kind}: {b} after equal {a} was computed again")
            elif ra != rb:
                rec.check(
                    n2 == 2, "shared-result", f"{kind}: {b} was answered with the result of {a}: {r2}"
                )
            if ra != rb or ca == cb:
                rec.check(r2 == describe(xb), "wrong-value", f"{kind}: {b} after {a} returned {r2}")
            # and the first argument is still answered by its own result
            r3 = fn(fa())
            if ra != rb or ca == cb:
                rec.check(r3 == describe(fa()), "wrong-value", f"{kind}: {a} after {a},{b} returned {r3}")
            rec.check(len(calls) == n2, "computed-again", f"{kind}: {a} again after {a}, {b}")
    rec.sample(f"f({a}) then f(x) for {len(names)} values of x")


def triples(case, rec):
    """All remembered at once: with every value stored, each one is still answered correctly."""
    names = list(VALUES)
    rot = case["rot"]
    names = names[rot:] + names[:rot]
    fn, calls = value_subject("plain")
    for n in names:
        fn(VALUES[n][0]())
    before = len(calls)
    classes = {}
    for n in names:
        got = fn(VALUES[n][0]())
        rec.step(2)
        if len({VALUES[m][1] for m in names if VALUES[m][2] == VALUES[n][2]}) == 1:
            rec.check(got == describe(VALUES[n][0]()), "wrong-value", f"{n} returned {got}")
        classes[n] = got
    rec.check(len(calls) == before, "computed-again", "unlimited cache forgot an entry")
    rec.trace()
    rec.state("t", rot)


# ------------------------------------------------------------------ part 3: call forms
def forms():
    """(args, kwargs, canonical form) of calls to f(a, b=2, *rest, c=3, **kw)"""
    out = []
    for args, kw in [
        ((1,), {}), ((1, 2), {}), ((), {"a": 1}), ((), {"b": 2, "a": 1}), ((1,), {"b": 2}), ((1,), {"c": 3}),
        ((1, 2), {"c": 3}), ((), {"a": 1, "b": 2, "c": 3}), ((), {"c": 3, "b": 2, "a": 1}),
        ((2, 1), {}), ((2,), {"b": 1}), ((1, 3), {}), ((1,), {"b": 3}), ((1,), {"c": 2}), ((1, 2, 3), {}),
        ((1, 2, 3), {"c": 3}), ((1, 2, 3, 4), {}), ((1, 2), {"d": 3}), ((1,), {"d": 3}), ((1,), {"e": 3}),
        ((1,), {"d": 3, "e": 4}), ((1,), {"e": 4, "d": 3}), ((1,), {"d": 4, "e": 3}),
        ((1, 2), {"kw": {"d": 3}}), ((1,), {"rest": (3,)}), (([1, 2],), {}), ((1, None), {}), ((None,), {}),
    ]:
        b = args[1] if len(args) > 1 else kw.get("b", 2)
        a = args[0] if args else kw["a"]
        canon = (repr(a), repr(b), repr(args[2:]), repr(kw.get("c", 3)),
                 repr(sorted((k, v) for k, v in kw.items() if k not in "abc")))
        out.append((args, kw, canon))
    return out


def call_forms(case, rec):
    fs = forms()
    i = case["first"]
    for kind in ("plain", "method", "slots"):
        for j in range(len(fs)):
            calls = []

            def body(a, b, rest, c, kw):
                calls.append(1)
                return (repr(a), repr(b), repr(rest), repr(c), repr(sorted(kw.items())))

            if kind == "plain":
                @cache_results
                def fn(a, b=2, *rest, c=3, **kw):
                    return body(a, b, rest, c, kw)
            else:
                class O:
                    __slots__ = ("__weakref__",) if kind == "slots" else ("__dict__", "__weakref__")

                    @cache_results
                    def fn(self, a, b=2, *rest, c=3, **kw):
                        return body(a, b, rest, c, kw)
                obj = O()
                fn = obj.fn
            (a1, k1, c1), (a2, k2, c2) = fs[i], fs[j]
            rec.check(fn(*a1, **k1) == c1, "wrong-value", f"{kind}: {a1} {k1}")
            got = fn(*a2, **k2)
            rec.check(got == c2, "wrong-value", f"{kind}: {a2} {k2} after {a1} {k1} returned {got}")
            rec.check(
                len(calls) == (1 if c1 == c2 else 2), "computations",
                f"{kind}: {a2} {k2} after {a1} {k1}: {len(calls)} computations",
            )
            # an invalid call raises like the plain function and leaves no trace
            for bad in (((), {}), ((1,), {"a": 2})):
                try:
                    fn(*bad[0], **bad[1])
                    rec.fail("invalid-call", f"{kind}: {bad} accepted")
                except TypeError:
                    pass
            n = len(calls)
            rec.check(fn(*a1, **k1) == c1 and len(calls) == n, "computations", f"{kind}: {a1} {k1} forgotten")
            rec.step(5)
            rec.trace()
            rec.state("f", kind, i, j)


# ------------------------------------------------------------------ part 4: default size
def defaults(case, rec):
    """Without a size, the last 128 results are remembered, whichever way the decorator is written."""
    form, n = case["form"], case["n"]
    count = collections.Counter()

    def body(x):
        count[x] += 1
        return [x]
    if form == "bare":
        @cache_results
        def fn(x):
            return body(x)
    elif form == "called":
        @cache_results()
        def fn(x):
            return body(x)
    elif form == "copy":
        @cache_results(copy_on_return=False)
        def fn(x):
            return body(x)
    else:
        class Owner:
            if form == "method":
                @cache_results
                def fn(self, x):
                    return body(x)
            else:
                __slots__ = ("__weakref__",)

                @cache_results(per_instance=True)
                def fn(self, x):
                    return body(x)
        owner = Owner()
        fn = owner.fn
    for x in range(n):
        rec.check(fn(x) == [x], "wrong-value", f"{form}: call {x}")
        rec.check(len(fn.get_cache()) == min(x + 1, 128), "size", f"{form}: {len(fn.get_cache())} results after {x + 1} calls")
        rec.step()
    info = fn.cache_info()
    rec.check(info["maxsize"] == 128 and info["size"] == min(n, 128), "size", f"{form}: {info} after {n} different calls")
    for x in range(max(0, n - 128), n):
        rec.check(fn(x) == [x] and count[x] == 1, "computed-again", f"{form}: {x} of {n} was forgotten")
    if n > 128:
        fn(n - 129)
        rec.check(count[n - 129] == 2, "size", f"{form}: {n - 129} of {n} is still remembered")
    rec.state("d", form, n)
    rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in KINDS:
        for maxsize in (1, 2, 3, None):
            for copy in (True, False):
                depth = (6 if kind == "plain" else 5) if deep else (5 if kind == "plain" else 4)
                for p in itertools.product(OPS, repeat=2 if deep else 1):
                    out.append({"t": "histories", "kind": kind, "maxsize": maxsize, "copy": copy,
                                "depth": depth, "prefix": list(p)})
                out.append({"t": "search", "kind": kind, "maxsize": maxsize, "copy": copy,
                            "depth": 12 if deep else 9})
    for a in VALUES:
        out.append({"t": "pairs", "first": a})
    for r in range(len(VALUES)):
        out.append({"t": "triples", "rot": r})
    for i in range(len(forms())):
        out.append({"t": "call_forms", "first": i})
    for form in ("bare", "called", "copy", "method", "slots"):
        for n in (1, 127, 128, 129, 200, 300):
            out.append({"t": "defaults", "form": form, "n": n})
    return out


def run(case, rec):
    {"histories": histories, "search": search, "pairs": pairs, "triples": triples,
     "call_forms": call_forms, "defaults": defaults}[case["t"]](case, rec)
