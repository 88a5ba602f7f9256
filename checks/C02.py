"""C02: the result cache under every interleaving up to a preemption bound (real code, controlled scheduler)."""
import gc
import os

from mc import sched
from mc.core import SRC

from spey.system.cache import cache_results

BOUNDS = {
    "quick": "line-level points: 2 preemptions for two threads, 1 for three; points at synchronisation operations only: 3 and 2",
    "thorough": "line-level points: 3 preemptions for two threads with one operation, 2 otherwise; points at synchronisation operations only: 4 and 3; bytecode-level points: 1 preemption",
}
ASSUMPTIONS = [
    "scheduling points are the source lines (bytecodes in the thorough tier) of spey/system and all lock and event operations; "
    "code of the standard library and of the decorated function runs atomically between them",
    "sequentially consistent memory (CPython with the global interpreter lock)",
]
CASE_TIMEOUT = 800
TRACED = os.path.join(os.path.abspath(SRC), "spey", "system") + os.sep


def traced(filename):
    return filename.startswith(TRACED)


class Boom(Exception):
    pass


class World:
    """The decorated callable, and the log of what happened (totally ordered: one thread runs at a time)."""

    def __init__(self, kind, maxsize, failing=(), nested=False, copy=True):
        self.log = []          # (event, thread, ...)
        self.ncomp = {}        # (instance, key) -> number of computations
        self.failing = dict(failing)   # key -> set of failing computation numbers
        self.nested = nested
        self.maxsize = maxsize
        self.points = {}
        self.kind = kind
        me = self

        def body(inst, k):
            point = me.points[sched._me()[1]] if sched._me() else (lambda: None)
            t = sched._me()[1] if sched._me() else -1
            n = me.ncomp[(inst, k)] = me.ncomp.get((inst, k), 0) + 1
            me.log.append(("begin", t, inst, k, n))
            point()
            try:
                if me.nested and k > 0:
                    sub = me.fn(inst)(k - 1)
                    assert sub[:2] == [inst, k - 1], sub
                if n in me.failing.get(k, ()):
                    raise Boom(inst, k, n)
                return [inst, k, n]
            finally:
                me.log.append(("end", t, inst, k, n))

        if kind == "plain":
            @cache_results(maxsize=maxsize, copy_on_return=copy)
            def fn(k):
                return body(0, k)
            self._fn = fn
        else:
            class Owner:
                __slots__ = ("__weakref__", "name") if kind == "slots" else ("__dict__", "__weakref__")

                @cache_results(maxsize=maxsize, copy_on_return=copy)
                def fn(self, k):
                    return body(self.name, k)
            self.owners = []
            for i in range(2):
                o = Owner()
                o.name = i
                self.owners.append(o)

    def fn(self, inst):
        return self._fn if self.kind == "plain" else self.owners[inst].fn

    def thread(self, ops):
        def run(point):
            t = sched._me()[1]
            self.points[t] = point
            for op in ops:
                kind, inst, k = op
                if kind == "clear":
                    self.log.append(("clear-begin", t, inst))
                    self.fn(inst).cache_clear()
                    self.log.append(("clear-end", t, inst))
                    continue
                if kind == "info":
                    info = self.fn(inst).cache_info()
                    self.log.append(("info", t, inst, info["size"]))
                    continue
                self.log.append(("call", t, inst, k))
                try:
                    r = self.fn(inst)(k)
                    self.log.append(("return", t, inst, k, list(r)))
                    r.append("poison")
                except Boom as exc:
                    self.log.append(("raise", t, inst, k, exc.args))
        return run


C = lambda k, i=0: ("call", i, k)  # noqa: E731
X = lambda i=0: ("clear", i, None)  # noqa: E731
I = lambda i=0: ("info", i, None)  # noqa: E731,E741

# name -> (world arguments, threads, quick bound, thorough bound)
HARNESSES = {
    "same-key": (dict(maxsize=None), [[C(0)], [C(0)]], 2, 3),
    "same-key-max1": (dict(maxsize=1), [[C(0)], [C(0)]], 2, 3),
    "two-keys-max1": (dict(maxsize=1), [[C(0)], [C(1)]], 2, 3),
    "two-keys-max1-again": (dict(maxsize=1), [[C(0), C(1)], [C(1)]], 2, 2),
    "crossed-keys-max1": (dict(maxsize=1), [[C(0), C(1)], [C(1), C(0)]], 1, 2),
    "crossed-keys": (dict(maxsize=2), [[C(0), C(1)], [C(1), C(0)]], 1, 2),
    "repeat": (dict(maxsize=None), [[C(0), C(0)], [C(0)]], 2, 2),
    "fail-first": (dict(maxsize=None, failing={0: {1}}), [[C(0)], [C(0)]], 2, 3),
    "fail-always": (dict(maxsize=None, failing={0: {1, 2, 3}}), [[C(0)], [C(0)]], 2, 2),
    "fail-other": (dict(maxsize=1, failing={0: {1}}), [[C(0)], [C(1), C(0)]], 2, 2),
    "clear": (dict(maxsize=None), [[C(0)], [X()]], 2, 3),
    "clear-call": (dict(maxsize=None), [[C(0)], [X(), C(0)]], 2, 2),
    "clear-two": (dict(maxsize=2), [[C(0)], [C(0), X()]], 2, 2),
    "clear-fail": (dict(maxsize=None, failing={0: {1}}), [[C(0)], [X(), C(0)]], 2, 2),
    "nested": (dict(maxsize=None, nested=True), [[C(1)], [C(0)]], 2, 2),
    "nested-max1": (dict(maxsize=1, nested=True), [[C(1)], [C(0)]], 2, 2),
    "three-same": (dict(maxsize=None), [[C(0)], [C(0)], [C(0)]], 1, 2),
    "three-clear": (dict(maxsize=None), [[C(0)], [C(0)], [X()]], 1, 2),
    "three-evict": (dict(maxsize=1), [[C(0)], [C(0)], [C(1)]], 1, 2),
    "three-fail-clear": (dict(maxsize=1, failing={0: {1}}), [[C(0)], [C(0)], [X()]], 1, 2),
    "three-fail": (dict(maxsize=1, failing={0: {1, 2}}), [[C(0)], [C(0)], [C(0)]], 1, 2),
    "info": (dict(maxsize=1), [[C(0), I()], [C(1), I()]], 1, 2),
    "fail-repeat": (dict(maxsize=None, failing={0: {1}}), [[C(0), C(0)], [C(0)]], 2, 2),
    "three-fail-once": (dict(maxsize=None, failing={0: {1}}), [[C(0)], [C(0)], [C(0)]], 1, 2),
    "three-fail-evict": (dict(maxsize=1, failing={0: {1}}), [[C(0), C(1)], [C(0)], [C(1)]], 1, 1),
    "no-copy": (dict(maxsize=None, copy=True), [[C(0)], [C(0), C(0)]], 1, 2),
}
METHOD = {
    "first-access": (dict(maxsize=None), [[C(0)], [C(0)]], 2, 2),
    "instances": (dict(maxsize=None), [[C(0, 0)], [C(0, 1)]], 1, 2),
    "instances-clear": (dict(maxsize=1), [[C(0, 0), C(0, 0)], [X(1), C(0, 1)]], 1, 1),
    "instances-evict": (dict(maxsize=1), [[C(0, 0)], [C(1, 0), C(1, 1)]], 1, 1),
    "m-clear": (dict(maxsize=None), [[C(0)], [X(), C(0)]], 1, 2),
    "m-fail": (dict(maxsize=None, failing={0: {1}}), [[C(0)], [C(0)]], 1, 2),
    "m-evict": (dict(maxsize=1), [[C(0)], [C(1)]], 2, 2),
    "m-three-evict": (dict(maxsize=1), [[C(0)], [C(0)], [C(1)]], 1, 1),
}


def judge(name, x, w, threads):
    """List of complaints about one execution (none if it satisfies the property)."""
    bad = []
    if x.deadlock:
        return ["deadlock: " + describe(w)]
    if x.livelock:
        return ["livelock: " + describe(w)]
    log = w.log
    pos = {}
    for i, e in enumerate(log):
        pos.setdefault(e[0], []).append((i, e))
    begins = {(e[2], e[3], e[4]): i for i, e in pos.get("begin", [])}
    ends = {(e[2], e[3], e[4]): i for i, e in pos.get("end", [])}
    clears = {}
    open_clear = {}
    for i, e in enumerate(log):
        if e[0] == "clear-begin":
            open_clear[e[1]] = i
        elif e[0] == "clear-end":
            clears.setdefault(e[2], []).append((open_clear.pop(e[1]), i))
    calls = {}
    ncalls = sum(1 for ops in threads for o in ops if o[0] == "call")
    nres = 0
    for i, e in enumerate(log):
        if e[0] == "call":
            calls[e[1], e[2], e[3]] = i
        elif e[0] in ("return", "raise"):
            nres += 1
            t, inst, k, val = e[1:]
            start = calls[t, inst, k]
            comp = (val[0], val[1], val[2]) if len(val) == 3 else None
            if comp is None or comp[:2] != (inst, k) or comp not in begins or ends.get(comp, 1 << 60) > i:
                bad.append(f"call of {inst},{k} in thread {t} gave {val}")
                continue
            failed = comp[2] in w.failing.get(k, ())
            if (e[0] == "raise") != failed:
                bad.append(f"call of {inst},{k} gave {e[0]} {val}")
            if e[0] == "raise" and ends[comp] < start:
                bad.append(f"call of {inst},{k} raised the remembered failure {val}")
            # nothing computed before a completed clearing is served afterwards
            for cb, ce in clears.get(inst, []):
                if ce < start and begins[comp] < cb:
                    bad.append(f"call of {inst},{k} served {val}, computed before the clearing")
        elif e[0] == "info":
            if w.maxsize is not None and e[3] > w.maxsize:
                bad.append(f"cache_info size {e[3]} > {w.maxsize}")
    if nres != ncalls:
        bad.append(f"{nres} of {ncalls} calls came to an end")
    # at most one computation of a key at a time, unless the cache was cleared meanwhile
    def claimed(i):
        """Start of the call in which the computation begun at log position i takes place."""
        return max(j for j in range(i) if log[j][0] == "call" and log[j][1] == log[i][1])

    byk = {}
    for (inst, k, n), b in begins.items():
        byk.setdefault((inst, k), []).append((b, ends.get((inst, k, n), 1 << 60), n))
    for (inst, k), comps in byk.items():
        comps.sort()
        for (b1, e1, n1), (b2, e2, n2) in zip(comps, comps[1:]):
            cleared = any(cb < b2 and ce > min(claimed(b1), claimed(b2)) for cb, ce in clears.get(inst, []))
            if b2 < e1 and not cleared:
                bad.append(f"computations {n1} and {n2} of {inst},{k} overlap")
        keys = {kk for (ii, kk) in byk if ii == inst}
        evicts = w.maxsize is not None and len(keys) > w.maxsize
        if not clears.get(inst) and not evicts:
            ok = [c for c in comps if c[2] not in w.failing.get(k, ())]
            if len(ok) > 1:
                bad.append(f"{inst},{k} was computed {len(ok)} times")
    # quiescent: bounded, still answers, remembers
    for inst in {o[1] for ops in threads for o in ops}:
        fn = w.fn(inst)
        size = fn.cache_info()["size"]
        if w.maxsize is not None and size > w.maxsize:
            bad.append(f"{size} entries kept, maxsize {w.maxsize}")
        keys = sorted({o[2] for ops in threads for o in ops if o[0] == "call" and o[1] == inst})
        last = len(log)
        for k in keys:
            before = w.ncomp.get((inst, k), 0)
            try:
                r = list(fn(k))
                after = w.ncomp.get((inst, k), 0)
                if r[:2] != [inst, k] or len(r) != 3:
                    bad.append(f"later call of {inst},{k} gave {r}")
                stored_before = any(
                    c[2] not in w.failing.get(k, ()) for c in byk.get((inst, k), [])
                )
                if (
                    after != before and stored_before and not clears.get(inst)
                    and (w.maxsize is None or len({kk for (ii, kk) in byk if ii == inst}) <= w.maxsize)
                ):
                    bad.append(f"{inst},{k} was forgotten")
                for cb, ce in clears.get(inst, []):
                    if r[2:] and (inst, k, r[2]) in begins and begins[(inst, k, r[2])] < cb:
                        bad.append(f"later call of {inst},{k} served {r}, computed before the clearing")
                if fn(k) != r:
                    bad.append(f"two later calls of {inst},{k} differ")
                if w.ncomp.get((inst, k), 0) != after:
                    bad.append(f"{inst},{k} is not remembered after the threads finished")
            except Boom:
                if not w.failing:
                    raise
        del w.log[last:]
        size = fn.cache_info()["size"]
        if w.maxsize is not None and size > w.maxsize:
            bad.append(f"{size} entries kept later, maxsize {w.maxsize}")
    return bad


def describe(w):
    return " ; ".join(" ".join(str(p) for p in e) for e in w.log)


def table(kind):
    if kind == "plain":
        return HARNESSES
    t = dict(METHOD)
    t["same-key"] = HARNESSES["same-key"]
    return t


SYNC = (2, 3)   # preemptions between synchronisation operations only: three threads (one more for two)


def points_in(case):
    return (lambda filename: False) if case.get("sync") else traced


def cases(tier):
    out = []
    deep = tier == "thorough"
    for kind in ("plain", "method", "slots"):
        for name, (args, threads, q, th) in table(kind).items():
            if kind == "slots" and not deep and name in ("m-three-evict", "instances-evict"):
                continue
            b = th if deep else q
            n = {1: 1, 2: 4, 3: 32}[b] * (2 if len(threads) == 3 or sum(map(len, threads)) > 2 else 1)
            for k in range(n):
                out.append({"kind": kind, "name": name, "bound": b, "shard": [k, n], "opcodes": False})
            if deep:
                for k in range(4):
                    out.append({"kind": kind, "name": name, "bound": 1, "shard": [k, 4], "opcodes": True})
            if kind == "plain" or deep:
                b = SYNC[deep] + (len(threads) == 2)
                n = (16 if deep else 2) * (len(threads) - 1)
                for k in range(n):
                    out.append({"kind": kind, "name": name, "bound": b, "shard": [k, n], "opcodes": False, "sync": True})
    return out


def weight(case):
    return case["bound"] * 10 + (case["kind"] != "plain")


def setup(case):
    args, threads, _, _ = table(case["kind"])[case["name"]]

    def make():
        w = World(case["kind"], **args)
        return [w.thread(ops) for ops in threads], w
    return make, threads


def run(case, rec):
    make, threads = setup(case)
    gc.collect()
    gc.disable()
    if case.get("schedule") is not None:  # replay of one recorded schedule
        bodies, w = make()
        x = sched.Scheduler(bodies, case["schedule"], points_in(case), case["opcodes"]).run()
        for b in judge(case["name"], x, w, threads):
            rec.fail("schedule", b, {"log": describe(w)})
        gc.enable()
        return

    # the same schedule twice gives the same observations
    logs = []
    for _ in range(3):
        bodies, w = make()
        x = sched.Scheduler(bodies, [], points_in(case), case["opcodes"]).run()
        logs.append((len(x.points), describe(w), [p.enabled for p in x.points]))
    assert logs[1] == logs[2], "schedule not reproducible"

    def check(x, w):
        log = list(w.log)
        bad = judge(case["name"], x, w, threads)
        rec.state(case["kind"], case["name"], tuple(x.order), tuple(map(str, log)))
        rec.outcome(case["kind"], case["name"], tuple(map(str, log)))
        rec.trace()
        rec.step(len(x.points))
        if bad:
            rec.case = dict(case, schedule=x.choices)
            rec.fail("schedule", f"{case['kind']}/{case['name']}: {bad[0]}", {"log": " ; ".join(map(str, log))})
            rec.case = case
        return bool(bad)

    stats = sched.explore(make, check, points_in(case), case["bound"], tuple(case["shard"]), case["opcodes"])
    rec.sample(f"{case['kind']}/{case['name']} bound {case['bound']} shard {case['shard']}: {stats}")
    gc.enable()
