"""S03: all nested histories of capturing, silencing, logging and failing against a model of the logger; formatting; queries that fail."""
import copy
import io
import itertools
import logging
import os
import re
import subprocess
import sys


import spey
from mc import stub as stubs
from spey.system import logger as L

BOUNDS = {
    "quick": "all histories of up to 4 operations out of 20 (enter capture at 4 levels / silence at 3, log 9 messages, leave, 3 kinds of exception) x 10 initial states of the logger, of up to "
             "5 operations for 1; all records of 13 levels x 11 contents x 4 orders of handlers; a failure at each of the first 40 likelihood evaluations of 8 queries x 5 logger states",
    "thorough": "histories of up to 5 operations for all initial states, failures at each of the first 150 evaluations",
}
ASSUMPTIONS = ["contexts are left in the reverse order of entering; one thread; inside a context nobody else changes the logger"]

SPEY = logging.getLogger("Spey")


class Weird:
    def __str__(self):
        return "weird object"


# message -> (level, msg, args, formatted text)
MSG = {
    "d": (10, "debug text", (), "debug text"),
    "i": (20, "info text", (), "info text"),
    "w": (30, "warning one", (), "warning one"),
    "W": (30, "warning %s", ("two",), "warning two"),
    "v": (30, "warning %s", ("one",), "warning one"),  # the same message as "w"
    "e": (40, "error %d of %d", (1, 2), "error 1 of 2"),
    "c": (50, "critical", (), "critical"),
    "o": (30, Weird(), (), "weird object"),
    "b": (40, "broken %d", ("x",), "broken %d"),  # cannot be formatted
}
CAPTURE = [("C", 10), ("C", 20), ("C", 40), ("C", 30)]
DISABLE = [("D", 30), ("D", 50), ("D", 10)]
OPS = CAPTURE + DISABLE + [("L", k) for k in MSG] + [("X", ""), ("R", "value"), ("R", "keyboard"), ("R", "stop")]
EXC = {"value": ValueError("inside"), "keyboard": KeyboardInterrupt(), "stop": StopIteration()}
INITIAL = {
    # level, number of handlers, propagate, globally disabled
    "usual": (20, 1, False, 0), "debug": (10, 1, False, 0), "two": (20, 2, False, 0), "none": (30, 0, False, 0), "propagate": (20, 1, True, 0),
    "silent": (60, 1, False, 0), "disabled": (20, 1, False, 20), "parent": (20, 0, True, 0), "unset": (0, 1, False, 0), "unset-parent": (0, 0, True, 0),
}


class Keep(logging.Handler):
    def __init__(self, level=0):
        super().__init__(level)
        self.got = []

    def emit(self, record):
        try:
            self.got.append(record.getMessage())
        except TypeError:
            self.got.append(str(record.msg))


class Setup:
    """Puts the logger into an initial state and back."""

    def __init__(self, key):
        self.level, n, self.propagate, self.disabled = INITIAL[key]
        self.handlers = [Keep() for _ in range(n)]
        self.root = Keep()

    def __enter__(self):
        self.saved = (SPEY.level, SPEY.handlers[:], SPEY.propagate, logging.root.manager.disable, logging.root.handlers[:])
        SPEY.setLevel(self.level)
        SPEY.handlers[:] = self.handlers
        SPEY.propagate = self.propagate
        logging.disable(self.disabled)
        logging.root.handlers[:] = [self.root]
        return self

    def __exit__(self, *a):
        SPEY.setLevel(self.saved[0])
        SPEY.handlers[:] = self.saved[1]
        SPEY.propagate = self.saved[2]
        logging.disable(self.saved[3])
        logging.root.handlers[:] = self.saved[4]


def state():
    return (SPEY.level, tuple(map(id, SPEY.handlers)), SPEY.propagate, logging.root.manager.disable)


class Model:
    """What the logger has to do."""

    def __init__(self, s):
        self.level, self.disabled = s.level or logging.root.level, s.disabled  # the level of the parent if unset
        self.stack = []  # ("C", level, messages) or ("D", previous)
        self.base = []
        self.out = []  # what a left capturing context wrote

    def log(self, key):
        level, _, _, text = MSG[key]
        if level <= self.disabled:
            return
        for kind, a, b in reversed(self.stack):
            if kind == "C":
                if level >= a and (level, text) not in b:
                    b.append((level, text))
                return
        if level >= self.level:
            self.base.append(text)


def plain(text):
    """Lines of the stream without colours and the prefix."""
    text = re.sub(r"\x1b\[\d+m", "", text)
    return [re.sub(r"^Spey( - [A-Z]+)?( \(.*?\(\) in .*?::L\d+\))?: ", "", line) for line in text.splitlines()]


def execute(ops, init):
    """One history on the real code; yields a message for everything that differs from the model."""
    problems = []
    with Setup(init) as s:
        before = state()
        m = Model(s)
        real = []  # (context manager, stream, state before entering)
        stdout = sys.stdout
        try:
            def leave(exc=None):
                cm, stream, was = real.pop()
                entry = m.stack.pop()
                try:
                    swallowed = cm.__exit__(*((type(exc), exc, None) if exc is not None else (None, None, None)))
                except BaseException as other:  # noqa: BLE001
                    swallowed = False
                    if other is not exc and not (isinstance(exc, StopIteration) and other is exc):
                        problems.append(("exception", f"leaving {entry[0]} raised {other!r}"))
                if swallowed:
                    problems.append(("exception", f"leaving {entry[0]} swallowed {exc!r}"))
                if entry[0] == "D":
                    m.disabled = entry[1]
                else:
                    got = plain(stream.getvalue())
                    want = [t for _, t in entry[2]]
                    if got != want:
                        problems.append(("captured", f"stream has {got}, expected {want}"))
                if state() != was:
                    problems.append(("not-restored", f"after leaving {entry[0]}: {state()}, was {was}"))

            for kind, arg in ops:
                if kind == "C":
                    was = state()
                    stream = io.StringIO()
                    if arg == 30:  # without naming a stream
                        sys.stdout = stream
                        cm = L.capture_logs(arg)
                    else:
                        cm = L.capture_logs(arg, stream) if arg != 10 else L.capture_logs(stream=stream)
                    cm.__enter__()
                    sys.stdout = stdout
                    real.append((cm, stream, was))
                    m.stack.append(("C", arg, []))
                elif kind == "D":
                    was = state()
                    cm = L.disable_logging(arg) if arg != 50 else L.disable_logging()
                    cm.__enter__()
                    real.append((cm, None, was))
                    m.stack.append(("D", m.disabled, None))
                    m.disabled = arg
                elif kind == "L":
                    level, msg, args, _ = MSG[arg]
                    try:
                        SPEY.log(level, msg, *args)
                    except Exception as exc:  # noqa: BLE001
                        problems.append(("log-raises", f"logging {arg} raised {exc!r}"))
                    m.log(arg)
                elif real:
                    leave(EXC[arg] if kind == "R" else None)
            while real:
                leave()
        finally:
            sys.stdout = stdout
        for i, h in enumerate(s.handlers):
            if h.got != m.base:
                problems.append(("delivery", f"handler {i} got {h.got}, expected {m.base}"))
        want = m.base if s.propagate else []
        if s.root.got != want:
            problems.append(("delivery", f"root handler got {s.root.got}, expected {want}"))
        if state() != before:
            problems.append(("not-restored", f"at the end {state()}, was {before}"))
    return problems, (tuple(m.base), len(ops))


def depth_of(tier, init):
    if tier == "quick":
        return 5 if init == "usual" else 4
    return 5


def cases(tier):
    out = []
    for init in INITIAL:
        d = depth_of(tier, init)
        for first in range(len(OPS)):
            if d >= 5:
                out += [{"kind": "history", "init": init, "prefix": [first, j], "depth": d} for j in range(len(OPS))]
            else:
                out.append({"kind": "history", "init": init, "prefix": [first], "depth": d})
    out += [{"kind": "format", "level": lv} for lv in LEVELS]
    out += [{"kind": "query", "query": q, "init": i, "upto": 40 if tier == "quick" else 150} for q in QUERIES for i in ("usual", "debug", "two", "propagate", "disabled")]
    out += [{"kind": "init"}, {"kind": "environment"}]
    return out


def weight(case):
    return {"environment": 50, "history": case.get("depth", 0)}.get(case["kind"], 3)


LEVELS = [0, 1, 9, 10, 15, 19, 20, 29, 30, 39, 40, 49, 50, 60]


def run(case, rec):
    {"history": history, "format": formats, "query": query, "init": initialise, "environment": environment}[case["kind"]](case, rec)


def history(case, rec):
    last = None
    prefix = [OPS[i] for i in case["prefix"]]
    if prefix[0][0] in ("X", "R"):  # nothing to leave: the history without it is another case
        return
    for n in range(0, case["depth"] - len(prefix) + 1):
        for tail in itertools.product(OPS, repeat=n):
            todo_ops = prefix + list(tail)
            depth = 0
            ok = True
            for k, _ in todo_ops:
                if k in ("C", "D"):
                    depth += 1
                elif k in ("X", "R"):
                    depth -= 1
                    if depth < 0:
                        ok = False
                        break
            if not ok:
                continue
            problems, outcome = execute(todo_ops, case["init"])
            rec.step(len(todo_ops))
            rec.trace()
            rec.state(case["init"], todo_ops)
            rec.outcome(outcome)
            for key, msg in problems[:2]:
                rec.fail(key, f"logger {case['init']}, {' '.join(f'{a}{b}' for a, b in todo_ops)}: {msg}", todo_ops)
            if len(rec.failures) > 5:
                return
            last = outcome
    if last is not None:
        rec.sample(f"{case['init']} {todo_ops}: {last}")


def snapshot(record):
    return {k: (id(v) if not isinstance(v, (str, int, float, tuple, type(None))) else v) for k, v in vars(record).items()}


def formats(case, rec):
    """A record is rendered with its content and is left as it was, whatever the order of handlers."""
    level = case["level"]
    try:
        raise ValueError("for the traceback")
    except ValueError:
        info = sys.exc_info()
    contents = [("text", (), "text"), ("a %s b", ("x",), "a x b"), ("%d%%", (5,), "5%"), ("100%", (), "100%"), (Weird(), (), "weird object"), (42, (), "42"),
                (["l", 1], (), "['l', 1]"), ("%(k)s", ({"k": "v"},), "v"), ("", (), ""), ("é\n2", (), "é\n2"), ({"a": 1}, (), "{'a': 1}")]
    for msg, args, text in contents:
        for exc in (None, info):
            for order in ("colour", "colour-plain", "plain-colour", "colour-colour"):
                record = logging.LogRecord("Spey", level, "/x/module.py", 7, msg, args if not (args and isinstance(args[0], dict)) else args, exc, "func")
                ref = logging.Formatter("%(levelname)s:%(message)s").format(copy.copy(record))
                was = snapshot(record)
                got = {}
                for i, kind in enumerate(order.split("-")):
                    fmt = L.ColoredFormatter("%(message)s") if kind == "colour" else logging.Formatter("%(levelname)s:%(message)s")
                    if kind == "colour":
                        mid = snapshot(record)
                        got.setdefault("colour", []).append(fmt.format(record))
                        rec.check({k: v for k, v in snapshot(record).items() if k not in ("message", "exc_text")} ==
                                  {k: v for k, v in mid.items() if k not in ("message", "exc_text")},
                                  "record-altered", f"level {level}, {msg!r}: {mid} became {snapshot(record)}")
                        if i == 0:
                            rec.check(snapshot(record).get("exc_text") == was.get("exc_text") or exc, "record-altered", f"{snapshot(record)}")
                    else:
                        out = fmt.format(record)
                        rec.check(out == ref, "other-handler", f"level {level}, {msg!r}, order {order}: another handler writes {out!r} instead of {ref!r}")
                rec.step(len(order.split("-")))
                rec.trace()
                rec.state(level, str(msg), bool(exc), order)
                for out in got.get("colour", []):
                    clean = re.sub(r"\x1b\[\d+m", "", out)
                    want = "ERROR" if level >= 40 else "WARNING" if level >= 30 else "Spey: " if level >= 20 else "DEBUG" if level >= 10 else "Spey"
                    rec.check(text in clean and clean.startswith("Spey") and want in clean, "text", f"level {level}, {msg!r} rendered as {out!r}")
                    rec.check(clean.count(text) == 1 or len(text) < 3, "text", f"level {level}, {msg!r} rendered as {out!r}")
                    rec.check(not exc or "for the traceback" in clean, "text", f"level {level}: traceback missing in {out!r}")
                    rec.outcome(level, clean.split(":")[0])
                rec.check(len(set(got.get("colour", []))) <= 1, "text", f"level {level}, {msg!r}: two renderings differ {got}")


class Boom(Exception):
    pass


class Failing(stubs.Stub):
    """Logs a warning with every evaluation and fails at number ``at``."""

    def __init__(self, at, *a, **k):
        super().__init__(*a, **k)
        self.at, self.n = at, 0

    def _tick(self):
        self.n += 1
        SPEY.warning("evaluation")
        SPEY.info("detail %d", self.n % 2)
        if self.n == self.at:
            raise Boom()

    def likelihood(self, *a, **k):
        self._tick()
        return super().likelihood(*a, **k)

    def maximize_likelihood(self, *a, **k):
        self._tick()
        return super().maximize_likelihood(*a, **k)

    def asimov_likelihood(self, *a, **k):
        self._tick()
        return super().asimov_likelihood(*a, **k)

    def maximize_asimov_likelihood(self, *a, **k):
        self._tick()
        return super().maximize_asimov_likelihood(*a, **k)


QUERIES = {
    "exclusion": lambda m: m.exclusion_confidence_level(),
    "limit": lambda m: m.poi_upper_limit(),
    "limit-expected": lambda m: m.poi_upper_limit(expected=spey.ExpectationType.apriori, expected_pvalue="2sigma"),
    "limit-init": lambda m: m.poi_upper_limit(low_init=0.5, hig_init=3.0),
    "chi2": lambda m: m.chi2(poi_test=[0.5, 1.0, 2.0, 3.0]),
    "chi2-dict": lambda m: m.chi2(poi_test={0: [0.5, 1.0, 2.0]}),
    "interval": lambda m: m.chi2_test(limit_type="two-sided"),
    "interval-right": lambda m: m.chi2_test(limit_type="right"),
}


def query(case, rec):
    """Whatever evaluation fails, the logger is as before."""
    f = QUERIES[case["query"]]
    for at in [0] + list(range(1, case["upto"] + 1)):
        curve = stubs.Parabola(0.4, 0.9)
        m = Failing(at, lambda e: curve, lambda e, t: stubs.Parabola(0.0, 0.9))
        stdout, sys.stdout = sys.stdout, io.StringIO()
        try:
            with Setup(case["init"]) as s:
                before = state()
                try:
                    f(m)
                    out = "value"
                except Boom:
                    out = "boom"
                except Exception as exc:  # noqa: BLE001
                    out = repr(exc)
                after = state()
                delivered = sum(len(h.got) for h in s.handlers)
        finally:
            text, sys.stdout = sys.stdout.getvalue(), stdout
        rec.step()
        rec.trace()
        rec.state(case["query"], case["init"], at)
        rec.outcome(out, bool(text), delivered > 0)
        rec.check(after == before, "not-restored", f"{case['query']} with a failure at evaluation {at}: logger {after}, was {before}")
        if at == 0:
            rec.check(out == "value", "query", f"{case['query']}: {out}")
        elif m.n >= at:  # the scan of chi2_test may leave out points that cannot be evaluated
            rec.check(case["query"].startswith("interval") or out == "boom", "exception", f"{case['query']} with a failure at evaluation {at}: {out}")
        else:
            break
        if case["init"] in ("usual", "debug"):
            rec.check(delivered or text, "messages-lost", f"{case['query']} with a failure at evaluation {at}: no message was delivered")


def initialise(case, rec):
    """Any number of initialisations leaves one handler that delivers every message once."""
    for init in INITIAL:
        for n in range(1, 5):
            with Setup(init):
                streams = []
                for _ in range(n):
                    streams.append(io.StringIO())
                    L.init(LoggerStream=streams[-1])
                SPEY.setLevel(20)
                logging.disable(0)
                SPEY.warning("hello")
                SPEY.debug("not this")
                rec.step(n)
                rec.trace()
                rec.state(init, n)
                got = [plain(s.getvalue()) for s in streams]
                rec.outcome(n)
                rec.check(got == [[]] * (n - 1) + [["hello"]], "init", f"{init}, {n} initialisations: {got}")
    for level, want in enumerate((40, 30, 20, 10)):
        old = SPEY.level
        try:
            spey.set_log_level(level)
            rec.check(SPEY.level == want, "set-level", f"set_log_level({level}) gave {SPEY.level}")
            rec.state("level", level)
        finally:
            SPEY.setLevel(old)


def environment(case, rec):
    """The level chosen by SPEY_LOGLEVEL."""
    code = "import spey, logging; print('LEVEL', logging.getLogger('Spey').level, len(logging.getLogger('Spey').handlers), logging.getLogger('Spey').propagate)"
    for value, want in ((None, 20), ("0", 40), ("1", 30), ("2", 20), ("3", 10), ("-1", 20)):
        env = {k: v for k, v in os.environ.items() if k != "SPEY_LOGLEVEL"}
        env["SPEY_CHECKUPDATE"] = "OFF"
        if value is not None:
            env["SPEY_LOGLEVEL"] = value
        p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=120)
        rec.step()
        rec.trace()
        rec.state(value)
        rec.outcome(want)
        rec.check(f"LEVEL {want} 1 False" in p.stdout, "environment", f"SPEY_LOGLEVEL={value}: {p.stdout} {p.stderr[-500:]}")
