"""S02: the update check under every network answer, cache content, file-system error, crash point and interleaving."""
import contextlib
import datetime
import io
import itertools
import builtins
import json
import os
import pathlib
import platform
import re
import shutil
import subprocess
import sys
import tempfile
import time

import requests

import spey
from mc import sched
from mc.patching import everywhere, logs
from spey.system import webutils

BOUNDS = {
    "quick": "all pairs of 27 initial cache states and 26 network answers, then a second check after 3 ages x 6 answers; every torn length of a cache file; an error of 4 kinds, and a crash, "
             "at every file-system operation of 8 x 4 of them, then a second check; all interleavings with up to 2 preemptions of two processes (8 scenarios); "
             "all version triples of 9 x 8 x 6; all citation answers of up to 4 requests",
    "thorough": "as quick with all answers in the second check, faults for all states and answers, 2 preemptions, citation sequences of up to 5 requests",
}
ASSUMPTIONS = ["versions are semantic versions and version requirements are of the form that semantic_version parses",
               "file-system operations go through os, io.open or builtins.open; a process does not see its own crash"]

DAY = 86400
HERE = spey.version()


def payload(version, python=">=3.8"):
    return {"info": {"version": version, "requires_python": python, "name": "spey"}, "releases": {}}


NEWER, OLDER = payload("99.1.0"), payload("0.0.3")
SAME = payload(HERE)
NOPY = payload(HERE, ">=99.0")


def semver(v):
    m = re.fullmatch(r"(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?", v)
    core = tuple(int(x) for x in m.groups()[:3])
    pre = m.group(4)
    if pre is None:
        return core, (1,)
    return core, (0, tuple((0, int(x), "") if x.isdigit() else (1, 0, x) for x in pre.split(".")))


def python_ok(req, python=None):
    v = tuple(int(x) for x in (python or platform.python_version()).split("."))
    for part in req.split(","):
        op, num = re.fullmatch(r"(>=|<=|==|!=|>|<)([0-9.]+)", part).groups()
        w = tuple(int(x) for x in num.split("."))
        c = v[: len(w)]
        if not {">=": c >= w, "<=": c <= w, "==": c == w, "!=": c != w, ">": c > w, "<": c < w}[op]:
            return False
    return True


def warnings_for(info, local=None, python=None):
    """Kinds of warnings called for by an answer."""
    local = local or HERE
    out = []
    v = info["info"]["version"]
    if "beta" in semver(local)[1][-1:] or (isinstance(semver(local)[1][-1], tuple) and any(x[2] == "beta" for x in semver(local)[1][-1])):
        out.append("prerelease")
    elif semver(local) < semver(v):
        out.append("newer")
    elif semver(local) > semver(v):
        out.append("unstable")
    if not python_ok(info["info"]["requires_python"], python):
        out.append("python")
    return out


KIND = [("python", "requires python"), ("newer", "newer version"), ("unstable", "unstable version"), ("prerelease", "prerelease version")]


def kinds_of(messages):
    out = []
    for m in messages:
        hit = [k for k, text in KIND if text in m.lower()]
        out.append(hit[0] if hit else m)
    return out


# ------------------------------------------------------------------------------------------- network
class Response:
    def __init__(self, text, status=200):
        self.text, self.status_code, self.encoding = text, status, None
        self.content = text.encode()
        self.ok = status < 400
        self.headers = {}

    def json(self, **kw):
        try:
            return json.loads(self.text)
        except ValueError as err:
            raise requests.exceptions.JSONDecodeError("bad", self.text, 0) from err

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(str(self.status_code))


NETWORK = {
    "newer": NEWER, "same": SAME, "older": OLDER, "nopython": NOPY,
    "connection": requests.ConnectionError("no"), "timeout": requests.Timeout("t"), "readtimeout": requests.ReadTimeout("t"),
    "connecttimeout": requests.ConnectTimeout("t"), "ssl": requests.exceptions.SSLError("s"), "chunk": requests.exceptions.ChunkedEncodingError("c"),
    "valueerror": ValueError("x"), "oserror": OSError("x"), "runtime": RuntimeError("x"), "attribute": AttributeError("x"),
    "nojson": "<html>", "empty": "", "null": "null", "list": "[]", "number": "3", "string": '"spey"', "emptydict": "{}",
    "infonull": '{"info": null}', "infolist": '{"info": []}', "noversion": '{"info": {"requires_python": ">=3.8"}}',
    "error404": (404, '{"message": "Not Found"}'), "error503": (503, "<html>busy</html>"),
}
VALID = {"newer", "same", "older", "nopython"}


class Net:
    def __init__(self):
        self.answer = "connection"
        self.calls = []

    def get(self, url, *args, **kwargs):
        me = sched._me()
        if me:
            me[0].point(me[1])
        self.calls.append(url)
        a = NETWORK[self.answer]
        if isinstance(a, Exception):
            raise a
        if isinstance(a, dict):
            return Response(json.dumps(a))
        if isinstance(a, tuple):
            return Response(a[1], a[0])
        return Response(a)


# --------------------------------------------------------------------------------------- file system
class Crash(BaseException):
    """The process dies here."""


class Files:
    """Counts the file-system operations below ``root`` and makes number ``at`` fail."""

    def __init__(self, root):
        self.root = str(root)
        self.n = 0
        self.at = None
        self.kind = None
        self.dead = False
        self.log = []
        self._real = {}

    def mine(self, p):
        try:
            return str(os.fspath(p)).startswith(self.root) if not isinstance(p, int) else False
        except TypeError:
            return False

    def hit(self, name):
        me = sched._me()
        if me:
            me[0].point(me[1])
        if self.dead:
            raise Crash()
        i = self.n
        self.n += 1
        self.log.append(name)
        if self.at == i:
            if self.kind == "crash":
                self.dead = True
                raise Crash()
            if self.kind == "permission":
                raise PermissionError(13, "Permission denied", name)
            if self.kind == "nospace":
                raise OSError(28, "No space left on device")
            if self.kind == "missing":
                raise FileNotFoundError(2, "No such file or directory", name)
            if self.kind == "exists":
                raise FileExistsError(17, "File exists", name)

    @contextlib.contextmanager
    def installed(self):
        names = ["mkdir", "stat", "lstat", "scandir", "listdir", "unlink", "remove", "rename", "replace", "open", "utime", "rmdir", "access"]
        real = {n: getattr(os, n) for n in names}

        def wrap(n):
            def f(*a, **k):
                if a and self.mine(a[0]):
                    self.hit(n)
                    if n == "scandir":
                        return Sorted(real[n](*a, **k))
                    if n == "listdir":
                        return sorted(real[n](*a, **k))
                return real[n](*a, **k)
            return f

        rio, rbuiltin = io.open, builtins.open

        def fopen(file, *a, **k):
            if self.mine(file):
                self.hit("open")
                return Handle(self, rio(file, *a, **k))
            return rio(file, *a, **k)

        try:
            for n in names:
                setattr(os, n, wrap(n))
            io.open = fopen
            builtins.open = fopen
            yield self
        finally:
            for n in names:
                setattr(os, n, real[n])
            io.open, builtins.open = rio, rbuiltin


class Handle:
    """File object whose read, write and close are operations; a failing write has written half of its text."""

    def __init__(self, files, real):
        self._files, self._r = files, real

    def write(self, data):
        try:
            self._files.hit("write")
        except BaseException:
            self._r.write(data[: len(data) // 2])
            self._r.close()
            raise
        out = self._r.write(data)
        self._r.flush()
        return out

    def read(self, *a):
        self._files.hit("read")
        return self._r.read(*a)

    def close(self):
        if not self._r.closed:
            if not self._files.dead:
                try:
                    self._files.hit("close")
                finally:
                    self._r.close()
            else:
                self._r.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._r)

    def __getattr__(self, name):
        return getattr(self._r, name)


# ---------------------------------------------------------------------------------------------- cache
def write(d, name, text, age, binary=None):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(binary if binary is not None else text.encode())
    t = time.time() - age
    os.utime(p, (t, t))


FRESH, STALE = 3600, 2 * DAY
NEW, OLD = "pypi_latest_20250102_030405.json", "pypi_latest_20240102_030405.json"


def make_state(root, key):
    """Builds ``root``/.spey; returns (answer the cache gives or None or several possible, unrelated files)."""
    d = os.path.join(root, ".spey")
    parts = key.split("|")
    if parts[0] == "absent":
        return [None]
    if parts[0] == "file":
        with open(d, "w") as f:
            f.write("x")
        return [None]
    os.mkdir(d)
    full = json.dumps(NEWER, indent=4)
    k = parts[0]
    if k == "emptydir":
        return [None]
    if k == "other":
        write(d, "settings.json", "{}", 10)
        write(d, "pypi_latest_notes.txt", "mine", 10)
        write(d, "pypi.json", full, 10)
        return [None]
    if k in ("fresh", "stale", "almost", "justover", "future"):
        which = {"newer": NEWER, "older": OLDER, "same": SAME, "nopython": NOPY}[parts[1]]
        age = {"fresh": FRESH, "stale": STALE, "almost": DAY - 120, "justover": DAY + 120, "future": -FRESH}[k]
        write(d, NEW, json.dumps(which, indent=4), age)
        return {"fresh": [which], "almost": [which], "future": [which, None]}.get(k, [None])
    if k == "compact":  # same content, written differently
        write(d, NEW, json.dumps(OLDER), FRESH)
        return [OLDER]
    if k == "torn":
        write(d, NEW, full[: int(parts[1])], FRESH)
        return [NEWER] if int(parts[1]) >= len(full) else [None]
    if k == "bad":
        text = {"nojson": "<html>", "null": "null", "list": "[]", "number": "3", "string": '"spey"', "emptydict": "{}", "infonull": '{"info": null}',
                "noversion": '{"info": {}}', "trail": full + "}", "twice": full + full}.get(parts[1])
        write(d, NEW, text or "", FRESH, b"\xff\xfe{\x00" if parts[1] == "binary" else None)
        return [None]
    if k == "isdir":
        os.mkdir(os.path.join(d, NEW))
        return [None]
    if k == "torn+old":  # a crash while writing, the previous answer being too old
        write(d, OLD, json.dumps(OLDER, indent=4), STALE)
        write(d, NEW, full[:40], FRESH)
        return [None]
    if k == "torn+fresh":
        write(d, OLD, json.dumps(OLDER, indent=4), FRESH + 600)
        write(d, NEW, full[:40], FRESH)
        return [OLDER, None]
    if k == "fresh+stale":  # a crash before removing the previous answer
        write(d, OLD, json.dumps(OLDER, indent=4), STALE)
        write(d, NEW, full, FRESH)
        return [NEWER]
    if k == "two":
        write(d, OLD, json.dumps(OLDER, indent=4), FRESH + 600)
        write(d, NEW, full, FRESH)
        return [NEWER]
    if k == "manystale":
        for i in range(5):
            write(d, f"pypi_latest_2024010{i + 1}_030405.json", json.dumps(OLDER, indent=4), STALE + i * DAY)
        return [None]
    raise KeyError(key)


STATES = (["absent", "file", "emptydir", "other", "fresh|newer", "fresh|older", "fresh|same", "fresh|nopython", "stale|newer", "stale|older", "almost|newer",
           "justover|newer", "future|older", "compact", "isdir", "torn+old", "torn+fresh", "fresh+stale", "two", "manystale"]
          + ["bad|" + x for x in ("nojson", "null", "list", "emptydict", "infonull", "noversion", "binary")])
MORE = ["bad|number", "bad|string", "bad|trail", "bad|twice", "stale|nopython"]
FAULT_STATES = ["absent", "emptydir", "fresh|newer", "stale|older", "torn+old", "fresh+stale", "manystale", "bad|emptydict"]
FAULT_NET = ["newer", "older", "connection", "error404"]
FAULTS = ["permission", "nospace", "missing", "exists", "crash"]
UNRELATED = {"settings.json", "pypi_latest_notes.txt", "pypi.json"}


def cache_files(root):
    d = os.path.join(root, ".spey")
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if f not in UNRELATED and os.path.isfile(os.path.join(d, f)))


def stored(root):
    out = []
    for f in cache_files(root):
        try:
            with open(os.path.join(root, ".spey", f), encoding="utf-8") as h:
                out.append(json.load(h))
        except Exception:  # noqa: BLE001
            out.append(None)
    return out


class Sorted:
    """The entries of a directory in a fixed order."""

    def __init__(self, it):
        with it:
            self._e = iter(sorted(it, key=lambda e: e.name))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._e)

    def close(self):
        pass


@contextlib.contextmanager
def clock(step):
    """A clock that advances by ``step`` seconds whenever it is read."""
    start = float(int(time.time()))
    reads = [0]

    def now():
        reads[0] += 1
        return start + step * reads[0]

    class Fake(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return datetime.datetime.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return datetime.datetime.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None)

    with everywhere(datetime, "datetime", Fake), everywhere(time, "time", now):
        yield


@contextlib.contextmanager
def world():
    root = tempfile.mkdtemp(prefix="mc_s02_")
    net = Net()
    real = requests.get
    old = webutils._SPEY_DIR
    requests.get = net.get
    webutils._SPEY_DIR = pathlib.Path(root) / ".spey"
    try:
        yield root, net
    finally:
        requests.get = real
        webutils._SPEY_DIR = old
        shutil.rmtree(root, ignore_errors=True)


def check_once(net, answer):
    net.answer = answer
    net.calls = []
    with logs() as h:
        try:
            out = ("value", spey.check_updates())
        except Crash:
            out = ("crash", None)
        except BaseException as exc:  # noqa: BLE001
            out = ("raise", repr(exc))
    return out, kinds_of(h.at(30)), len(net.calls)


def judge(rec, where, root, answer, cached, got, faulted=False, before=None):
    """One check against what the cache and the network offered."""
    out, warned, calls = got
    rec.step()
    rec.trace()
    rec.check(out == ("value", None), "raises", f"{where}: check_updates gave {out}")
    options = []
    for c in cached:
        if c is not None:
            options.append((warnings_for(c), 0))
        else:
            options.append((warnings_for(NETWORK[answer]) if answer in VALID else [], 1))
    rec.outcome(tuple(warned), calls, len(cache_files(root)))
    if faulted:
        asked = (warnings_for(NETWORK[answer]) if answer in VALID else [], 1)
        options.append(asked)
    if not rec.check((warned, calls) in options, "warning-or-request", f"{where}: warnings {warned} after {calls} requests, expected one of {options}"):
        return
    files, content = cache_files(root), stored(root)
    if calls and answer in VALID and not faulted and (before or "") != "file":
        rec.check(content == [NETWORK[answer]], "not-cached", f"{where}: cache afterwards {list(zip(files, content))}, expected only the answer {answer}")
    if calls and answer not in VALID and not faulted:
        bad = [c for c in content if c is not None and (not isinstance(c, dict) or not isinstance(c.get("info"), dict) or not c["info"].get("version"))]
        rec.check(not bad or (before or "").startswith("bad"), "caches-invalid", f"{where}: cache afterwards {list(zip(files, content))}")


def shift(root, age):
    """Let time pass."""
    for f in cache_files(root):
        p = os.path.join(root, ".spey", f)
        t = os.stat(p).st_mtime - age
        os.utime(p, (t, t))


# ---------------------------------------------------------------------------------------------- cases
LOCAL = [HERE, "0.2.6", "0.2.7", "0.3.0-beta", "0.3.0-beta.2", "1.0.0", "0.10.0", "0.2.10", "0.2.7-a1"]
REMOTE = ["0.2.6", "0.2.7", "0.2.10", "0.10.0", "1.0.0", "0.3.0", "0.2.7-b3", "0.2.7-b2"]
PYREQ = [">=3.8", "<3.15,>=3.9", ">=99.0", "<3.0", ">=3.8,<3.9", "!=3.9"]
PYTHONS = ["3.8.20", "3.9.0", "3.12.3", "3.13.1"]


def cases(tier):
    states = STATES + (MORE if tier == "thorough" else [])
    out = [{"kind": "history", "state": s, "net": n, "tier": tier} for s in states for n in NETWORK]
    full = len(json.dumps(NEWER, indent=4))
    out += [{"kind": "torn", "lo": i, "hi": min(i + 20, full + 1)} for i in range(0, full + 1, 20)]
    fs, fn = (FAULT_STATES, FAULT_NET) if tier == "quick" else (states, list(NETWORK))
    out += [{"kind": "fault", "state": s, "net": n, "fault": f} for s in fs for n in fn for f in FAULTS]
    out += [{"kind": "versions", "local": v} for v in LOCAL]
    out += [{"kind": "race", "state": s, "net": n, "bound": 2 if tier == "quick" else 3, "shard": [k, 4], "tick": t}
            for s in ("absent", "stale|older", "torn+old", "fresh|newer") for n in ("newer", "older" if s != "absent" else "connection") for t in (0, 0.6) for k in range(4)]
    out += [{"kind": "import", "env": e, "net": n} for e in ("ON", "OFF", "off", None, "0") for n in ("newer", "connection", "emptydict")]
    out += [{"kind": "import-home", "home": h} for h in ("missing", "file", "cached")]
    out += [{"kind": "bibtex"}, {"kind": "cite"}]
    out += [{"kind": "backend-bibtex", "arxiv": a, "doi": d, "zenodo": z} for a in range(3) for d in range(3) for z in range(2)
            if a + 2 * d + z <= (4 if tier == "quick" else 5)]
    return out


def weight(case):
    return {"race": 8, "import": 5, "import-home": 5, "backend-bibtex": 4, "history": 1}.get(case["kind"], 2)


def run(case, rec):
    {"history": history, "torn": torn, "fault": fault, "versions": versions, "race": race, "import": imports, "import-home": import_home,
     "bibtex": bibtex, "cite": cite, "backend-bibtex": backend_bibtex}[case["kind"]](case, rec)


def history(case, rec):
    s, n = case["state"], case["net"]
    seconds = ["newer", "older", "same", "connection", "emptydict", "error503"] if case["tier"] == "quick" else list(NETWORK)
    for age, second in [(a, x) for a in (0, DAY - 300, DAY + 300) for x in seconds]:
        with world() as (root, net):
            cached = make_state(root, s)
            others = {f for f in UNRELATED if os.path.exists(os.path.join(root, ".spey", f))}
            got = check_once(net, n)
            where = f"cache {s}, network {n}"
            judge(rec, where, root, n, cached, got, before=s)
            # what the second check finds
            shift(root, age)
            asked = got[2] == 1
            if asked and n in VALID and s != "file":
                offer = NETWORK[n] if age <= DAY else None
                offers = [offer]
            else:
                now = {"fresh|newer": FRESH, "fresh|older": FRESH, "fresh|same": FRESH, "fresh|nopython": FRESH, "almost|newer": DAY - 120, "compact": FRESH,
                       "fresh+stale": FRESH, "two": FRESH}.get(s)
                if s == "future|older":
                    offers = [OLDER, None]
                elif s == "torn+fresh":
                    offers = [OLDER, None] if FRESH + 600 + age <= DAY else [None]
                elif now is None or now + age > DAY:
                    offers = [None]
                else:
                    offers = cached
                if now is not None and abs(now + age - DAY) < 60:
                    offers = list(cached) + [None]
            got2 = check_once(net, second)
            judge(rec, f"{where}; {age} s later, network {second}", root, second, offers, got2, before=s)
            rec.state(s, n, age, second)
            left = {f for f in others if os.path.exists(os.path.join(root, ".spey", f))}
            rec.check(left == others, "removes-other-files", f"{where}: removed {others - left}")
            rec.sample(f"{where} -> {got}; {age} s later {second} -> {got2}")


def torn(case, rec):
    for n in range(case["lo"], case["hi"]):
        for answer in ("older", "connection"):
            with world() as (root, net):
                cached = make_state(root, f"torn|{n}")
                got = check_once(net, answer)
                judge(rec, f"cache torn after {n} characters, network {answer}", root, answer, cached, got, before="torn")
                rec.state(n, answer)


def fault(case, rec):
    s, n, kind = case["state"], case["net"], case["fault"]
    k = 0
    while True:
        with world() as (root, net):
            cached = make_state(root, s)
            if s == "two":  # both are fresh and complete
                cached = [NEWER, OLDER]
            fs = Files(root)
            fs.at, fs.kind = k, kind
            with fs.installed():
                got = check_once(net, n)
            where = f"cache {s}, network {n}, {kind} at operation {k} ({fs.log[k] if k < len(fs.log) else '-'})"
            if fs.n <= k:
                break
            rec.state(s, n, kind, k)
            if kind == "crash":
                rec.step()
                rec.check(got[0][0] == "crash", "swallows-crash", f"{where}: {got[0]}")
                rec.check(got[1] in ([], warnings_for(NEWER), warnings_for(OLDER)), "warning-or-request", f"{where}: warnings {got[1]}")
            else:
                judge(rec, where, root, n, cached, got, faulted=True, before=s)
            # the next check finds whatever is left behind
            left = [c for c in stored(root)]
            good = [c for c in left if isinstance(c, dict) and isinstance(c.get("info"), dict) and c["info"].get("version")]
            second = "same" if n == "newer" else "newer"
            if not good:
                offers = [None]
            else:
                fresh = []
                for f, c in zip(cache_files(root), left):
                    if c in good and time.time() - os.stat(os.path.join(root, ".spey", f)).st_mtime < DAY - 60:
                        fresh.append(c)
                offers = fresh or [None]
                if len(left) > 1:
                    offers = offers + [None]
            got2 = check_once(net, second)
            judge(rec, f"{where}; next check with network {second}", root, second, offers, got2, before=s)
            rec.sample(f"{where} -> {got}, then {got2}")
        k += 1
        if k > 200:
            rec.fail("does-not-end", f"{where}: more than 200 file-system operations")
            break
    rec.note("fault points", k)


def versions(case, rec):
    mods = [m for name, m in sorted(sys.modules.items()) if (name == "spey" or name.startswith("spey.")) and getattr(m, "__version__", None) == HERE]
    real_python = platform.python_version
    pythons = [platform.python_version()] + PYTHONS
    try:
        for m in mods:
            m.__version__ = case["local"]
        for remote in REMOTE:
            for req in PYREQ:
                for py in pythons:
                    for m in [platform] + [m for name, m in sys.modules.items() if name.startswith("spey") and hasattr(m, "python_version")]:
                        m.python_version = lambda: py
                    with world() as (root, net):
                        NETWORK["_"] = payload(remote, req)
                        want = warnings_for(NETWORK["_"], case["local"], py)
                        for round_ in (1, 2):  # asked, then cached
                            out, warned, calls = check_once(net, "_")
                            rec.step()
                            rec.trace()
                            rec.state(case["local"], remote, req, py, round_)
                            rec.outcome(tuple(want))
                            rec.check(out == ("value", None) and warned == want and calls == (1 if round_ == 1 else 0), "versions",
                                      f"spey {case['local']}, PyPI {remote} for python {req}, python {py}, check {round_}: {out}, warnings {warned}, expected {want}, {calls} requests")
    finally:
        NETWORK.pop("_", None)
        for m in mods:
            m.__version__ = HERE
        for m in [platform] + [m for name, m in sys.modules.items() if name.startswith("spey") and hasattr(m, "python_version")]:
            m.python_version = real_python


def race(case, rec):
    """Two processes check at the same time (their file-system operations interleave), a third one afterwards."""
    s, n = case["state"], case["net"]

    current = contextlib.ExitStack()

    def make():
        current.close()
        root, net = current.enter_context(world())
        cached = make_state(root, s)
        inner = current.enter_context(contextlib.ExitStack())
        inner.enter_context(Files(root).installed())
        inner.enter_context(clock(case["tick"]))
        h = inner.enter_context(logs())
        net.answer = n
        results = {}

        def body(i):
            def f(_point=None):
                try:
                    results[i] = ("value", spey.check_updates())
                except Exception as exc:  # noqa: BLE001
                    results[i] = ("raise", repr(exc))
            return f
        return [body(0), body(1)], (root, net, cached, inner, h, results)

    def check(x, w):
        root, net, cached, inner, h, results = w
        fails = len(rec.failures)
        try:
            warned = kinds_of(h.at(30))
            where = f"two processes, cache {s}, network {n}, schedule {x.choices}"
            inner.close()
            rec.step(2)
            rec.trace()
            rec.state(s, n, tuple(x.choices))
            rec.check(not x.deadlock and results == {0: ("value", None), 1: ("value", None)}, "raises", lambda: f"{where}: {results}")
            per = {tuple(warnings_for(NETWORK[n])) if n in VALID else ()} | {tuple(warnings_for(c)) for c in cached if c}
            ok = any(sorted(a + b) == sorted(warned) for a in per for b in per)
            rec.check(ok, "warning-or-request", lambda: f"{where}: warnings {warned}")
            rec.check(len(net.calls) <= 2, "warning-or-request", lambda: f"{where}: {len(net.calls)} requests")
            rec.outcome(tuple(sorted(warned)), len(net.calls), tuple(cache_files(root))[:0], len(cache_files(root)))
            if cached == [None]:
                rec.check(len(cache_files(root)) <= 1 or n not in VALID, "several-cache-files", lambda: f"{where}: {cache_files(root)}")
            # afterwards
            second = "same"
            content = [c for c in stored(root) if c]
            if s == "torn+old" and n not in VALID:
                content = []
            offers = [NETWORK[n]] if n in VALID and NETWORK[n] in content else ([c for c in cached] if cached != [None] else [None])
            got = check_once(net, second)
            judge(rec, f"{where}; third check", root, second, offers + ([None] if len(content) != 1 else []), got, before=s)
        finally:
            current.close()
        return len(rec.failures) > fails

    try:
        stats = sched.explore(make, check, lambda name: False, case["bound"], tuple(case["shard"]))
    finally:
        current.close()
    rec.note("schedules", stats["schedules"])
    rec.step(stats["points"])
    rec.sample(f"race {s} {n}: {stats}")


SCRIPT = """
import sys, json, logging, io, os
import requests
calls = []
class R:
    encoding = None
    status_code = 200
    text = %r
    ok = True
    def json(self, **k): return json.loads(self.text)
    def raise_for_status(self): pass
def get(url, *a, **k):
    calls.append(url)
    if %r: raise requests.ConnectionError('no')
    return R()
requests.get = get
import spey
print('RESULT', json.dumps({'calls': len(calls), 'version': spey.version()}))
"""


def spawn(env, net, home):
    a = NETWORK[net]
    text = json.dumps(a) if isinstance(a, dict) else (a if isinstance(a, str) else "")
    e = {k: v for k, v in os.environ.items() if not k.startswith("SPEY_")}
    e["HOME"] = home
    if env is not None:
        e["SPEY_CHECKUPDATE"] = env
    return subprocess.run([sys.executable, "-c", SCRIPT % (text, isinstance(a, Exception))], env=e, capture_output=True, text=True, timeout=120)


def imports(case, rec):
    root = tempfile.mkdtemp(prefix="mc_s02_")
    try:
        off = case["env"] is not None and case["env"].upper() == "OFF"
        for round_ in (1, 2):
            p = spawn(case["env"], case["net"], root)
            m = re.search(r"RESULT (.*)", p.stdout)
            where = f"import with SPEY_CHECKUPDATE={case['env']}, network {case['net']}, time {round_}"
            rec.step()
            rec.trace()
            rec.state(case["env"], case["net"], round_)
            if not rec.check(p.returncode == 0 and m, "import-fails", f"{where}: exit {p.returncode}\n{p.stderr[-800:]}"):
                continue
            calls = json.loads(m.group(1))["calls"]
            want = 0 if off else (1 if round_ == 1 or case["net"] not in VALID else 0)
            rec.check(calls == want, "import-requests", f"{where}: {calls} requests, expected {want}")
            want_w = warnings_for(NETWORK[case["net"]]) if case["net"] in VALID and not off else []
            got_w = [k for k, t in KIND if t in p.stdout.lower()]
            rec.check(sorted(got_w) == sorted(want_w), "import-warnings", f"{where}: printed {p.stdout!r}, expected {want_w}")
            files = cache_files(root)
            rec.check(len(files) == (1 if case["net"] in VALID and not off else 0), "import-cache", f"{where}: cache files {files}")
            rec.outcome(calls, tuple(got_w), len(files))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def import_home(case, rec):
    root = tempfile.mkdtemp(prefix="mc_s02_")
    try:
        home = {"missing": os.path.join(root, "no", "such"), "file": os.path.join(root, "f"), "cached": root}[case["home"]]
        if case["home"] == "file":
            with open(home, "w") as f:
                f.write("x")
        if case["home"] == "cached":
            make_state(root, "fresh|older")
        p = spawn("ON", "newer", home)
        rec.step()
        rec.trace()
        rec.state(case["home"])
        rec.outcome(p.returncode)
        m = re.search(r"RESULT (.*)", p.stdout)
        if rec.check(p.returncode == 0 and m, "import-fails", f"home {case['home']}: exit {p.returncode}\n{p.stderr[-800:]}"):
            calls = json.loads(m.group(1))["calls"]
            rec.check(calls == (0 if case["home"] == "cached" else 1), "import-requests", f"home {case['home']}: {calls} requests")
            want = warnings_for(OLDER if case["home"] == "cached" else NEWER)
            got = [k for k, t in KIND if t in p.stdout.lower()]
            rec.check(sorted(got) == sorted(want), "import-warnings", f"home {case['home']}: printed {p.stdout!r}, expected {want}")
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------------------ citations
ANSWERS = {
    "200": (200, "@article{key, title={A}}"), "201": (201, "@x{y}"), "299": (299, "@z{}"), "empty": (200, ""), "unicode": (200, "@a{é, ü}"),
    "199": (199, "no"), "300": (300, "no"), "404": (404, "no"), "429": (429, "no"), "500": (500, "no"),
    "connection": requests.ConnectionError("x"), "connect": requests.ConnectTimeout("x"), "read": requests.ReadTimeout("x"), "ssl": requests.exceptions.SSLError("x"),
    "proxy": requests.exceptions.ProxyError("x"), "url": requests.exceptions.InvalidURL("x"), "redirects": requests.TooManyRedirects("x"),
    "value": ValueError("x"), "unicodeerror": UnicodeDecodeError("utf8", b"", 0, 1, "x"), "memory": RuntimeError("x"),
}
OFFLINE = {"connection", "connect", "read", "ssl", "proxy"}
URLS = {"inspire/arxiv": "inspirehep.net/api/arxiv/", "inspire/doi": "inspirehep.net/api/doi/", "doi": "doi.org/", "zenodo": "zenodo.org/api/records/"}


def text_of(key):
    """('text', str) or 'offline'."""
    a = ANSWERS[key]
    if key in OFFLINE:
        return "offline"
    if isinstance(a, Exception) or not 200 <= a[0] <= 299:
        return ""
    return a[1]


@contextlib.contextmanager
def scripted(answers):
    """requests.get answers in turn; ``answers`` is a list of keys or a function of the URL."""
    calls = []

    def get(url, *a, **k):
        calls.append((url, k))
        key = answers(url) if callable(answers) else answers[min(len(calls), len(answers)) - 1]
        x = ANSWERS[key]
        if isinstance(x, Exception):
            raise x
        return Response(x[1], x[0])
    real = requests.get
    requests.get = get
    try:
        yield calls
    finally:
        requests.get = real


def bibtex(case, rec):
    for home in list(URLS) + ["nonsense"]:
        for ident in ("2307.06996", "10.1007/JHEP04(2019)064", "", "a b%c"):
            for key in ANSWERS:
                with scripted([key]) as calls:
                    try:
                        got = ("text", webutils.get_bibtex(home, ident))
                    except webutils.ConnectionError:
                        got = ("offline",)
                    except Exception as exc:  # noqa: BLE001
                        got = ("raise", repr(exc))
                rec.step()
                rec.trace()
                rec.state(home, ident, key)
                if home == "nonsense":
                    rec.check(got == ("text", ""), "bibtex", f"unknown source: {got}")
                    continue
                want = text_of(key)
                want = ("offline",) if want == "offline" else ("text", want)
                rec.outcome(want)
                rec.check(got == want, "bibtex", f"get_bibtex({home!r}, {ident!r}) with answer {key}: {got}, expected {want}")
                rec.check(len(calls) == 1 and calls[0][0].endswith(URLS[home] + ident), "bibtex-url", f"{home} {ident}: requested {calls}")
                rec.check(calls[0][1].get("headers", {}).get("accept") == "application/x-bibtex", "bibtex-url", f"{home}: requested {calls}")
                rec.check(calls[0][1].get("timeout") is not None, "bibtex-timeout", f"{home}: request without time limit")


def cite(case, rec):
    for a in ANSWERS:
        for b in list(ANSWERS) + ["software"]:
            ANSWERS["software"] = (200, "@software{araz_2023_1,\n  title = {araz_2023_1}}")
            try:
                with scripted([a, b]) as calls, logs() as h:
                    try:
                        got = spey.cite()
                    except Exception as exc:  # noqa: BLE001
                        got = exc
                ta, tb = text_of(a), text_of(b)
            finally:
                ANSWERS.pop("software")
            rec.step()
            rec.trace()
            rec.state(a, b)
            if "offline" in (ta, tb):
                rec.check(got == "" and len(h.at(40)) == 1, "cite", f"answers {a}, {b}: {got!r}, errors {h.at(40)}")
            else:
                want = tb.replace("araz_2023_1", "spey_zenodo")
                rec.check(isinstance(got, str) and ta in got and want in got and got.strip() == (ta + "\n\n" + want).strip(), "cite", f"answers {a}, {b}: {got!r}")
            rec.outcome(str(got)[:40])
            rec.check(len(calls) in (1, 2), "cite", f"{len(calls)} requests")


def backend_bibtex(case, rec):
    """All answers to the requests for a backend with the given numbers of identifiers."""
    ids = {"arXiv": [f"1{i}.1" for i in range(case["arxiv"])], "doi": [f"10.{i}/x" for i in range(case["doi"])], "zenodo": [f"7{i}" for i in range(case["zenodo"])]}
    name = f"mc.cite.{case['arxiv']}{case['doi']}{case['zenodo']}"
    cls = type("Cited", (spey.BackendBase,), {"name": name, "spey_requires": ">=0.0.1", "config": None, "get_logpdf_func": None, "is_alive": True, **ids})
    if name not in spey.AvailableBackends():
        spey.register_backend(cls)
    slots = [("inspire/arxiv", x) for x in ids["arXiv"]]
    for x in ids["doi"]:
        slots += [("inspire/doi", x), ("doi", x)]
    slots += [("zenodo", x) for x in ids["zenodo"]]
    for combo in itertools.product(("200", "404", "connection", "value"), repeat=len(slots)):
        table = {URLS[h] + i: key for (h, i), key in zip(slots, combo)}

        def answer(url):
            # "doi.org/" also ends the URL of nothing else: longest match first
            hits = [k for k in table if url.endswith("/" + k) or url.endswith(k)]
            return table[max(hits, key=len)]
        want = {"inspire": [], "doi.org": [], "zenodo": []}
        good = ANSWERS["200"][1]
        i = 0
        offline = False
        while i < len(slots):
            home, ident = slots[i]
            t = text_of(table[URLS[home] + ident])
            if t == "offline":
                offline = True
                break
            if home == "inspire/doi":
                if t:
                    want["inspire"].append(good)
                else:
                    t2 = text_of(table[URLS["doi"] + ident])
                    if t2 == "offline":
                        offline = True
                        break
                    if t2:
                        want["doi.org"].append(good)
                i += 2
                continue
            if t:
                want["inspire" if home == "inspire/arxiv" else "zenodo"].append(good)
            i += 1
        with scripted(answer), logs() as h:
            try:
                got = spey.get_backend_bibtex(name)
                got = {k: [x.strip() for x in v] for k, v in got.items()}
            except Exception as exc:  # noqa: BLE001
                got = repr(exc)
        rec.step()
        rec.trace()
        rec.state(name, combo)
        rec.outcome(str(want), offline)
        rec.check(got == want, "backend-bibtex", f"{slots} answered {combo}: {got}, expected {want}")
        rec.check(bool(h.at(40)) == offline, "backend-bibtex-error", f"{slots} answered {combo}: errors logged {h.at(40)}")
