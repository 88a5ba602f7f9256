"""S01: all histories of registrations, lookups and resets against a dictionary that records what was registered."""
import importlib
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import textwrap
import traceback

import numpy as np

import spey
from mc import zoo
from spey.base.model_config import ModelConfig

BOUNDS = {
    "quick": "all histories of up to 2 operations out of 47 (register 22 classes, 8 installed plugins + rescan, look-ups, rescan, later changes of metadata), each in its own "
             "process and followed by a complete probe; all of 3 operations starting with each of 6 registrations",
    "thorough": "all histories of up to 3 operations",
}
ASSUMPTIONS = ["a name is not both registered locally and provided by a plugin installed later"]

VER = spey.version()
DEFAULT = ["default." + x for x in ("correlated_background", "effective_sigma", "multivariate_normal", "normal", "poisson",
                                    "third_moment_expansion", "uncorrelated_background")]


class _Base(spey.BackendBase):
    """Counts one bin; the arguments are kept."""

    def __init__(self, *args, **kwargs):
        self.given = (args, kwargs)

    @property
    def is_alive(self):
        return True

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(0, 0.0, [1.0], [(0.0, poi_upper_bound)])

    def get_logpdf_func(self, expected=spey.ExpectationType.observed, data=None):
        return lambda pars: -0.5 * (pars[0] - 1.0) ** 2


def backend(base=_Base, **meta):
    return type("Backend", (base,), {"__doc__": meta.pop("doc", None), **meta})


def converter(**meta):
    class Conv(spey.ConverterBase):
        def __call__(self, *args, **kwargs):
            return type("Made", (_Base,), {"maker": type(self)})(*args, **kwargs)
    return type("Converter", (Conv,), meta)


class NotABackend:
    name = "loc.plain"
    spey_requires = ">=0.1.0"


def classes():
    """Fresh classes of one history: key -> (class, what registering it must do)."""
    A = backend(name="loc.a", spey_requires=">=0.1.0", author="Ann", version="1.2", doi=["10.1/a"], arXiv=["1.1"], zenodo=["7"], doc="Ann's model")
    out = {
        "A": (A, "ok"),
        "A2": (backend(name="loc.a", spey_requires=">=0.0.1", author="Other"), "ok"),
        "B": (backend(name="loc.b", spey_requires=f"=={VER}", version="3", doi=["10.1/b", "10.2/b"]), "ok"),
        "subA": (backend(A, author="Sub"), "ok"),  # inherits the name
        "subB": (backend(A, name="loc.sub"), "ok"),  # own name, inherits the citations
        "range": (backend(name="loc.range", spey_requires=">=0.1.0,<100.0.0"), "ok"),
        "upper": (backend(name="LOC.A", spey_requires=">=0.1.0"), "ok"),  # names are case sensitive
        "unknown": (backend(name="__unknown_model__", spey_requires=">=0.1.0"), "ok"),
        "default": (backend(name="default.poisson", spey_requires=">=0.1.0"), "dup"),
        "default2": (backend(name="default.uncorrelated_background", spey_requires=">=99.0.0"), ("dup", "version")),
        "noname": (backend(spey_requires=">=0.1.0"), "meta"),
        "noreq": (backend(name="loc.noreq"), "meta"),
        "nothing": (backend(), "meta"),
        "none": (backend(name=None, spey_requires=">=0.1.0"), "meta"),
        "empty": (backend(name="", spey_requires=">=0.1.0"), "meta"),
        "new": (backend(name="loc.new", spey_requires=">=99.0.0"), "version"),
        "old": (backend(name="loc.old", spey_requires="<0.0.2"), "version"),
        "notthis": (backend(name="loc.notthis", spey_requires=f"!={VER}"), "version"),
        "abstract": (type("Abs", (spey.BackendBase,), {"name": "loc.abs", "spey_requires": ">=0.1.0", "is_alive": True}), "abstract"),
        "conv": (converter(name="loc.conv", spey_requires=">=0.1.0", author="Con"), "ok"),
        "plain": (NotABackend, "type"),
        "object": ("loc.string", "type"),
    }
    return out


ERR = {"dup": ("ValueError",), "meta": ("MissingMetaData",), "version": ("PluginError",), "abstract": ("AbstractModel",), "type": ("AssertionError", "TypeError")}

PLUGINS = {
    # key: (entry-point name, class body or None, expectation)
    "good": ("ext.good", "name='ext.good'; spey_requires='>=0.1.0'; author='Ext'; arXiv=['9.9']", "ok"),
    "nameless": ("ext.nameless", "spey_requires='>=0.1.0'; version='4'", "ok"),
    "wrongname": ("ext.wrongname", "name='ext.other'; spey_requires='>=0.1.0'", "AssertionError"),
    "noreq": ("ext.noreq", "name='ext.noreq'", "AssertionError"),
    "new": ("ext.new", "name='ext.new'; spey_requires='>=99.0.0'", "PluginError"),
    "abstract": ("ext.abstract", "name='ext.abstract'; spey_requires='>=0.1.0'; get_logpdf_func=spey.BackendBase.get_logpdf_func", "AbstractModel"),
    "conv": ("ext.conv", "name='ext.conv'; spey_requires='>=0.1.0'", "conv"),
    "broken": ("ext.broken", None, "any"),
}

REG = list(classes())
OPS = ([("register", k) for k in REG] + [("install", k) for k in PLUGINS]
       + [("get", n) for n in ("loc.a", "default.poisson", "ext.nameless", "nope")]
       + [("meta", n) for n in ("loc.a", "default.normal", "nope")]
       + [("reset", ""), ("list", ""), ("probe", "")]
       + [("mutate", k) for k in ("A-requires", "A-name", "A-author", "list", "metadata", "B-doi", "conv-requires")])
FIRST3 = ["A", "B", "subB", "conv", "unknown", "upper"]


def cases(tier):
    out = []
    if tier == "quick":
        pre = [[]] + [[i] for i in range(len(OPS))]
        for p in pre:
            out.append({"prefix": p, "more": 1})
        for k in FIRST3:
            for j in range(len(OPS)):
                out.append({"prefix": [REG.index(k), j], "more": 1})
    else:
        out.append({"prefix": [], "more": 1})
        out += [{"prefix": [i], "more": 1} for i in range(len(OPS))]
        out += [{"prefix": [i, j], "more": 1} for i in range(len(OPS)) for j in range(len(OPS))]
    return out


def weight(case):
    return len(case["prefix"])


# ---------------------------------------------------------------------------------------- network
class Answer:
    def __init__(self, url):
        self.status_code, self.text, self.encoding = 200, f"@entry{{{url}}}", None
        self.url = url
        if "inspirehep.net/api/doi/10.2" in url:  # unknown to Inspire
            self.status_code = 404


def fake_get(url, *args, **kwargs):
    return Answer(url)


def expected_bibtex(meta):
    out = {"inspire": [], "doi.org": [], "zenodo": []}
    for x in meta["arXiv"]:
        out["inspire"].append(f"@entry{{https://inspirehep.net/api/arxiv/{x}}}")
    for x in meta["doi"]:
        if x.startswith("10.2"):
            out["doi.org"].append(f"@entry{{https://doi.org/{x}}}")
        else:
            out["inspire"].append(f"@entry{{https://inspirehep.net/api/doi/{x}}}")
    for x in meta["zenodo"]:
        out["zenodo"].append(f"@entry{{https://zenodo.org/api/records/{x}}}")
    return out


# --------------------------------------------------------------------------------------- execution
class History:
    def __init__(self, scratch):
        self.cls = classes()
        self.model = {n: None for n in DEFAULT}  # name -> ("local", class) | ("plugin", key) | None for the defaults
        self.installed = {}  # key -> visible?
        self.problems = []
        self.scratch = scratch
        self.steps = 0
        self.renamed = None

    def bad(self, key, msg):
        self.problems.append((key, msg))

    def attempt(self, f, *a):
        self.steps += 1
        try:
            return "value", f(*a)
        except Exception as exc:  # noqa: BLE001
            return "raise", exc

    # ---- operations
    def register(self, key):
        c, what = self.cls[key]
        kind, val = self.attempt(spey.register_backend, c)
        name = getattr(c, "name", None)
        if what == "ok" and name in self.model:
            what = "dup"
        req = getattr(c, "spey_requires", "")
        if what == "ok" and req == ">=99.0.0":
            what = "version"
        if what == "ok":
            if kind == "raise":
                self.bad("register-rejects-valid", f"registering {key} ({name}) raised {val!r}")
            elif val is not c:
                self.bad("register-return", f"registering {key} returned {val!r}, not the class")
            self.model[name] = ("local", c)
        else:
            kinds = (what,) if isinstance(what, str) else what
            allowed = sum((ERR[k] for k in kinds), ())
            if kind == "value":
                self.bad("register-accepts-invalid", f"registering {key} ({name}) was accepted, expected {allowed}")
            elif type(val).__name__ not in allowed:
                self.bad("register-error", f"registering {key} ({name}) raised {val!r}, expected {allowed}")

    def install(self, key):
        name, body, _ = PLUGINS[key]
        mod = f"mc_plugin_{key}"
        d = os.path.join(self.scratch, key)
        if not os.path.isdir(d):
            os.makedirs(os.path.join(d, f"{mod}-1.0.dist-info"))
            with open(os.path.join(d, f"{mod}-1.0.dist-info", "METADATA"), "w") as f:
                f.write(f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.0\n")
            with open(os.path.join(d, f"{mod}-1.0.dist-info", "entry_points.txt"), "w") as f:
                f.write(f"[spey.backend.plugins]\n{name} = {mod}:Plugin\n")
            with open(os.path.join(d, f"{mod}.py"), "w") as f:
                if body is None:
                    f.write("raise RuntimeError('cannot be imported')\n")
                elif key == "conv":
                    f.write(f"import spey\nfrom checks.S01 import _Base\nclass Plugin(spey.ConverterBase):\n    {body}\n"
                            "    def __call__(self, *a, **k):\n        return type('Made', (_Base,), {'maker': type(self)})(*a, **k)\n")
                else:
                    f.write(f"import spey\nfrom checks.S01 import _Base\nclass Plugin({'_Base' if key != 'abstract' else 'spey.BackendBase'}):\n    {body}\n")
            sys.path.insert(0, d)
            importlib.invalidate_caches()
        if f"plugin:{key}" not in self.installed:
            self.installed[f"plugin:{key}"] = False
        self.reset()

    def reset(self):
        kind, val = self.attempt(spey.reset_backend_entries)
        if kind == "raise":
            self.bad("reset-raises", f"reset_backend_entries raised {val!r}")
        for k in self.installed:
            key = k.split(":")[1]
            self.model[PLUGINS[key][0]] = ("plugin", key)

    def mutate(self, what):
        if what == "A-requires":
            self.cls["A"][0].spey_requires = ">=99.0.0"
        elif what == "A-name":
            self.renamed = "loc.a" if self.cls["A"][0].name == "loc.a" and self.model.get("loc.a", (0, 0))[1] is self.cls["A"][0] else self.renamed
            if self.renamed:
                self.cls["A"][0].name = "loc.renamed"
        elif what == "A-author":
            self.cls["A"][0].author = "Changed"
        elif what == "B-doi":
            self.cls["B"][0].doi.append("10.2/late")
        elif what == "conv-requires":
            self.cls["conv"][0].spey_requires = ">=99.0.0"
        elif what == "list":
            x = spey.AvailableBackends()
            x.clear()
        elif what == "metadata":
            for n in list(self.model):
                if self.model[n] is None or self.model[n][0] == "local":
                    m = spey.get_backend_metadata(n)
                    m["doi"].append("10.1/intruder")
                    m["arXiv"].append("666")
                    m["name"] = "intruder"

    def do(self, op):
        kind, arg = op
        if kind in ("register", "install", "mutate"):
            getattr(self, kind)(arg)
        elif kind == "get":
            self.look(arg)
        elif kind == "meta":
            self.metadata(arg)
        elif kind == "reset":
            self.reset()
        elif kind == "list":
            self.list()
        elif kind == "probe":
            self.probe()

    # ---- observations
    def list(self):
        kind, val = self.attempt(spey.AvailableBackends)
        if kind == "raise" or sorted(map(str, val)) != sorted(self.model):
            self.bad("list", f"AvailableBackends() gave {val!r}, registered are {sorted(self.model)}")

    def required(self, name):
        """(expected error or None, class or None, converter?)"""
        if name not in self.model:
            return ("PluginError",), None, False
        entry = self.model[name]
        if entry is None:
            return None, None, False
        if entry[0] == "plugin":
            want = PLUGINS[entry[1]][2]
            if want in ("ok", "conv"):
                return None, None, want == "conv"
            return (None if want == "any" else (want,)) or ("*",), None, False
        c = entry[1]
        if c.name != name:
            return ("AssertionError",), None, False
        if c.spey_requires == ">=99.0.0":
            return ("PluginError",), None, False
        return None, c, issubclass(c, spey.ConverterBase)

    def look(self, name):
        errs, cls, conv = self.required(name)
        kind, val = self.attempt(spey.get_backend, name)
        if errs:
            if kind == "value":
                self.bad("get-accepts-invalid", f"get_backend({name!r}) returned {val!r}, expected {errs}")
            elif "*" not in errs and type(val).__name__ not in errs:
                self.bad("get-error", f"get_backend({name!r}) raised {val!r}, expected {errs}")
            return
        if kind == "raise":
            self.bad("get-rejects-valid", f"get_backend({name!r}) raised {val!r}")
            return
        if name.startswith("default."):
            args, kwargs = DEFAULT_ARGS[name]
        else:
            args, kwargs = (3, "x"), {"flag": 4.5}
        kind, m = self.attempt(lambda: val(*args, analysis="hist", xsection=0.25, ntoys=7, **kwargs))
        if kind == "raise":
            self.bad("construct", f"constructing {name} through get_backend raised {m!r}")
            return
        ok = isinstance(m, spey.StatisticalModel) and m.analysis == "hist" and m.xsection == 0.25 and m.ntoys == 7
        if not ok:
            self.bad("construct", f"{name}: analysis/xsection/ntoys not passed on: {m!r}")
            return
        b = m.backend
        if name.startswith("default."):
            want = DEFAULT_CLASS[name]
            if type(b).__name__ != want or not type(b).__module__.startswith("spey.backends."):
                self.bad("get-wrong-class", f"get_backend({name!r}) built a {type(b)}, expected {want}")
            return
        if getattr(b, "given", None) != (args, kwargs):
            self.bad("construct", f"{name}: backend arguments {getattr(b, 'given', None)} instead of {(args, kwargs)}")
        maker = getattr(b, "maker", None) if conv else type(b)
        if cls is None:
            key = self.model[name][1]
            if maker is None or maker.__module__ != f"mc_plugin_{key}" or maker.__name__ != "Plugin":
                self.bad("get-wrong-class", f"get_backend({name!r}) built {maker}, expected the class of plugin {key}")
            elif getattr(maker, "name", None) != name:
                self.bad("get-name", f"{name}: the class is named {getattr(maker, 'name', None)!r}")
        elif maker is not cls:
            self.bad("get-wrong-class", f"get_backend({name!r}) built {maker}, registered was {cls}")

    def metadata(self, name):
        kind, val = self.attempt(spey.get_backend_metadata, name)
        if name not in self.model:
            if kind == "value" or type(val).__name__ != "PluginError":
                self.bad("meta-unknown", f"get_backend_metadata({name!r}) gave {val!r}, expected PluginError")
            return
        entry = self.model[name]
        if entry is None:
            want = DEFAULT_META[name]
        elif entry[0] == "local":
            c = entry[1]
            want = {"name": c.name, "author": getattr(c, "author", "__unknown_author__"), "version": getattr(c, "version", "__unknown_version__"),
                    "spey_requires": c.spey_requires, **{k: list(getattr(c, k, [])) for k in ("doi", "arXiv", "zenodo")}}
        else:
            key = entry[1]
            if key in ("broken", "noreq"):
                return
            ns = {}
            exec(PLUGINS[key][1].split("; get_logpdf")[0], ns)  # noqa: S102
            names = (ns.get("name", "__unknown_model__"),) + ((name,) if "name" not in ns else ())
            if kind == "value" and val.get("name") not in names:
                self.bad("meta", f"metadata of {name}: name {val.get('name')!r}")
            want = {"name": val.get("name") if kind == "value" else None, "author": ns.get("author", "__unknown_author__"),
                    "version": ns.get("version", "__unknown_version__"), "spey_requires": ns.get("spey_requires"),
                    **{k: ns.get(k, []) for k in ("doi", "arXiv", "zenodo")}}
        if kind == "raise" or val != want:
            self.bad("meta", f"metadata of {name}: {val!r}, expected {want!r}")
            return
        kind, val = self.attempt(spey.get_backend_bibtex, name)
        got = {k: [x.strip() for x in v] for k, v in val.items()} if kind == "value" else repr(val)
        if got != expected_bibtex(want):
            self.bad("bibtex", f"citations of {name}: {got!r}, expected {expected_bibtex(want)!r}")

    def probe(self):
        self.list()
        for n in list(self.model) + ["nope", "loc.a", "loc.noreq", "loc.new", "loc.abs", "loc.plain", "", "default", "Default.poisson"]:
            self.look(n)
            self.metadata(n)
        kind, val = self.attempt(spey.get_backend_bibtex, "nope")
        if kind == "value" or type(val).__name__ != "PluginError":
            self.bad("bibtex-unknown", f"get_backend_bibtex of an unknown backend gave {val!r}")
        self.list()


DEFAULT_CLASS = {
    "default.correlated_background": "CorrelatedBackground", "default.effective_sigma": "EffectiveSigma",
    "default.multivariate_normal": "MultivariateNormal", "default.normal": "Gaussian", "default.poisson": "Poisson",
    "default.third_moment_expansion": "ThirdMomentExpansion", "default.uncorrelated_background": "UncorrelatedBackground",
}
ONE = {"signal_yields": [1.0], "background_yields": [2.0], "data": [2]}
DEFAULT_ARGS = {
    "default.correlated_background": ((), {**ONE, "covariance_matrix": [[1.0]]}),
    "default.effective_sigma": ((), {**ONE, "absolute_uncertainty_envelops": [(1.0, 1.5)], "correlation_matrix": [[1.0]]}),
    "default.multivariate_normal": ((), {**ONE, "covariance_matrix": [[1.0]]}),
    "default.normal": ((), {**ONE, "absolute_uncertainties": [1.0]}),
    "default.poisson": ((), ONE),
    "default.third_moment_expansion": ((), {**ONE, "covariance_matrix": [[1.0]], "third_moment": [0.2]}),
    "default.uncorrelated_background": ((), {**ONE, "absolute_uncertainties": [1.0]}),
}
DEFAULT_META = {}


def execute(ops):
    """Run one history in a child process; returns its problems."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        scratch = tempfile.mkdtemp(prefix="mc_s01_")
        try:
            os.close(r)
            import requests
            requests.get = fake_get
            sys.path_importer_cache.clear()
            h = History(scratch)
            for op in ops:
                h.do(op)
            h.probe()
            out = (h.steps, h.problems)
        except BaseException:  # noqa: BLE001
            out = (0, [("harness", traceback.format_exc()[-1500:])])
        try:
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            shutil.rmtree(scratch, ignore_errors=True)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (0, [("crash", "the history ended the process")])


def run(case, rec):
    if not DEFAULT_META:
        for n in DEFAULT:
            c = type(spey.get_backend(n)(*DEFAULT_ARGS[n][0], **DEFAULT_ARGS[n][1]).backend)
            DEFAULT_META[n] = {k: getattr(c, k) for k in ("name", "author", "version", "spey_requires")}
            DEFAULT_META[n].update({k: list(getattr(c, k, [])) for k in ("doi", "arXiv", "zenodo")})
            rec.check(c.name == n, "meta", f"the class behind {n} is named {c.name}")
    prefix = [OPS[i] for i in case["prefix"]]
    histories = [prefix] if not prefix else []
    histories += [prefix + [op] for op in OPS]
    if not case["prefix"]:
        histories = [[]]
    for ops in histories:
        steps, problems = execute(ops)
        rec.step(steps)
        rec.trace()
        rec.state(tuple(ops))
        rec.outcome(tuple(ops)[-1:], steps)
        rec.sample(" ; ".join(f"{a} {b}" for a, b in ops) + f" -> {steps} calls")
        for key, msg in problems[:3]:
            rec.fail(key, f"after {' ; '.join(f'{a} {b}' for a, b in ops)}: {msg}", ops)
