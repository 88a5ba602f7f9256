"""
Runner of the checks.

A check is a module ``checks/<ID>.py`` with

* ``cases(tier)``: the complete, finite list of JSON-serialisable case descriptors that make up the
  bounded space (a case usually stands for a whole sub-space which ``run`` enumerates);
* ``run(case, rec)``: executes the case on the real code and compares with the oracle.

Every case runs in a worker process; nothing is sampled and nothing is skipped: a case that raises or
does not finish is a violation, since neither ever happens on a tree where the property holds.
"""
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPEY_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CASE_TIMEOUT = int(os.environ.get("MC_CASE_TIMEOUT", "240"))
MAX_REPORT = 12
STOP_AFTER = int(os.environ.get("MC_STOP", "25"))  # violating cases
STOP_TIME = 300  # seconds, once there is a violation
SCHEDULED = ("C02",)  # checks that run the code under test under the controlled scheduler


class CaseTimeout(BaseException):
    """The case did not come to an end."""


def digest(obj) -> bytes:
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Recorder:
    """Collects what one worker covered and the violations it saw."""

    def __init__(self, case=None, keep_samples=2):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.failures = []
        self.samples = []
        self.outcomes = set()
        self.notes = {}
        self._keep = keep_samples

    def state(self, *key):
        """A distinct state (or input) of the explored space, identified by its canonical form."""
        self.states.add(digest(key))

    def step(self, n=1):
        """Operations executed on the real implementation."""
        self.transitions += n

    def trace(self, n=1):
        """A complete execution on the implementation that was compared with the oracle."""
        self.traces += n

    def outcome(self, *key):
        """A distinct observed outcome (shows that the exploration is not vacuous)."""
        if len(self.outcomes) < 100000:
            self.outcomes.add(digest(key))

    def sample(self, text):
        if len(self.samples) < self._keep:
            self.samples.append(str(text)[:400])

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, key, message, detail=None):
        if len(self.failures) < 50:
            self.failures.append(
                {"key": key, "message": str(message)[:3000], "case": self.case, "detail": detail}
            )

    def check(self, cond, key, message="", detail=None):
        try:
            ok = bool(cond)
        except Exception as exc:  # e.g. the truth value of a malformed result
            self.fail(key, f"{message} [{exc!r}]", detail)
            return False
        if not ok:
            self.fail(key, message() if callable(message) else message, detail)
        return ok

    def merge(self, other):
        self.states |= other["states"]
        self.transitions += other["transitions"]
        self.traces += other["traces"]
        self.failures += other["failures"]
        self.outcomes |= other["outcomes"]
        if len(self.samples) < 6:
            self.samples += other["samples"][:1]
        for k, v in other["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + v

    def dump(self):
        return {
            "states": self.states, "transitions": self.transitions, "traces": self.traces,
            "failures": self.failures, "outcomes": self.outcomes, "samples": self.samples,
            "notes": self.notes,
        }


def _alarm(signum, frame):
    raise CaseTimeout()


def quiet():
    """Silence logging and warnings of the code under test (checks about them undo this)."""
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    logging.getLogger("Spey").setLevel(logging.CRITICAL + 1)


def run_case(module, case):
    rec = Recorder(case)
    limit = getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        quiet()
        module.run(case, rec)
    except CaseTimeout:
        rec.fail("does-not-finish", f"case did not finish within {limit} s\n{traceback.format_exc()[-1500:]}")
    except BaseException as exc:  # noqa: BLE001
        if isinstance(exc, KeyboardInterrupt):
            raise
        rec.fail("unexpected-exception", f"{exc!r}\n{traceback.format_exc()[-2500:]}")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return rec.dump()


_MODULE = None


def _work(batch):
    return [run_case(_MODULE, case) for case in batch]


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_STDERR"):
        os.dup2(devnull, 2)


def load_known():
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    parts = dict(p.split("=", 1) for p in line[9:].split(" ", 2)[:2])
                    known[(parts["property"], parts["key"])] = line.split(" ", 3)[3]
    return known


def import_spey():
    sys.path.insert(0, SRC)
    import spey
    if not os.path.abspath(spey.__file__).startswith(os.path.abspath(SRC) + os.sep):
        raise SystemExit(f"spey imported from {spey.__file__}, not from {SRC}")
    return spey


def main(argv):
    global _MODULE
    pid = argv[1]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2 and argv[2] in ("quick", "thorough"):
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    start = time.time()

    # nothing the code under test does with the home directory reaches the real one
    home = tempfile.mkdtemp(prefix="mc-home-")
    os.environ["HOME"] = home
    code = 2
    try:
        code = _main(pid, tier, seed, replay, start)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    return code


def _main(pid, tier, seed, replay, start):
    global _MODULE
    if pid in SCHEDULED:
        from mc import sched
        sched.install()
    import_spey()
    _MODULE = importlib.import_module(f"checks.{pid}")
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        out = run_case(_MODULE, rep["case"])
        for fl in out["failures"]:
            print(f"[{fl['key']}] {fl['message']}")
        if out["failures"]:
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("replay: no violation")
        return 0

    cases = list(_MODULE.cases(tier))
    only = os.environ.get("MC_ONLY")  # development aid: a subset of the cases (evidence is then not written)
    if only:
        cases = [c for c in cases if only in json.dumps(c, default=str)]
    # the order carries no meaning; the seed only changes which worker gets what
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)
    share = int(os.environ.get("MC_SHARE", "1"))  # development aid, as MC_ONLY
    order = order[::share]
    weights = getattr(_MODULE, "weight", None)
    if weights:
        order.sort(key=lambda i: -weights(cases[i]))
    total = Recorder()
    jobs = int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    import concurrent.futures as cf
    known = load_known()
    chunk = getattr(_MODULE, "CHUNK", 1)
    batches = [[cases[i] for i in order[k:k + chunk]] for k in range(0, len(order), chunk)]
    complete, bad = True, 0
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker) as pool:
        todo = [pool.submit(_work, b) for b in batches]
        try:
            for fut in cf.as_completed(todo):
                for res in fut.result():
                    total.merge(res)
                    bad += any((pid, fl["key"]) not in known for fl in res["failures"])
                # once the verdict is clear the rest of the space need not be explored
                if bad >= STOP_AFTER or (bad and time.time() - start > STOP_TIME):
                    complete = False
                    for f in todo:
                        f.cancel()
                    for p in list((pool._processes or {}).values()):
                        p.kill()
                    break
        except cf.process.BrokenProcessPool as exc:
            complete = False
            total.fail("worker-died", f"a worker process died: {exc!r}")
    if not complete and not total.failures:
        raise SystemExit(2)

    seen, reported, nviol = set(), 0, 0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    # the shortest counterexamples first, independent of the order of the workers
    total.failures.sort(key=lambda fl: (len(fl["message"]), fl["key"], repr(fl["case"])))
    for fl in total.failures:
        if (pid, fl["key"]) in known:
            if fl["key"] not in seen:
                print(f"KNOWN-FINDING: property={pid} {known[(pid, fl['key'])]}")
            seen.add(fl["key"])
            continue
        nviol += 1
        if reported < MAX_REPORT:
            path = os.path.join(ROOT, "replays", f"{pid}-{reported}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, **fl}, f, indent=1, default=str)
            print(f"[{fl['key']}] case={json.dumps(fl['case'], default=str)[:300]}\n    {fl['message']}")
            print(f"VIOLATION property={pid} replay={path}")
            reported += 1

    info = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(_MODULE, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(total.states),
            "transitions": total.transitions,
            "traces_validated_against_impl": total.traces,
            "samples": total.samples[:6] or ["none"],
            "cases": len(cases),
            "distinct_outcomes": len(total.outcomes),
            "exhaustive": complete,
            "bounds": getattr(_MODULE, "BOUNDS", {}).get(tier, ""),
            **{k: v for k, v in sorted(total.notes.items())},
        },
        "assumptions": list(getattr(_MODULE, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - start, 2),
        "violations": nviol,
    }
    if not only and share == 1:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(info, f, indent=1)
    print(
        f"{pid} [{tier}]: {len(cases)} cases, {len(total.states)} states, {total.transitions} transitions, "
        f"{total.traces} executions compared, {len(total.outcomes)} distinct outcomes, "
        f"{nviol} violations, {info['wall_s']} s {total.notes or ''}"
    )
    return 1 if nviol else 0
