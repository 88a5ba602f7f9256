"""Replace an object wherever modules of the code under test hold a reference to it."""
import contextlib
import logging
import sys


@contextlib.contextmanager
def everywhere(owner, name, fake):
    """``owner.name`` and every module-level name of spey bound to it become ``fake``."""
    original = getattr(owner, name)
    undo = [(owner, name)]
    setattr(owner, name, fake)
    for mname, mod in list(sys.modules.items()):
        if mname == "spey" or mname.startswith("spey."):
            for k, v in list(vars(mod).items()):
                if v is original:
                    undo.append((mod, k))
                    setattr(mod, k, fake)
    try:
        yield original
    finally:
        for o, k in undo:
            setattr(o, k, original)
        for mname, mod in list(sys.modules.items()):  # modules imported meanwhile
            if mname == "spey" or mname.startswith("spey."):
                for k, v in list(vars(mod).items()):
                    if v is fake:
                        setattr(mod, k, original)


class _Collect(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def at(self, level):
        return [r.getMessage() for r in self.records if r.levelno >= level]


@contextlib.contextmanager
def logs(level=logging.WARNING, name="Spey"):
    """Collect what the code under test logs."""
    log = logging.getLogger(name)
    h = _Collect()
    old, prop, handlers = log.level, log.propagate, log.handlers[:]
    log.handlers[:] = [h]
    log.setLevel(level)
    log.propagate = False
    try:
        yield h
    finally:
        log.handlers[:] = handlers
        log.setLevel(old)
        log.propagate = prop
