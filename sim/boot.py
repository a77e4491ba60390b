"""Process set-up, restart of the package under test, and the environment seams.

Everything that the code under test can observe of the outside world and that a
property depends on is replaced here by something the simulator decides: git
(``subprocess.Popen``), the clock tqdm reads, the terminal (``sys.stderr``) and
the disk (see ``simfs``).  Nothing in /repo is changed; the package is imported
from the working tree.
"""
import datetime
import importlib
import io
import logging
import os
import sys
import threading
import time
import types
import warnings

from .simgit import NoGit

REPO = os.environ.get("OTLM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "openscm_twolayermodel"

sys.dont_write_bytecode = True
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import pint  # noqa: E402
import pandas as pd  # noqa: E402
import subprocess  # noqa: E402
import tqdm  # noqa: E402
import tqdm.std  # noqa: E402
from openscm_units import unit_registry as ur  # noqa: E402
from scmdata.run import ScmRun  # noqa: E402

np.seterr(all="ignore")
# library chatter (e.g. "Filtered ScmRun is empty!" with a stack dump) is not observed
logging.disable(logging.CRITICAL)
# no monitor thread: it reads the real clock
tqdm.tqdm.monitor_interval = 0

_real_popen = subprocess.Popen

# The unit registry remembers conversions in the order in which they were first asked for,
# and the order changes the last digit of a factor.  Every run starts from the same memory.
_UNIT_MEMORY = [(vars(ur._cache), k, v) for k, v in vars(ur._cache).items() if isinstance(v, dict)]
_UNIT_MEMORY.append((vars(ur), "_base_units_cache", ur._base_units_cache))
_UNIT_MEMORY = [(v, dict(v)) for _, _, v in _UNIT_MEMORY]


def fresh_process():
    """Forget what an earlier run left behind in the libraries."""
    # tqdm keeps its lock if the terminal fails while it draws
    tqdm.tqdm.set_lock(threading.RLock())
    getattr(tqdm.tqdm, "_instances", set()).clear()
    for live, saved in _UNIT_MEMORY:
        live.clear()
        live.update(saved)


class SimClock:
    """The only clock the progress display sees."""

    def __init__(self):
        self.now = 1.0e9
        self.script = []  # list of increments, used up one per reading
        self.reads = 0

    def time(self):
        self.reads += 1
        if self.script:
            self.now += self.script.pop(0)
        else:
            self.now += 0.001
        return self.now


CLOCK = SimClock()
tqdm.std.time = CLOCK.time
if hasattr(tqdm.std, "time") is False:  # pragma: no cover
    raise RuntimeError("tqdm clock seam missing")


# What the package itself could read of the clock, should it come to.  In force while a
# simulated run lasts (``install_clock``); the simulator's own use of the clock is elsewhere.
_CLOCK_NAMES = ("time", "monotonic", "perf_counter", "process_time")
_REAL_CLOCK = {k: getattr(time, k) for k in _CLOCK_NAMES}
_REAL_CLOCK.update({k + "_ns": getattr(time, k + "_ns") for k in _CLOCK_NAMES})
_REAL_CLOCK["sleep"] = time.sleep


def _sim_ns():
    return int(CLOCK.time() * 1e9)


def _sim_sleep(seconds):
    CLOCK.now += seconds


def install_clock():
    for k in _CLOCK_NAMES:
        setattr(time, k, CLOCK.time)
        setattr(time, k + "_ns", _sim_ns)
    time.sleep = _sim_sleep


def restore_clock():
    for k, f in _REAL_CLOCK.items():
        setattr(time, k, f)


class _SimDatetimeType(type(datetime.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, datetime.datetime)


class _SimDatetime(datetime.datetime, metaclass=_SimDatetimeType):
    @classmethod
    def now(cls, tz=None):
        return datetime.datetime.fromtimestamp(CLOCK.time() % 2e10, tz)

    @classmethod
    def utcnow(cls):
        return datetime.datetime.utcfromtimestamp(CLOCK.time() % 2e10)

    today = now


class _SimDatetimeModule(types.ModuleType):
    def __getattr__(self, name):
        return getattr(datetime, name)


_SIM_DT = _SimDatetimeModule("datetime")
_SIM_DT.datetime = _SimDatetime


def simulate_datetime(modules):
    """The package's own modules read today's date from the simulated clock."""
    for m in modules:
        for k, v in list(vars(m).items()):
            if v is datetime:
                setattr(m, k, _SIM_DT)
            elif v is datetime.datetime:
                setattr(m, k, _SimDatetime)


class SimTerminal(io.StringIO):
    """sys.stderr of the simulated process.

    ``faults`` maps the index of a write/flush call to what happens there.
    """

    def __init__(self, faults=None):
        super().__init__()
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.calls = 0
        self.fired = []

    def _maybe(self, what):
        i = self.calls
        self.calls += 1
        kind = self.faults.get(i)
        if kind is None:
            kind = self.faults.get(-1)
        if kind is None:
            return None
        self.fired.append(kind)
        if kind == "epipe":
            raise BrokenPipeError(32, "Broken pipe")
        if kind == "eio":
            raise OSError(5, "Input/output error")
        if kind == "enospc":
            raise OSError(28, "No space left on device")
        if kind == "closed":
            raise ValueError("I/O operation on closed file")
        if kind == "eintr":
            raise InterruptedError(4, "Interrupted system call")
        if kind == "short":
            return "short"
        return None

    def write(self, text):
        if self._maybe("write") == "short":
            return super().write(text[: len(text) // 2])
        return super().write(text)

    def flush(self):
        self._maybe("flush")
        return super().flush()


def _compiled_submodules():
    return [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]


class Package:
    """Handle on one freshly started copy of the package."""

    def __init__(self, mod):
        self.mod = mod
        self.TwoLayerModel = mod.TwoLayerModel
        self.ImpulseResponseModel = mod.ImpulseResponseModel
        self.errors = sys.modules[PKG + ".errors"]
        self.constants = sys.modules[PKG + ".constants"]
        self.base = sys.modules[PKG + ".base"]
        self.UnitError = self.errors.UnitError
        self.ModelStateError = self.errors.ModelStateError
        self.modules = [sys.modules[k] for k in _compiled_submodules()]
        self.files = tuple(m.__file__ for m in self.modules)

    def cls(self, kind):
        return self.TwoLayerModel if kind == "TL" else self.ImpulseResponseModel


def boot(popen=None):
    """Restart the package: new module, class and default objects."""
    for k in _compiled_submodules():
        del sys.modules[k]
    importlib.invalidate_caches()
    subprocess.Popen = popen or NoGit
    try:
        mod = importlib.import_module(PKG)
        importlib.import_module(PKG + ".utils")
    finally:
        subprocess.Popen = _real_popen
    if not os.path.realpath(mod.__file__).startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError("package imported from %s" % mod.__file__)
    pkg = Package(mod)
    simulate_datetime(pkg.modules)
    return pkg


class current:
    """While this lasts, ``pkg`` is the running process's copy of the package (for pickle)."""

    def __init__(self, pkg):
        self.pkg = pkg

    def __enter__(self):
        self.saved = {k: sys.modules.pop(k) for k in _compiled_submodules()}
        for m in self.pkg.modules:
            sys.modules[m.__name__] = m
        self.registry = pint.application_registry.get()
        # what pint asks of whoever unpickles quantities
        pint.set_application_registry(ur)

    def __exit__(self, *exc):
        for k in _compiled_submodules():
            del sys.modules[k]
        sys.modules.update(self.saved)
        pint.set_application_registry(self.registry)
