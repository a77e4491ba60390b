"""Runs plans, classifies what happens, minimises, replays, and gathers evidence."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

from . import boot
from .client import HarnessError, Stats, Unusable, Violation
from .gen import rng_for
from .sched import ACTIVE, Hang, StepLimit

RUN_LIMIT_S = 60
FORCE_TRACE = None  # instruction limit while a run that did not end is repeated


def module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def plan_for(prop, seed, index, tier):
    plan = module(prop).generate(rng_for(seed, prop, index), tier)
    plan["prop"] = prop
    plan["seed"] = seed
    plan["index"] = index
    return plan


class Result:
    def __init__(self, verdict, stats, key=None, msg=None):
        self.verdict = verdict  # held | violated | unusable | harness
        self.stats = stats
        self.key = key
        self.msg = msg


def _from_package(exc):
    """Where in the code under test an escaped exception came from (None: nowhere)."""
    where = None
    tb = exc.__traceback__
    root = os.path.realpath(os.path.join(boot.SRC, boot.PKG)) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            where = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return where


class _Alarm(Hang):
    pass


def _on_alarm(*_):
    raise _Alarm()


def execute(plan, limit=RUN_LIMIT_S):
    """One simulated run: a pure function of the plan and of the code in /repo."""
    stats = Stats()
    mod = module(plan["prop"])
    boot.fresh_process()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    saved_err = sys.stderr
    boot.CLOCK.script, boot.CLOCK.now, boot.CLOCK.reads = [], 1.0e9, 0
    boot.install_clock()
    try:
        mod.execute(plan, stats)
        return Result("held", stats)
    except Violation as v:
        return Result("violated", stats, v.key, v.msg)
    except Unusable as u:
        return Result("unusable", stats, "unusable", str(u))
    except StepLimit:
        return Result("violated", stats, "endless", "an operation executed more instructions than any correct one could")
    except _Alarm:
        return Result("harness", stats, "timeout", "run exceeded %d s" % limit)
    except (HarnessError, Hang) as h:
        return Result("harness", stats, "harness", repr(h))
    except MemoryError as e:
        return Result("harness", stats, "memory", repr(e))
    except Exception as e:  # noqa: B902
        where = _from_package(e)
        if where is not None:
            return Result("violated", stats, "exception-" + type(e).__name__, "%s: %s (in %s)" % (type(e).__name__, str(e)[:300], where))
        return Result("harness", stats, "harness", traceback.format_exc())
    finally:
        boot.restore_clock()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ACTIVE.clear()
        sys.stderr = saved_err
