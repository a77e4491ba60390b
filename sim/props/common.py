"""Shared plumbing of the property modules."""
import sys

from .. import boot, engine
from ..client import Client, Stats, Unusable, Violation
from ..oracles import Trajectory
from ..sched import Tracer, instrument


def fresh(stats, trace_all=False, popen=None):
    """A freshly started package with one client on it."""
    pkg = boot.boot(popen)
    instrument(pkg)
    tr = Tracer(engine.FORCE_TRACE or 30_000_000)
    return pkg, Client(pkg, stats, tr, trace_all or engine.FORCE_TRACE is not None)


def seams(plan):
    """Put the simulator's terminal and clock in place; undo with the returned function."""
    term = boot.SimTerminal(plan.get("term"))
    old = sys.stderr
    sys.stderr = term
    boot.CLOCK.script = list(plan.get("clock", ()))
    boot.CLOCK.now = 1.0e9

    def undo():
        sys.stderr = old
        boot.CLOCK.script = []

    return term, undo


def play(client, ops, each=None):
    for i, op in enumerate(ops):
        out = client.do(op)
        if out.kind == "swallowed":
            raise Violation("swallowed", "%s returned normally although %r struck at %s" % (op["op"], out.exc, out.site))
        if op["op"] in ("setp_bad", "setd_bad", "newbad", "conv_bad", "reset_bad") and out.ok:
            raise Unusable("bad input accepted by %s" % op["op"])
        if each:
            each(i, op, out)


def trajectories(plan, stats, what):
    pkg, c = fresh(stats)
    orc = Trajectory(c, what)
    c.live_drivers = True

    def done(op, m, out):
        if out.kind == "exc" and op["op"] in ("new", "newconv", "copy", "scen"):
            raise Violation("raised", "%s %s" % (op["op"], out.describe()))
        orc(op, m, out)

    c.on_done = done
    play(c, plan["ops"])


def log_series(stats, S):
    for k in sorted(S):
        stats.digest.update(S[k].tobytes())
