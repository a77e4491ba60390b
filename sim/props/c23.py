"""C23: saved or copied models continue exactly where the original stood.

The simulated process saves its models now and then, dies at sampled instructions, is
started again and goes on from what was saved; copies and loaded models go their own way
beside the original.  The reference is one uninterrupted execution.
"""
import copy
import pickle

import numpy as np

from .. import boot, gen
from ..client import Client, Mirror, Stats, Violation, brief, reported_erf, reported_exact, same
from ..units import DIMS, PARAM_DIM, PARAMS, SERIES
from .c06 import equal_obs, obs, one, show
from .common import fresh, log_series

RUNS = {"quick": 1500, "thorough": 60000}
CFG = {
    "kinds": ["TL", "IR"],
    "p_fault": 0,
    "nops": (3, 14),
    "scen_rows": 2,
    "scen_maxn": 6,
    "maxn": 14,
    "w": {"step": 7, "run": 3, "overrun": 0.5, "setp_bad": 0.5, "setd_bad": 0.4, "scen": 0.5, "scen_cut": 0, "newconv": 0.7, "copy": 0.3, "reset": 2, "conv": 1, "heatcap": 0.5, "setp": 5},
}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    ops = gen.history(rng, cfg)
    first = next((i for i, o in enumerate(ops) if o["op"] != "new"), len(ops))
    if rng.random() < 0.3:
        # a model that has not been given drivers must go on refusing to be reset
        ops.insert(first, {"op": "reset_bad", "m": 0})
        ops[:] = [o for o in ops if not (o["op"] in ("setd", "scen") and o["m"] == 0)] if rng.random() < 0.4 else ops
        if rng.random() < 0.5:
            ops.append({"op": "reset_bad", "m": 0})
    style = rng.choice(["saves", "saves", "forks", "both"])
    for i, op in enumerate(ops):
        op.pop("faults", None)
        if i < first:
            continue
        if style != "forks" and rng.random() < 0.25:
            op["save"] = [rng.choice([0, 1, 2, 3, 4, 4, 5, 5]), rng.choice(["together", "each"])]
        if style != "forks" and rng.random() < 0.2:
            kill = gen.fault(rng) if op["op"] in ("scen", "run") else gen.small_fault(rng)
            op["die"] = [kill, rng.choice(["saved", "saved", "rescue"])]
        if style != "saves" and rng.random() < 0.2:
            op["fork"] = {"how": rng.choice(["deepcopy", "pickle", "other process"]), "proto": rng.choice([2, 4, 5]), "ops": tail(rng, cfg, ops, op), "deface": rng.random() < 0.4}
    return {"ops": ops}


def tail(rng, cfg, ops, op):
    """What the copy does on its own."""
    m = op.get("m", 0)
    kind = next((o["kind"] for o in ops if o["op"] == "new" and o["m"] == m), "TL")
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        u = rng.random()
        if u < 0.35:
            nme = rng.choice(gen.PARAMS[kind] + ("delta_t",))
            out.append({"op": "setp", "m": m, "name": nme, "q": gen.qty(rng, kind, nme, cfg["regime"])})
        elif u < 0.5:
            out.append(gen.driver_op(rng, cfg, m))
        elif u < 0.6:
            out.append({"op": "reset", "m": m})
        elif u < 0.65:
            out.append(gen.scen_op(rng, cfg, m))
        elif u < 0.7:
            out.append({"op": "conv", "m": m})
        else:
            out.append({"op": rng.choice(["step", "run"]), "m": m, "n": rng.choice([1, 2, 100])})
    return out


EXTRA = ("save", "die", "fork")


def clean(op):
    return {k: v for k, v in op.items() if k not in EXTRA}


class Death(BaseException):
    pass


def look(m):
    """Everything a user can see of a model."""
    return reported_exact(m.obj, m.kind), reported_erf(m.obj), m.series()


def differs(a, b, kind):
    if a[0] != b[0]:
        return "parameters %s, %s" % (a[0], b[0])
    if a[1] != b[1]:
        return "drivers %s, %s" % (a[1], b[1])
    for k in SERIES[kind]:
        if not same(a[2][k], b[2][k]):
            return "%s %s, %s" % (k, brief(a[2][k]), brief(b[2][k]))
    return None


def mirror(m, obj):
    n = Mirror(obj, m.kind, dict(m.p), dict(m.q), m.dt)
    n.drv = None if m.drv is None else list(m.drv)
    n.spec, n.pos, n.uniform = m.spec, m.pos, m.uniform
    if getattr(m, "touched", False):
        n.touched = True
    return n


class Process:
    """The simulated process, and what of it outlives it."""

    def __init__(self, stats):
        self.stats = stats
        self.saved = None
        self.pkg, self.c = fresh(stats)

    def dump(self, proto, how):
        seen = {k: look(m) for k, m in self.c.M.items()}
        objs = {k: m.obj for k, m in self.c.M.items()}
        with boot.current(self.pkg):
            try:
                if how == "together":
                    blob = pickle.dumps(objs, proto)
                else:
                    blob = {k: pickle.dumps(o, proto) for k, o in objs.items()}
            except Exception as exc:
                raise Violation("not-saved", "a model cannot be pickled: %r" % (exc,))
        for k, m in self.c.M.items():
            d = differs(look(m), seen[k], m.kind)
            if d:
                raise Violation("saving-changed", "saving changed the model: %s" % d)
        self.stats.probes["models saved"] += len(objs)
        return blob, {k: (mirror(m, None), seen[k]) for k, m in self.c.M.items()}

    def start(self, blob, mirrors):
        """Start again from what was saved."""
        self.pkg, self.c = fresh(self.stats)
        restore(self.pkg, self.c, blob, mirrors)
        self.stats.probes["process started again"] += 1


def restore(pkg, c, blob, mirrors):
    with boot.current(pkg):
        try:
            objs = pickle.loads(blob) if isinstance(blob, bytes) else {k: pickle.loads(b) for k, b in blob.items()}
        except Exception as exc:
            raise Violation("not-loaded", "a saved model cannot be loaded: %r" % (exc,))
    for k, (m, seen) in mirrors.items():
        c.M[k] = mirror(m, objs[k])
        if type(objs[k]) is not pkg.cls(m.kind):
            raise Violation("other-type", "a saved %s is loaded as %s" % (m.kind, type(objs[k]).__name__))
        d = differs(look(c.M[k]), seen, m.kind)
        if d:
            raise Violation("restored", "loaded and saved model: %s" % d)


def reference(ops, upto=None):
    c = Client(boot.boot(), Stats())
    log = []
    for op in ops:
        out, m = one(c, clean(op))
        log.append(obs(op, m, out))
    return log


def execute(plan, stats):
    ops = plan["ops"]
    want = reference(ops)
    p = Process(stats)
    safe = None  # (operation to go on with, what was saved, models at that time)
    died, saved_at, forked, forks = set(), set(), set(), []
    i = 0
    while i < len(ops):
        op = ops[i]
        if "save" in op and i not in saved_at:
            saved_at.add(i)
            safe = (i,) + p.dump(*op["save"])
        if "fork" in op and i not in forked:
            forked.add(i)
            f = fork(p, plan, i, stats)
            if f is not None:
                forks.append(f)
        if "die" in op and i not in died and safe is not None:
            died.add(i)
            i = die(p, op, i, safe, stats)
            continue
        out, m = one(p.c, clean(op))
        got = obs(op, m, out)
        if not equal_obs(got, want[i]):
            raise Violation("differs", "operation %d (%s): uninterrupted %s, with saving, copying and restarts %s" % (i, op["op"], show(want[i]), show(got)))
        if m is not None and out.ok and op["op"] in ("run", "step"):
            log_series(stats, m.series())
        i += 1
    for m, seen, how in forks:
        d = differs(look(m), seen, m.kind)
        if d:
            raise Violation("not-independent", "the original's further use changed its copy (%s): %s" % (how, d))


def die(p, op, i, safe, stats):
    """The process dies while it works on an operation; returns where to go on."""
    fault, how = op["die"]
    slot = op.get("m", 0)
    m = p.c.M.get(slot)
    start = None if m is None else (m.pos, m.uniform)
    before = None if m is None else mirror(m, None)

    def on_fault(_, m, out):
        raise Death(out)

    p.c.on_fault = on_fault
    try:
        p.c.do(dict(clean(op), faults=[fault]))
        struck = False
    except Death:
        struck = True
        stats.probes["process died during " + op["op"]] += 1
    p.c.on_fault = None
    stats.nontrivial = True
    if not struck or how != "rescue" or m is None or p.c.M.get(slot) is not m:
        p.start(safe[1], safe[2])
        return safe[0]
    # a last save on the way out, of whatever state the model is in
    blob, mirrors = p.dump(4, "together")
    go_on(p, slot, m, blob, stats)
    p.start(blob, mirrors)
    stats.probes["saved in the middle of an operation"] += 1
    n = mirror(before, p.c.M[slot].obj)
    p.c.M[slot] = n
    if op["op"] in ("step", "run") and n.drv is not None and n.pos is not None:
        p.c.rewind(n, n.pos)
    return i


def go_on(p, slot, m, blob, stats):
    """An interrupted model and what was saved of it, used on without any repair."""
    with boot.current(p.pkg):
        twin = pickle.loads(blob)[slot]
    two = mirror(m, twin)
    for n, what in enumerate(("step", "step", "run", "step", "reset", "step", "run")):
        got = []
        for x in (m, two):
            try:
                getattr(x.obj, what)()
                got.append(None)
            except Exception as exc:
                got.append(type(exc).__name__)
        if got[0] != got[1]:
            raise Violation("interrupted-differs", "%s after an interruption: original %s, saved and loaded %s" % (what, got[0], got[1]))
        d = differs(look(two), look(m), m.kind)
        if d:
            raise Violation("interrupted-differs", "%s %d after an interruption: saved and loaded, original: %s" % (what, n, d))
    stats.probes["interrupted model used on beside what was saved of it"] += 1


def deface(m):
    """Change in place whatever values a model hands out."""
    for k in PARAMS[m.kind] + ("delta_t",):
        v = getattr(m.obj, k)
        if hasattr(v, "ito"):
            v.ito(sorted(DIMS[PARAM_DIM[k]])[0])
            v.ito(sorted(DIMS[PARAM_DIM[k]])[-1])
    e = m.obj.erf
    e = np.asarray(getattr(e, "magnitude", e))
    if e.flags.writeable:
        e[...] = 77


def fork(p, plan, i, stats):
    """A copy of a model goes its own way."""
    op = plan["ops"][i]
    slot, f = op.get("m", 0), op["fork"]
    m = p.c.M.get(slot)
    if m is None:
        return None
    want = reference(plan["ops"][:i] + f["ops"])[i:]
    seen = look(m)
    pkg = p.pkg
    if f["how"] == "deepcopy":
        c = Client(pkg, stats)
        try:
            c.M[slot] = mirror(m, copy.deepcopy(m.obj))
        except Exception as exc:
            raise Violation("not-copied", "a model cannot be copied: %r" % (exc,))
        d = differs(look(c.M[slot]), seen, m.kind)
        if d:
            raise Violation("copied", "copy and original: %s" % d)
    else:
        with boot.current(pkg):
            try:
                blob = {slot: pickle.dumps(m.obj, f["proto"])}
            except Exception as exc:
                raise Violation("not-saved", "a model cannot be pickled: %r" % (exc,))
        if f["how"] == "other process":
            pkg = boot.boot()
        c = Client(pkg, stats)
        restore(pkg, c, blob, {slot: (m, seen)})
    stats.probes["copy going its own way (%s)" % f["how"]] += 1
    stats.nontrivial = True
    for k, o in enumerate(f["ops"]):
        out, n = one(c, o)
        got = obs(o, n, out)
        if not equal_obs(got, want[k]):
            raise Violation("copy-differs", "operation %d (%s) of the copy (%s): original %s, copy %s" % (k, o["op"], f["how"], show(want[k]), show(got)))
    if f.get("deface"):
        deface(c.M[slot])
        stats.probes["values the copy reports changed in place"] += 1
    d = differs(look(m), seen, m.kind)
    if d:
        raise Violation("not-independent", "use of the copy (%s) changed the original: %s" % (f["how"], d))
    return c.M[slot], look(c.M[slot]), f["how"]
