"""A simulated user of the package: interprets operations against the real code.

Every operation is plain JSON.  The client keeps a mirror of what it has told each
model (parameters, time step, drivers) and how far each run is, so that any
sub-sequence of a plan is still a sensible plan (needed for minimisation).
"""
import copy
import hashlib
from collections import Counter

import numpy as np
import pandas as pd

from . import build
from .boot import ur
from .build import quantity, drivers, drivers_canon
from .sched import StepLimit, Hang
from .units import ATTRS, BASE, DEFAULTS, DIMS, MONTH, PARAM_DIM, PARAMS, YR


class Violation(Exception):
    """The property does not hold in this run.  ``key`` names the class of failure."""

    def __init__(self, key, msg=""):
        super().__init__("%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class Unusable(Exception):
    """The run cannot be judged any further (e.g. a bad value was accepted)."""


class HarnessError(Exception):
    pass


class Stats:
    def __init__(self):
        self.ops = Counter()
        self.faults = Counter()
        self.probes = Counter()
        self.sites = set()
        self.states = set()
        self.sim_seconds = 0.0
        self.steps = 0
        self.digest = hashlib.sha256()
        self.nontrivial = False

    def log(self, *what):
        self.digest.update(repr(what).encode())

    def state(self, *sig):
        self.states.add(hash_sig(sig))


def hash_sig(sig):
    return int.from_bytes(hashlib.blake2b(repr(sig).encode(), digest_size=6).digest(), "big")


class Outcome:
    __slots__ = ("kind", "value", "exc", "site")

    def __init__(self, kind, value=None, exc=None, site=None):
        self.kind = kind  # ok | exc | fault | swallowed | skip
        self.value = value
        self.exc = exc
        self.site = site

    @property
    def ok(self):
        return self.kind == "ok"

    def describe(self):
        if self.kind == "ok":
            return "returned normally"
        return "%s %s: %s" % (self.kind, type(self.exc).__name__, str(self.exc)[:200])


def chained(exc, target):
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        if e is target:
            return True
        seen.add(id(e))
        todo += [e.__cause__, e.__context__]
    return False


def arr(x):
    return np.array(x, copy=True)


def same(a, b):
    """Bitwise equality of two arrays up to NaN payload and the sign of zero."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def alike(a, b, rtol=1e-11):
    """Equal up to rounding relative to what the series reached so far."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if same(a, b):
        return True
    with np.errstate(all="ignore"):
        scale = np.maximum.accumulate(np.where(np.isfinite(b), np.abs(b), 0.0))
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * scale)))


def near(a, b, rtol=1e-12, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b[np.isfinite(b)])) if scale is None and np.isfinite(b).any() else (scale or 0.0)
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * s)))


def brief(a, n=6):
    a = np.asarray(a)
    return "[%s%s]" % (", ".join("%.17g" % x for x in a[:n]), ", ..." if a.size > n else "")


class Mirror:
    def __init__(self, obj, kind, p, q, dt):
        self.obj = obj
        self.kind = kind
        self.p = p  # canonical values
        self.q = q  # as given ([value, unit] or None)
        self.dt = dt
        self.drv = None  # canonical driver values
        self.spec = None
        self.pos = None  # steps done since reset (None: reset needed first)
        self.uniform = True  # parameters unchanged since reset

    @property
    def n(self):
        return None if self.drv is None else len(self.drv)

    def series(self):
        out = {}
        for k, a in ATTRS[self.kind].items():
            try:
                out[k] = np.array(getattr(self.obj, a), dtype=float, copy=True)
            except (AttributeError, TypeError, ValueError) as exc:
                raise Violation("no-series", "the series %s cannot be read: %r" % (k, exc))
        return out

    def reported(self):
        """Parameters the model reports, in base units."""
        return reported(self.obj, self.kind)


def mag(v, unit, what="value"):
    """The number a returned quantity stands for; what is no such quantity violates the property."""
    try:
        return v.to(unit).magnitude
    except Exception as exc:
        raise Violation("not-a-quantity", "%s is %r, not a quantity in %s: %r" % (what, v, unit, exc))


def reported(obj, kind):
    out = {}
    for nme in PARAMS[kind] + ("delta_t",):
        v = None
        try:
            v = getattr(obj, nme)
            out[nme] = v.to(BASE[PARAM_DIM[nme]]).magnitude
        except Exception as exc:
            raise Violation("no-parameter", "the model reports %s = %r: %r" % (nme, v, exc))
    return out


def reported_exact(obj, kind):
    """Parameters exactly as reported: (magnitude, unit)."""
    out = {}
    for nme in PARAMS[kind] + ("delta_t",):
        v = getattr(obj, nme, None)
        out[nme] = (repr(v.magnitude), str(v.units)) if hasattr(v, "magnitude") else ("not a quantity", repr(v))
    return out


def reported_erf(obj):
    e = obj.erf
    if hasattr(e, "magnitude"):
        return ("q", arr(e.magnitude).tolist(), str(e.units))
    return ("raw", [repr(x) for x in np.asarray(e).ravel()])


BAD_VALUES = {
    "float": lambda d, b: 3.0,
    "int": lambda d, b: 1,
    "none": lambda d, b: None,
    "str": lambda d, b: "1 m",
    "array": lambda d, b: np.ones(3),
    "bool": lambda d, b: True,
    "npfloat": lambda d, b: np.float64(3.0),
    "list": lambda d, b: [1.0],
    "unit": lambda d, b: ur(BASE[d]).units,
    "kg": lambda d, b: 1.0 * ur("kg"),
    "wrongdim": lambda d, b: 2.0 * ur(BASE["erf" if d != "erf" else "length"]),
    "dimless": lambda d, b: 2.0 * ur("dimensionless") if d != "fraction" else 2.0 * ur("m"),
    "degC2": lambda d, b: 2.0 * ur(BASE[d]) * ur("delta_degC"),
    "off1": lambda d, b: 2.0 * ur(BASE[d]) * ur("m"),
    "off2": lambda d, b: 2.0 * ur(BASE[d]) / ur("s"),
    "inverse": lambda d, b: 2.0 / ur(BASE[d]) if d != "fraction" else 2.0 / ur("s"),
}
QUANTITY_BAD = ("kg", "wrongdim", "dimless", "degC2", "off1", "off2", "inverse")

BAD_DRIVERS = {
    "ndarray": (lambda: np.ones(4), "TypeError"),
    "kg": (lambda: np.ones(4) * ur("kg"), "UnitError"),
    "K": (lambda: np.ones(4) * ur("delta_degC"), "UnitError"),
    "Wm": (lambda: np.ones(4) * ur("W/m"), "UnitError"),
    "W": (lambda: np.ones(4) * ur("W"), "UnitError"),
    "2d": (lambda: np.ones((2, 3)) * ur("W/m^2"), "AssertionError"),
    "2d1": (lambda: np.ones((1, 4)) * ur("W/m^2"), "AssertionError"),
    "2dcol": (lambda: np.ones((4, 1)) * ur("W/m^2"), "AssertionError"),
    "3d": (lambda: np.ones((2, 2, 2)) * ur("W/m^2"), "AssertionError"),
    "0d": (lambda: np.array(3.0) * ur("W/m^2"), "AssertionError"),
}


def expected_error(pkg, name):
    return {
        "TypeError": TypeError,
        "UnitError": pkg.UnitError,
        "AssertionError": AssertionError,
        "ValueError": ValueError,
        "ModelStateError": pkg.ModelStateError,
    }[name]


def convertible(m):
    """Conversion of two-layer models is documented for no state dependence, and only
    means anything with a positive feedback and some heat exchange."""
    if m.kind != "TL":
        return True
    p = m.p
    return p["a"] == 0 and p["eta"] > 1e-7 and p["lambda0"] > 0 and p["efficacy"] > 0


class Block:
    """Takes as much memory as a model object."""


def reserve(address):
    """Keeps the place of a model that is gone (None: already taken)."""
    hold = []
    for _ in range(20000):
        x = Block()
        if id(x) == address:
            return x
        hold.append(x)


def build_at(cls, kwargs, place):
    """Builds a model at a reserved place in memory."""
    place.clear()
    return cls(**kwargs)


class Client:
    def __init__(self, pkg, stats, tracer=None, trace_all=False):
        self.pkg = pkg
        self.stats = stats
        self.tracer = tracer
        self.trace_all = trace_all
        self.M = {}
        self.shared = {}
        self.on_input = None  # callback(label, object)
        self.on_fault = None  # callback(op, mirror, outcome)
        self.on_done = None  # callback(op, mirror, outcome, before)
        self.live_drivers = False  # go on judging a run whose drivers were replaced half-way
        self.popens = 0
        self.last = "start"

    # ------------------------------------------------------------ calling
    def call(self, name, fn, fault=None):
        tr = self.tracer
        traced = tr is not None and (fault is not None or self.trace_all)
        if traced:
            tr.reset_counts()
            tr.fired = None
            tr.arm = tuple(fault) if fault is not None else None
        try:
            if traced:
                tr.start()
            try:
                out = Outcome("ok", fn())
            finally:
                if traced:
                    tr.stop()
        except (StepLimit, Hang, HarnessError):
            raise
        except BaseException as exc:  # noqa: B902
            exc.__traceback__ = None
            out = Outcome("exc", exc=exc)
        if traced:
            tr.arm = None
            if tr.fired is not None:
                f = tr.fired
                tr.fired = None
                self.stats.faults["%s during %s" % (fault[2], name)] += 1
                self.stats.sites.add((name,) + f.where)
                self.stats.nontrivial = True
                if out.kind == "ok":
                    out = Outcome("swallowed", out.value, f.exc, f.where)
                elif chained(out.exc, f.exc):
                    out = Outcome("fault", None, f.exc, f.where)
        return out

    def attempt(self, op, m, name, fn, recover=None):
        """Run ``fn``, first with each of the operation's faults, finally without."""
        for fault in op.get("faults", ()):
            if self.tracer is None:
                break
            out = self.call(name, fn, fault)
            self.stats.log("attempt", name, out.kind, out.site)
            if out.kind == "fault":
                self.stats.state("fault", self.last, name, out.site, type(out.exc).__name__)
                if self.on_fault:
                    self.on_fault(op, m, out)
                if recover:
                    recover()
                continue
            return out
        return self.call(name, fn)

    # ---------------------------------------------------------------- ops
    def do(self, op):
        name = op["op"]
        m = self.M.get(op.get("m", 0))
        if name not in ("new", "newconv", "copy", "newbad") and m is None:
            return Outcome("skip")
        fn = getattr(self, "op_" + name)
        out = fn(op, m)
        m = self.M.get(op.get("m", 0))
        self.stats.ops[name] += 1
        self.stats.log(name, out.kind, type(out.exc).__name__ if out.exc else None)
        if m is not None:
            self.stats.state(self.last, name, out.kind, m.kind, min(m.pos, 3) if m.pos is not None else None, m.drv is None)
        self.last = name
        if self.on_done and out.kind != "skip":
            self.on_done(op, m, out)
        return out

    def inp(self, label, obj):
        if self.on_input:
            self.on_input(label, obj)
        return obj

    def q_in(self, label, q, share=None):
        if share is not None:
            obj = self.shared[share]
        else:
            obj = quantity(q)
        return self.inp(label, obj)

    def ctor_kwargs(self, op):
        return {k: self.q_in("ctor " + k, q) for k, q in op["p"].items()}

    def op_new(self, op, _):
        kind = op["kind"]
        kwargs = op.get("_kwargs") or self.ctor_kwargs(op)
        out = self.attempt(op, None, "constructor", lambda: build_at(self.pkg.cls(kind), kwargs, op.get("_place", [])))
        if out.ok:
            p = {n: DEFAULTS[kind][n] for n in PARAMS[kind]}
            q = {n: None for n in PARAMS[kind]}
            dt = DEFAULTS[kind]["delta_t"]
            for k, v in op["p"].items():
                cv = v[0] * DIMS[PARAM_DIM[k]][v[1]]
                if k == "delta_t":
                    dt = cv
                else:
                    p[k] = cv
                    q[k] = v
            self.M[op.get("m", 0)] = Mirror(out.value, kind, p, q, dt)
        elif op.get("m", 0) in self.M:
            del self.M[op.get("m", 0)]
        return out

    def op_newconv(self, op, _):
        """Build the other kind of model from another model's converted parameters."""
        src = self.M.get(op["from"])
        if src is None or not convertible(src) or src.p.get("dl", 0) > 1e6:
            return Outcome("skip")
        kind = "IR" if src.kind == "TL" else "TL"
        get = src.obj.get_impulse_response_parameters if src.kind == "TL" else src.obj.get_two_layer_parameters

        def make():
            return self.pkg.cls(kind)(**get())

        out = self.attempt(op, None, "conversion+constructor", make)
        self.M.pop(op.get("m", 0), None)
        if out.ok:
            r = reported(out.value, kind)
            dt = r.pop("delta_t")
            self.M[op.get("m", 0)] = Mirror(out.value, kind, r, {n: None for n in r}, dt)
        return out

    def op_copy(self, op, _):
        src = self.M.get(op["from"])
        if src is None:
            return Outcome("skip")
        if op.get("shallow"):
            out = self.call("copy", lambda: copy.copy(src.obj))
            if out.ok and src.drv is not None:
                # a shallow copy shares the results, so it starts a run of its own first
                out.value.reset()
        else:
            out = self.call("deepcopy", lambda: copy.deepcopy(src.obj))
        if out.ok:
            n = Mirror(out.value, src.kind, dict(src.p), dict(src.q), src.dt)
            n.drv = None if src.drv is None else list(src.drv)
            n.spec, n.pos, n.uniform = src.spec, src.pos, src.uniform
            if op.get("shallow") and n.drv is not None:
                n.pos, n.uniform = 0, True
            self.M[op.get("m", 0)] = n
        return out

    def op_drop(self, op, m):
        del self.M[op.get("m", 0)]
        return Outcome("ok")

    def op_setp(self, op, m):
        name = op["name"]
        if name not in PARAM_DIM or not (name == "delta_t" or name in PARAMS[m.kind]):
            return Outcome("skip")
        q = op["q"]
        val = self.q_in("set " + name, q, op.get("share"))
        out = self.attempt(op, m, "set " + name, lambda: setattr(m.obj, name, val))
        cv = q[0] * DIMS[PARAM_DIM[name]][q[1]]
        if out.ok:
            if name == "delta_t":
                m.dt = cv
            else:
                m.p[name] = cv
                m.q[name] = q
            if m.pos:
                m.uniform = False
        return out

    def op_setp_bad(self, op, m):
        name, bad = op["name"], op["bad"]
        if not (name == "delta_t" or name in PARAMS[m.kind]):
            return Outcome("skip")
        val = self.inp("bad " + name, BAD_VALUES[bad](PARAM_DIM[name], None))
        return self.attempt(op, m, "set bad " + name, lambda: setattr(m.obj, name, val))

    def bad_param_error(self, op):
        return "UnitError" if op["bad"] in QUANTITY_BAD else "TypeError"

    def op_setd(self, op, m):
        e = op["e"]
        obj = self.shared[op["share"]] if op.get("share") is not None else drivers(e)
        obj = self.inp("drivers", obj)
        if op.get("via") == "erf":
            fn = lambda: setattr(m.obj, "erf", obj)  # noqa: E731
        else:
            fn = lambda: m.obj.set_drivers(obj)  # noqa: E731
        out = self.attempt(op, m, "set_drivers", fn)
        if out.ok:
            drv = drivers_canon(e)
            if self.live_drivers and m.pos is not None and m.drv is not None and len(drv) == len(m.drv):
                # the run goes on with the new drivers from its next step
                if m.pos:
                    m.uniform = False
                    self.stats.probes["drivers replaced in the middle of a run"] += 1
            else:
                m.pos = None
            m.drv = drv
            m.spec = e
        return out

    def op_setd_bad(self, op, m):
        mk, err = BAD_DRIVERS[op["bad"]]
        val = self.inp("bad drivers", mk())
        if op.get("via") == "erf" and err != "AssertionError":
            return self.attempt(op, m, "set bad erf", lambda: setattr(m.obj, "erf", val))
        return self.attempt(op, m, "set_drivers bad", lambda: m.obj.set_drivers(val))

    def op_newbad(self, op, _):
        """A constructor call that must be refused (never replaces a model)."""
        kind = op["kind"]
        kwargs = {k: quantity(q) for k, q in op["p"].items()}
        if "bad" in op:
            kwargs[op["name"]] = BAD_VALUES[op["bad"]](PARAM_DIM[op["name"]], None)
        return self.attempt(op, None, "constructor bad", lambda: self.pkg.cls(kind)(**kwargs))

    def op_reset(self, op, m):
        if m.drv is None:
            return Outcome("skip")
        out = self.attempt(op, m, "reset", m.obj.reset)
        if out.ok:
            m.pos = 0
            m.uniform = True
        return out

    def op_reset_bad(self, op, m):
        """Reset of a model that has never been given drivers."""
        if m.drv is not None or getattr(m, "touched", False):
            return Outcome("skip")
        return self.attempt(op, m, "reset without drivers", m.obj.reset)

    def ready(self, m):
        """Bring a model into a state in which stepping is documented to work."""
        if m.drv is None:
            return False
        if m.dt is None:
            m.obj.delta_t = 1 * ur("yr")
            m.dt = YR
        if m.pos is None:
            out = self.do({"op": "reset", "m": self.slot(m)})
            return out.ok
        return True

    def slot(self, m):
        for k, v in self.M.items():
            if v is m:
                return k
        raise HarnessError("unknown model")

    def rewind(self, m, pos):
        """After an interrupted step or run: reset and go back to where it started."""
        m.obj.reset()
        for _ in range(pos):
            m.obj.step()
        m.pos = pos

    def op_step(self, op, m):
        if not self.ready(m):
            return Outcome("skip")
        k = min(op.get("n", 1), m.n - m.pos)
        if k <= 0:
            return Outcome("skip")
        start = m.pos

        def go():
            for _ in range(k):
                m.obj.step()

        if not m.uniform:
            op = {k_: v for k_, v in op.items() if k_ != "faults"}
        out = self.attempt(op, m, "step", go, lambda: self.rewind(m, start))
        if out.ok:
            m.pos = start + k
            self.stats.steps += k
            self.stats.sim_seconds += k * m.dt
        else:
            m.pos = None
        return out

    def op_run(self, op, m):
        if m.drv is None:
            return Outcome("skip")
        if m.pos != 0:
            out = self.do({"op": "reset", "m": self.slot(m)})
            if not out.ok:
                return out
        if not self.ready(m):
            return Outcome("skip")
        out = self.attempt(op, m, "run", m.obj.run, lambda: self.rewind(m, 0))
        if out.ok:
            m.pos = m.n
            self.stats.steps += m.n
            self.stats.sim_seconds += m.n * m.dt
        else:
            m.pos = None
        return out

    def op_overrun(self, op, m):
        """Step past the end of the drivers: must fail and leave the results alone."""
        if m.drv is None or m.pos is None or m.pos < m.n:
            return Outcome("skip")
        for _ in range(op.get("n", 1)):
            out = self.call("step past the end", m.obj.step)
        m.pos = None
        return out

    def op_conv(self, op, m):
        if m.kind == "TL":
            fn = m.obj.get_impulse_response_parameters
            if not convertible(m):
                return Outcome("skip")
        else:
            fn = m.obj.get_two_layer_parameters
        return self.attempt(op, m, "conversion", fn)

    def op_conv_bad(self, op, m):
        if m.kind != "TL" or m.p["a"] == 0:
            return Outcome("skip")
        return self.attempt(op, m, "conversion with a", m.obj.get_impulse_response_parameters)

    def op_heatcap(self, op, m):
        if m.kind != "TL":
            return Outcome("skip")
        return self.attempt(op, m, "heat capacity", lambda: (m.obj.heat_capacity_upper, m.obj.heat_capacity_lower))

    # ------------------------------------------------------------ scenarios
    def scen_input(self, op):
        b = op["b"]
        form = op.get("form", "scmrun")
        if form.startswith("long") and any(v is None for r in b["rows"] for v in r["meta"].values()):
            form = "frame"  # scmdata cannot read lines with missing labels
        if op.get("share") is not None:
            return self.shared[op["share"]]
        if form == "scmrun":
            return build.scmrun(b)
        if form == "frame":
            return build.frame(b)
        if form == "frame_idx":
            return build.frame(b, True)
        if form in ("long", "long_time"):
            return build.long_frame(b, "year" if form == "long" else "time")
        if form in ("years", "years_text", "years_float"):
            return build.year_frame(b, {"years": int, "years_text": str, "years_float": float}[form])
        raise HarnessError("form %s" % form)

    def scen_kwargs(self, op):
        kw = {}
        dv = op["b"].get("driver_var")
        if dv is not None and not (dv == build.DEFAULT_DRIVER and op.get("default_var")):
            kw["driver_var"] = dv
        if op.get("progress") is not None:
            kw["progress"] = op["progress"]
        return kw

    def op_scen(self, op, m):
        """Run scenarios that are fine; the value is the returned scenario set."""
        src = op.get("_input")
        if src is None:
            src = self.inp("scenarios", self.scen_input(op))
        kw = self.scen_kwargs(op)
        kw.setdefault("progress", False)
        old = m.dt
        m.drv, m.pos, m.touched = None, None, True
        m.dt = None
        if op.get("noretry"):
            out = Outcome("skip")
            for fault in op.get("faults", ())[:1]:
                if self.tracer is not None:
                    out = self.call("run_scenarios", lambda: m.obj.run_scenarios(src, **kw), fault)
                    if out.kind == "fault" and self.on_fault:
                        self.on_fault(op, m, out)
                    if out.kind == "fault":
                        return out
        else:
            out = self.attempt(op, m, "run_scenarios", lambda: m.obj.run_scenarios(src, **kw))
        if out.ok:
            m.dt = YR if build.freq_of(op["b"]) == "Y" else MONTH
            for r in op["b"]["rows"]:
                self.stats.steps += len(r["vals"])
                self.stats.sim_seconds += len(r["vals"]) * m.dt
        elif old is not None and out.kind == "skip":
            m.dt = old
        return out
