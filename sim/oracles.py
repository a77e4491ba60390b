"""Checks on what the simulated clients observe."""
import math

import numpy as np

from . import build, ref
from .client import Violation, brief, near, same
from .units import BASE, DIMS, MONTH, NAMES, OUTPUTS, PARAM_DIM, PARAMS, SERIES, YR

HUGE = 1e100

TEMPS = {"TL": ("Tu", "Tl"), "IR": ("T1", "T2")}


def check_steps(kind, p, dt, F, S, lo, hi, what, label=""):
    """One-step refinement of rows lo..hi-1 against the reference equations."""
    names = SERIES[kind]
    imp = ref.ir_implied(p) if kind == "IR" else None
    for i in range(lo, hi):
        got = [float(S[k][i]) for k in names]
        if i == 0:
            for k, g in zip(names, got):
                if k in what and g != 0.0:
                    raise Violation("first-%s" % k, "%sfirst value of %s is %r, not 0" % (label, k, g))
            continue
        prev = [float(S[k][i - 1]) for k in names]
        if not all(math.isfinite(x) and abs(x) < HUGE for x in prev[:2]):
            continue
        f = F[i - 1]
        if kind == "TL":
            exp, tol = ref.two_layer_step(p, dt, prev[0], prev[1], f)
        else:
            exp, tol = ref.ir_step(p, dt, prev[0], prev[1], f, imp)
        for k, g, e, t in zip(names, got, exp, tol):
            if k in what and not (abs(g - e) <= t) and math.isfinite(e) and abs(e) < HUGE:
                raise Violation(
                    "step-%s" % k,
                    "%s%s[%d] = %.17g, the equations give %.17g (tolerance %.3g) from %s and driver %.17g"
                    % (label, k, i, g, e, t, brief(prev), f),
                )
        if kind == "TL" and "R" in what:
            v, t = ref.stored_heat_rate(p, dt, prev[0], prev[1], got[0], got[1])
            if all(math.isfinite(x) and abs(x) < HUGE for x in got) and not abs(got[2] - v) <= t:
                raise Violation(
                    "stored-heat", "%sR[%d] = %.17g but stored heat changes at %.17g" % (label, i, got[2], v)
                )


class Trajectory:
    """Follows every model of a client and checks its series after each operation."""

    KEEP = ("setp", "setp_bad", "setd_bad", "conv", "conv_bad", "heatcap")

    def __init__(self, client, what):
        self.c = client
        self.what = what
        self.snap = {}

    def __call__(self, op, m, out):
        name = op["op"]
        if m is None:
            return
        if name in ("new", "newconv", "copy"):
            self.snap[id(m)] = (m, m.series(), m.pos)
            return
        if name == "scen":
            if out.ok:
                check_scen_steps(op["b"], m, out.value, self.what)
                self.c.stats.nontrivial = True
            self.snap[id(m)] = (m, m.series(), None)
            return
        old = self.snap.get(id(m))
        S = m.series()
        watched = [k for k in SERIES[m.kind] if k in self.what]
        if name in ("step", "run") and out.ok:
            lo = old[2] if name == "step" and old is not None and old[2] is not None else 0
            for k in watched:
                if len(S[k]) != m.n:
                    raise Violation("length", "%s has %d values for %d drivers" % (k, len(S[k]), m.n))
                if old is not None and not op.get("faults") and not same(S[k][:lo], old[1][k][:lo]):
                    raise Violation("altered", "stepping changed earlier %s: %s -> %s" % (k, brief(old[1][k][:lo]), brief(S[k][:lo])))
            if m.uniform:
                lo = 0
            check_steps(m.kind, m.p, m.dt, m.drv, S, lo, m.pos, self.what)
            for k in watched:
                if not np.isnan(S[k][m.pos:]).all():
                    raise Violation("not-nan", "%s has values beyond step %d: %s" % (k, m.pos, brief(S[k][m.pos:])))
            if "R" in self.what and m.kind == "TL" and m.uniform:
                self.budget(m, S)
            if m.pos - lo > 1:
                self.c.stats.nontrivial = True
        elif name == "reset" and out.ok:
            for k in watched:
                if len(S[k]) != m.n or not np.isnan(S[k]).all():
                    raise Violation("reset", "after reset %s = %s (%d drivers)" % (k, brief(S[k]), m.n))
        elif (name in self.KEEP or name == "overrun") and old is not None:
            for k in watched:
                if not same(S[k], old[1][k]):
                    raise Violation("altered", "%s changed %s: %s -> %s" % (name, k, brief(old[1][k]), brief(S[k])))
        if not out.ok and name in ("step", "run", "reset", "setp", "setd", "conv"):
            raise Violation("raised", "%s %s" % (name, out.describe()))
        self.snap[id(m)] = (m, S, m.pos)

    def budget(self, m, S):
        """Uptake accumulated over the run equals the heat stored in the layers."""
        k = m.pos
        if k < 2:
            return
        Tu, Tl, R = S["Tu"][:k], S["Tl"][:k], S["R"][:k]
        big = np.max(np.abs(np.concatenate([Tu, Tl])))
        if not np.isfinite(big) or big > HUGE:
            return
        C = m.p["du"] * ref.RHO * ref.CP
        CD = m.p["dl"] * ref.RHO * ref.CP
        stored = C * Tu[-1] + CD * Tl[-1]
        total = float(np.sum(R)) * m.dt
        tol = 1e-10 * k * (C * np.max(np.abs(Tu)) + CD * np.max(np.abs(Tl)))
        if not abs(total - stored) <= tol:
            raise Violation("budget", "accumulated uptake %.17g J/m^2, stored %.17g (tolerance %.3g)" % (total, stored, tol))


def by_scenario(rows):
    out = {}
    for r in rows:
        out.setdefault(str(r.meta.get("scenario")), {}).setdefault(str(r.meta.get("variable")), []).append(r)
    return out


def selected(b):
    dv = b.get("driver_var", build.DEFAULT_DRIVER)
    return [r for r in b["rows"] if r["variable"] == dv and r["region"] == "World"]


def overflowed(rows):
    """An unstable run that left the range of floating-point numbers."""
    return any(len(r.vals) and not np.all(np.abs(r.vals) < HUGE) for r in rows)


def scen_series(kind, got, label, n):
    """The model series of one scenario from a result table."""
    keys = [k for k in OUTPUTS[kind]]
    out = {}
    blown = overflowed([r for var in keys for r in got.get(var, [])])
    for var in keys:
        rs = got.get(var, [])
        if len(rs) != 1:
            raise Violation("missing-output", "scenario %s: %d series of %s" % (label, len(rs), var))
        if blown and len(rs[0].vals) < n:
            # what follows an overflow is not a number and shows as missing
            rs[0].vals = np.concatenate([rs[0].vals, np.full(n - len(rs[0].vals), np.nan)])
        if len(rs[0].vals) != n:
            raise Violation("output-length", "scenario %s: %s has %d values for %d drivers" % (label, var, len(rs[0].vals), n))
        out[var] = rs[0].vals
    if kind == "TL":
        S = {"Tu": out[keys[0]], "Tl": out[keys[1]], "R": out["Heat Uptake"]}
    else:
        S = {"T1": out[keys[0]], "T2": out[keys[1]], "T": out["Surface Temperature"], "R": out["Heat Uptake"]}
    return S


def check_scen_steps(b, m, res, what, dt=None):
    got = by_scenario(build.table(res))
    for r in selected(b):
        S = scen_series(m.kind, got.get(r["scenario"], {}), r["scenario"], len(r["vals"]))
        f = DIMS["erf"][r["unit"]]
        F = [v * f for v in r["vals"]]
        d = dt or (YR if r["freq"] == "Y" else MONTH)
        check_steps(m.kind, m.p, d, F, S, 0, len(F), what, "scenario %s: " % r["scenario"])
        if m.kind == "IR" and what & {"T1", "T2"}:
            if not near(S["T"], S["T1"] + S["T2"], 1e-13, float(np.max(np.abs(S["T1"])) + np.max(np.abs(S["T2"])))):
                raise Violation("sum", "scenario %s: surface temperature is not the sum of the boxes" % r["scenario"])


def equal_label(x, y):
    if str(x) == str(y):
        return True
    try:
        return float(x) == float(y)
    except (TypeError, ValueError):
        return False
