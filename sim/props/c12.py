"""C12: the two-layer model and its converted impulse-response model agree.

After random histories the converted model is driven by the same forcing and compared
with a matrix-exponential solution of the two-layer equations; the two-layer model itself
is refined in time and must approach that solution at first order.
"""
import math

import numpy as np

from .. import build, exact, gen, ref
from ..boot import ur
from ..client import Violation, brief, convertible
from ..units import DIMS, MONTH, PARAMS, YR
from .common import fresh, log_series, play

RUNS = {"quick": 2600, "thorough": 40000}
CFG = {
    "kinds": ["TL", "TL", "IR"],
    "p_fault": 0.25,
    "nops": (2, 9),
    "maxn": 10,
    "w": {"conv": 1, "setp": 8, "newconv": 1, "copy": 0.5, "scen": 0.1, "scen_cut": 0, "overrun": 0, "setp_bad": 0.2, "setd_bad": 0.1, "step": 2, "run": 2},
}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "mild", "wild"]))
    ops = []
    for op in gen.history(rng, cfg):
        if op["op"] == "new":
            op["p"].pop("a", None)
        if op["op"] == "setp" and op["name"] == "a" and rng.random() < 0.7:
            op["q"] = gen.express(rng, "a", 0.0)
        ops.append(op)
        if rng.random() < 0.22:
            ops.append(equiv_op(rng, op["m"]))
    ops.append(equiv_op(rng, 0))
    return {"ops": ops}


def equiv_op(rng, m):
    n = rng.choice([2, 3, 5, 10, 20, rng.randint(3, 40)])
    op = {
        "op": "equiv",
        "m": m,
        "e": gen.erf_spec(rng, n, "mild"),
        "dt": gen.express(rng, "time", rng.choice([YR, MONTH, YR / 4, 10 * YR, gen.r4(rng.uniform(1e5, 1e8))])),
    }
    if rng.random() < 0.35:
        op["converge"] = 1
    return op


def execute(plan, stats):
    pkg, c = fresh(stats)
    for op in plan["ops"]:
        if op["op"] == "equiv":
            m = c.M.get(op["m"])
            if m is not None and convertible(m):
                equiv(pkg, c, m, op, stats)
            continue
        play(c, [op])


def drive(pkg, kind, paras, e, dt):
    mdl = pkg.cls(kind)(delta_t=dt, **paras)
    mdl.set_drivers(build.drivers(e) if isinstance(e, dict) else e)
    mdl.reset()
    mdl.run()
    return mdl


def equiv(pkg, c, m, op, stats):
    dtq = build.quantity(op["dt"])
    dt = op["dt"][0] * DIMS["time"][op["dt"][1]]
    F = np.array(build.drivers_canon(op["e"]))
    p = m.p
    own = {k: getattr(m.obj, k) for k in PARAMS[m.kind]}
    if m.kind == "TL":
        lam, C, CD, eta, eps = p["lambda0"], p["du"] * ref.RHO * ref.CP, p["dl"] * ref.RHO * ref.CP, p["eta"], p["efficacy"]
        conv = c.call("conversion", m.obj.get_impulse_response_parameters)
        if not conv.ok:
            raise Violation("raised", "conversion %s" % conv.describe())
        ir, tl = conv.value, own
    else:
        lam, C, CD, eta, _ = exact.two_layer(p["q1"], p["q2"], p["d1"], p["d2"], p["efficacy"])
        eps = p["efficacy"]
        if not (CD > 0 and eta > 0):
            return
        conv = c.call("conversion", m.obj.get_two_layer_parameters)
        if not conv.ok:
            raise Violation("raised", "conversion %s" % conv.describe())
        ir, tl = own, conv.value
    d1, d2, q1, q2, sens = exact.modes(lam, C, CD, eta, eps)
    if sens > 1e6 or not d1 < d2 * (1 - 1e-6):
        stats.probes["too ill-conditioned to judge"] += 1
        return
    s2 = exact.two_layer(q1, q2, d1, d2, eps)[4]
    x = drive(pkg, "IR", ir, op["e"], dtq)
    T = np.array(x._temp1_mag) + np.array(x._temp2_mag)
    R = np.array(x._rndt_mag)
    eT, eTD, eR = ref.exact_two_layer(lam, C, CD, eta, eps, dt, F)
    size = float(np.max(np.abs(F)) * (abs(q1) + abs(q2))) or 1e-300
    tol = 1e-10 + 1e-12 * sens * s2 * s2
    if tol > 1e-4:
        stats.probes["too ill-conditioned to judge"] += 1
        return
    for nme, g, e, s in (("temperature", T, eT, size), ("heat uptake", R, eR, float(np.max(np.abs(F))) * (1 + abs(eps - 1) * eta * (abs(q1) + abs(q2))) or 1e-300)):
        if g.shape != e.shape or not np.all(np.abs(g - e) <= tol * s):
            i = int(np.argmax(~(np.abs(g - e) <= tol * s))) if g.shape == e.shape else -1
            raise Violation("exact-" + nme, "%s of the converted model at step %d of %d: %.17g, the two-layer equations give %.17g (tolerance %.2g)" % (nme, i, len(F), g[i], e[i], tol * s))
    stats.probes["compared with the exact solution (%s)" % m.kind] += 1
    stats.probes["efficacy %s 1" % ("==" if eps == 1 else "!=")] += 1
    stats.nontrivial = True
    stats.steps += len(F)
    stats.sim_seconds += len(F) * dt
    stats.state("equiv", m.kind, eps == 1, len(F), c.last)
    log_series(stats, {"T": T, "R": R})
    if op.get("converge"):
        converge(pkg, tl, F, dt, 1 / d1, eT, eR, lam, eps, eta, stats, size)


def converge(pkg, tl, F, dt, rate, eT, eR, lam, eps, eta, stats, size):
    """Halving the step of the two-layer model halves its distance from the solution."""
    k = max(1, math.ceil(dt * rate / 0.05))
    if k * len(F) > 1500:
        F, eT = F[: max(2, 1500 // k)], eT[: max(2, 1500 // k)]
        if k * len(F) > 4000:
            return
    errs = []
    for kk in (k, 2 * k):
        f = np.repeat(F, kk)
        x = drive(pkg, "TL", tl, f * ur("W/m^2"), (dt / kk) * ur("s"))
        T = np.array(x._temp_upper_mag)[::kk]
        errs.append(float(np.max(np.abs(T - eT))))
        stats.steps += len(f)
    if errs[0] > 0.05 * size:
        raise Violation("far", "two-layer model with step %.3g s is %.3g away from the solution (size %.3g)" % (dt / k, errs[0], size))
    if errs[0] > 1e-8 * size and not errs[1] <= 0.62 * errs[0]:
        raise Violation("no-convergence", "distance from the exact solution %.6g with step %.4g s, %.6g with half of it" % (errs[0], dt / k, errs[1]))
    stats.probes["convergence at half the step"] += 1
