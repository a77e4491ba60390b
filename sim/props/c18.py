"""C18: once forcing stops changing, models settle at equilibrium (bounded liveness).

Random histories (re-parameterisation, crash points, partial runs) bring a model to some
state; forcing is then held and the model must be in balance within a number of steps
fixed by its slowest timescale.
"""
import math

import numpy as np

from .. import exact, gen, ref
from ..boot import ur
from ..client import Violation, brief
from ..units import DIMS, PARAMS, YR
from .common import fresh, log_series, play

RUNS = {"quick": 1400, "thorough": 40000}
CFG = {
    "kinds": ["TL", "TL", "IR"],
    "p_fault": 0.25,
    "nops": (1, 7),
    "maxn": 10,
    "slots": [1],
    "w": {"conv": 0.4, "newconv": 0, "copy": 0, "setp": 7, "scen": 0.1, "scen_cut": 0.1, "overrun": 0.2, "setp_bad": 0.3, "setd_bad": 0.2, "step": 3, "run": 2},
}
MAXN = 6000


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "mild", "wild"]))
    ops = gen.history(rng, cfg)
    kind = ops[0]["kind"]
    ops.append(settle_op(rng, kind))
    if rng.random() < 0.4:
        ops += gen.history(rng, dict(cfg, kinds=[kind]))[1:]
        ops.append(settle_op(rng, kind))
    return {"ops": ops}


def settle_op(rng, kind):
    goal = rng.choice(["settle", "settle", "settle", "rest", "zero"])
    op = {"op": "settle", "m": 0, "goal": goal, "u": rng.choice(sorted(DIMS["erf"])), "frac": gen.r4(rng.uniform(0.15, 0.95)), "dtu": rng.choice(["s", "yr", "day", "month"])}
    op["f"] = gen.r4(rng.choice([1, 1, 1, -1]) * gen.logu(rng, 0.1, 8)) if goal == "settle" else gen.logu(rng, 0.1, 8)
    if goal == "settle":
        op["prefix"] = gen.erf_values(rng, rng.randint(0, 12), "mild") if rng.random() < 0.8 else []
        op["mids"] = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            nme = rng.choice(PARAMS[kind])
            op["mids"].append([rng.randint(1, 12), nme, gen.qty(rng, kind, nme, "mild")])
        op["mids"].sort(key=lambda x: x[0])
    if rng.random() < 0.12:
        # a forcing so weak that nothing absolute may decide
        s = 10.0 ** -rng.randint(3, 12)
        op["f"] *= s
        op["prefix"] = [x * s for x in op.get("prefix", [])]
    if rng.random() < 0.3:
        op["faults"] = [gen.fault(rng)]
    op["n"] = rng.choice([5, 40, 200])
    return op


def execute(plan, stats):
    pkg, c = fresh(stats)
    for op in plan["ops"]:
        if op["op"] == "settle":
            m = c.M.get(op["m"])
            if m is not None:
                settle(c, m, op, stats)
            continue
        play(c, [op])


def set_dt(m, seconds, unit):
    f = DIMS["time"][unit]
    m.obj.delta_t = (seconds / f) * ur(unit)
    m.dt = seconds


def drive(m, F, unit):
    f = DIMS["erf"][unit]
    m.obj.set_drivers(np.array([x / f for x in F]) * ur(unit))
    m.drv = list(F)
    m.spec = None
    m.pos = None
    m.obj.reset()
    m.pos, m.uniform = 0, True


def params_ok(m):
    p = m.p
    if m.kind == "IR":
        return p["q1"] > 0 and p["q2"] > 0 and 0 < p["d1"] < p["d2"]
    return p["lambda0"] > 0.05 and p["eta"] > 1e-3 and p["efficacy"] > 0 and p["du"] > 0 and p["dl"] > 0


def equilibrium(p, f):
    """The stable equilibrium temperature (None: none)."""
    lam, a = p["lambda0"], p["a"]
    if a == 0:
        return f / lam
    disc = lam * lam - 4 * a * f
    if disc <= 0.1 * lam * lam:
        return None
    return 2 * f / (lam + math.sqrt(disc))


def rates(p, lo, hi):
    """Bounds on the feedback over temperatures lo..hi, and the time step they allow."""
    slopes = [p["lambda0"] - 2 * p["a"] * t for t in (lo, hi)]
    return min(slopes), max(slopes)


def settle(c, m, op, stats):
    if not params_ok(m):
        return
    goal = op["goal"]
    if goal == "zero":
        zero(c, m, op, stats)
        return
    prefix, mids = op.get("prefix", []), op.get("mids", [])
    if m.kind == "IR":
        settle_ir(c, m, op, prefix, mids, stats)
    else:
        settle_tl(c, m, op, prefix, mids, stats)


def apply_mid(c, m, name, q):
    if name in PARAMS[m.kind]:
        c.do({"op": "setp", "m": 0, "name": name, "q": q})


def walk(c, m, prefix, mids):
    """Step through the prefix, re-parameterising on the way."""
    mids = [x for x in mids if x[0] <= len(prefix)]
    for k, nme, q in mids:
        if k > m.pos:
            c.do({"op": "step", "m": 0, "n": k - m.pos})
        apply_mid(c, m, nme, q)
    if len(prefix) > m.pos:
        c.do({"op": "step", "m": 0, "n": len(prefix) - m.pos})


def zero(c, m, op, stats):
    n = op["n"]
    if m.dt is None:
        set_dt(m, YR, "yr")
    drive(m, [0.0] * n, op["u"])
    c.do({"op": "run", "m": 0, "faults": op.get("faults", [])})
    S = m.series()
    for k, v in S.items():
        if v.shape != (n,) or not np.all(v == 0):
            raise Violation("zero-" + k, "no forcing, but %s = %s" % (k, brief(v[v != 0])))
    stats.probes["stays at zero"] += 1
    stats.nontrivial = True


def final_params(m, mids, prefix):
    p = dict(m.p)
    for k, nme, q in mids:
        if k <= len(prefix) and nme in p:
            from ..units import PARAM_DIM

            p[nme] = q[0] * DIMS[PARAM_DIM[nme]][q[1]]
    return p


def settle_ir(c, m, op, prefix, mids, stats):
    p = final_params(m, mids, prefix)
    if not (p["d1"] < p["d2"] and p["q1"] > 0 and p["q2"] > 0):
        return
    dt = p["d2"] * op["frac"] * 0.2
    if dt / p["d1"] > 600:
        return
    n = math.ceil(20.7 * p["d2"] / dt) + 2
    f = op["f"]
    if op["goal"] == "rest":
        prefix, mids = [], []
    set_dt(m, dt, op["dtu"])
    drive(m, list(prefix) + [f] * n, op["u"])
    if prefix:
        walk(c, m, prefix, mids)
        before = op.get("faults") and m.uniform
    p = m.p
    c.do({"op": "step" if m.pos else "run", "m": 0, "n": n + len(prefix), "faults": op.get("faults", [])})
    S = m.series()
    check_done(m, S, len(prefix) + n)
    size = (p["q1"] + p["q2"]) * max([abs(f)] + [abs(x) for x in prefix])
    imp = exact.two_layer(p["q1"], p["q2"], p["d1"], p["d2"], p["efficacy"])
    for k, e in (("T1", p["q1"] * f), ("T2", p["q2"] * f)):
        if not abs(S[k][-1] - e) <= 1e-6 * size:
            raise Violation("equilibrium-" + k, "after %d steps of %.4g s with constant forcing %s = %.10g, equilibrium %.10g" % (n, dt, k, S[k][-1], e))
    flux = max([abs(f)] + [abs(x) for x in prefix]) * (1 + abs(p["efficacy"] - 1) * imp[3] / imp[0] * (2 + imp[4] ** 2))
    if not abs(S["R"][-1]) <= 1e-6 * flux:
        raise Violation("equilibrium-R", "after %d steps with constant forcing heat uptake is still %.10g W/m^2" % (n, S["R"][-1]))
    if op["goal"] == "rest":
        for k, e in (("T1", p["q1"] * f), ("T2", p["q2"] * f)):
            monotone(k, S[k], e)
    finish(m, S, op, stats)


def settle_tl(c, m, op, prefix, mids, stats):
    p = final_params(m, mids, prefix)
    f = op["f"]
    if not (p["lambda0"] > 0.05 and p["eta"] > 1e-3 and p["du"] > 0 and p["dl"] > 0):
        return
    eq = equilibrium(p, f)
    if eq is None:
        stats.probes["no stable equilibrium"] += 1
        return
    if op["goal"] == "rest":
        prefix, mids = [], []
    C, CD = p["du"] * ref.RHO * ref.CP, p["dl"] * ref.RHO * ref.CP
    span = max([abs(eq)] + [abs(x) / p["lambda0"] for x in prefix]) * 1.5
    lo, hi = rates(p, -span if prefix or eq < 0 else 0.0, span if prefix or eq > 0 else 0.0)
    if op["goal"] == "rest":
        lo, hi = rates(p, min(0, eq), max(0, eq))
    limit = 1.0 / max((hi + p["efficacy"] * p["eta"]) / C, p["eta"] / CD)
    dt = op["frac"] * limit
    if lo < 0.2 * p["lambda0"]:
        stats.probes["too close to instability to judge"] += 1
        return
    slow = 1.0 / exact.modes(lo, C, CD, p["eta"], p["efficacy"])[1]
    n = math.ceil(20.7 / (dt * slow)) + 2
    if n > MAXN:
        stats.probes["too slow to simulate"] += 1
        return
    set_dt(m, dt, op["dtu"])
    drive(m, list(prefix) + [f] * n, op["u"])
    if prefix:
        walk(c, m, prefix, mids)
        S = m.series()
        if m.pos:
            t = max(abs(S["Tu"][m.pos - 1]), abs(S["Tl"][m.pos - 1]))
            if not t <= span:
                stats.probes["outside the range the bound covers"] += 1
                return
    c.do({"op": "step" if m.pos else "run", "m": 0, "n": n + len(prefix), "faults": op.get("faults", [])})
    S = m.series()
    check_done(m, S, len(prefix) + n)
    size = span
    for k in ("Tu", "Tl"):
        if not abs(S[k][-1] - eq) <= 1e-6 * size:
            raise Violation("equilibrium-" + k, "after %d steps of %.4g s with constant forcing %s = %.10g, equilibrium %.10g" % (n, dt, k, S[k][-1], eq))
    flux = size * (hi + p["eta"] * (1 + p["efficacy"]))
    if not abs(S["R"][-1]) <= 1e-6 * flux:
        raise Violation("equilibrium-R", "after %d steps with constant forcing heat uptake is still %.10g W/m^2" % (n, S["R"][-1]))
    if op["goal"] == "rest":
        monotone("Tu", S["Tu"], eq)
        monotone("Tl", S["Tl"], eq)
        if not np.all(S["R"] >= -1e-9 * flux):
            raise Violation("uptake-sign", "heat uptake becomes negative (%.6g) while warming from rest" % S["R"].min())
    finish(m, S, op, stats)


def check_done(m, S, n):
    for k, v in S.items():
        if v.shape != (n,) or not np.all(np.isfinite(v)):
            raise Violation("unfinished-" + k, "%d of %d values of %s computed" % (int(np.isfinite(v).sum()), n, k))


def monotone(k, v, eq):
    d = np.diff(v)
    if not np.all(d >= -1e-12 * abs(eq)):
        i = int(np.argmin(d))
        raise Violation("monotone-" + k, "%s falls from %.17g to %.17g at step %d under constant forcing from rest" % (k, v[i], v[i + 1], i))
    if not np.all(v <= eq * (1 + 1e-9)):
        raise Violation("overshoot-" + k, "%s reaches %.17g, equilibrium is %.17g" % (k, v.max(), eq))


def finish(m, S, op, stats):
    stats.probes["settled (%s, %s)" % (m.kind, op["goal"])] += 1
    stats.nontrivial = True
    stats.state("settle", m.kind, op["goal"], len(op.get("prefix", [])), len(op.get("mids", [])), m.p.get("a", 0) == 0, m.p["efficacy"] == 1)
    log_series(stats, S)
