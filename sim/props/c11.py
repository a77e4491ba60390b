"""C11: parameter conversion reflects the current parameters and round-trips.

At random instants of random histories (re-parameterisation, runs, crash points, copies,
models built from converted parameters) conversions are compared with an eigen-analysis
of the equations with the parameters in force.
"""
from .. import exact, gen, ref
from ..client import Outcome, Violation, convertible, reported, reported_erf, reported_exact, same, mag
from ..units import BASE, PARAM_DIM, SERIES
from .common import fresh, play

RUNS = {"quick": 6000, "thorough": 80000}
CFG = {
    "kinds": ["TL", "IR"],
    "p_fault": 0.3,
    "nops": (3, 14),
    "maxn": 8,
    "w": {"conv": 7, "heatcap": 3, "setp": 9, "newconv": 3, "step": 1.5, "run": 1, "setd": 1, "copy": 1, "new": 1, "scen": 0.1, "scen_cut": 0, "overrun": 0.1},
}
SI = {"lambda0": "W/m^2/delta_degC", "eta": "W/m^2/delta_degC"}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    ops = gen.history(rng, cfg)
    if rng.random() < 0.8:
        # keep most two-layer models convertible
        for op in ops:
            if op["op"] == "new":
                op["p"].pop("a", None)
        ops = [op for op in ops if not (op["op"] == "setp" and op["name"] == "a" and rng.random() < 0.8)]
    for op in ops:
        if op["op"] == "conv" and rng.random() < 0.5:
            op["back"] = 1
        if op["op"] == "setp" and rng.random() < 0.1 and ops:
            op["faults"] = [gen.small_fault(rng)]
    return {"ops": ops}


def execute(plan, stats):
    pkg, c = fresh(stats)

    for op in plan["ops"]:
        m = c.M.get(op.get("m", 0))
        pre = snap(m) if m is not None and op["op"] in ("conv", "heatcap") else None
        src = c.M.get(op.get("from")) if op["op"] == "newconv" else None
        spre = snap(src) if src is not None else None
        spp = dict(src.p) if src is not None else None
        if op["op"] == "conv" and m is not None and m.kind == "TL" and m.p["a"] != 0:
            refuse(c, m, op, pre, stats)
            continue
        out = []
        play(c, [op], lambda _, o, x: out.append(x))
        out = out[0]
        if out.kind == "exc" and op["op"] not in ("overrun", "setp_bad", "setd_bad"):
            raise Violation("raised", "%s %s" % (op["op"], out.describe()))
        if not out.ok:
            continue
        m = c.M.get(op.get("m", 0))
        if pre is not None:
            untouched(op["op"], pre, snap(m))
        if op["op"] == "conv":
            stats.nontrivial = True
            judge(m.kind, m.p, {k: v for k, v in out.value.items()}, stats, c)
            if op.get("back"):
                round_trip(pkg, m, stats)
        elif op["op"] == "heatcap":
            heatcap(m, out.value)
            stats.probes["heat capacities"] += 1
        elif op["op"] == "newconv" and src is not None:
            untouched("newconv", spre, snap(src))
            n = c.M[op["m"]]
            judge(src.kind, spp, {k: getattr(n.obj, k) for k in n.p}, stats, c)
        elif op["op"] == "setp" and m.kind == "TL" and op["name"] in ("du", "dl"):
            heatcap(m, (m.obj.heat_capacity_upper, m.obj.heat_capacity_lower))


def refuse(c, m, op, pre, stats):
    """State-dependent models have no equivalent."""
    out = c.attempt(op, m, "conversion with a", m.obj.get_impulse_response_parameters)
    if out.kind != "exc" or not isinstance(out.exc, ValueError):
        raise Violation("state-dependent", "conversion with a = %.17g W/m^2/K^2 (given as %s) %s" % (m.p["a"], m.q["a"], out.describe()))
    untouched("refused conversion", pre, snap(m))
    stats.faults["refused conversion of a state-dependent model"] += 1


def snap(m):
    return (reported_exact(m.obj, m.kind) if m.dt is not None else None, reported_erf(m.obj), m.series())


def untouched(what, x, y):
    if x[0] != y[0] or x[1] != y[1] or not all(same(x[2][k], y[2][k]) for k in x[2]):
        raise Violation("touched", "%s changed the model: %s -> %s" % (what, x[:2], y[:2]))


def heatcap(m, got):
    for nme, g, d in (("upper", got[0], m.p["du"]), ("lower", got[1], m.p["dl"])):
        g = mag(g, "J/m^2/delta_degC", "heat capacity")
        e = d * ref.RHO * ref.CP
        if not abs(g - e) <= 1e-11 * abs(e):
            raise Violation("heatcap-" + nme, "heat capacity %.17g, depth %.17g m gives %.17g" % (g, d, e))


def check(key, what, got, exp, tol):
    if not abs(got - exp) <= tol * abs(exp):
        raise Violation(key, "%s: converted %.17g, the equations with the current parameters give %.17g (relative tolerance %.2g)" % (what, got, exp, tol))


def judge(kind, p, got, stats, c):
    """Compare a converted parameter set with the analysis of the current parameters."""
    if kind == "TL":
        d1, d2, q1, q2, sens = exact.modes(p["lambda0"], p["du"] * ref.RHO * ref.CP, p["dl"] * ref.RHO * ref.CP, p["eta"], p["efficacy"])
        tol = 1e-11 + 3e-14 * sens
        if tol > 1e-3:
            stats.probes["too ill-conditioned to judge"] += 1
            return
        exp = {"d1": d1, "d2": d2, "q1": q1, "q2": q2, "efficacy": p["efficacy"]}
        for k in exp:
            if k not in got:
                raise Violation("missing-" + k, "conversion gave %s" % sorted(got))
            check("modes-" + k, k, mag(got.get(k), BASE[PARAM_DIM[k]], k), exp[k], tol if k != "efficacy" else 1e-14)
        stats.probes["two-layer to impulse response"] += 1
        stats.state("TL", round(tol, 13), p["efficacy"] == 1)
        return
    lam, C, CD, eta, sens = exact.two_layer(p["q1"], p["q2"], p["d1"], p["d2"], p["efficacy"])
    tol = 1e-11 + 3e-14 * sens * sens
    if tol > 1e-3:
        stats.probes["too ill-conditioned to judge"] += 1
        return
    exp = {"lambda0": lam, "du": C / (ref.RHO * ref.CP), "dl": CD / (ref.RHO * ref.CP), "eta": eta, "efficacy": p["efficacy"]}
    for k in exp:
        if k not in got:
            raise Violation("missing-" + k, "conversion gave %s" % sorted(got))
        check("equations-" + k, k, mag(got.get(k), BASE[PARAM_DIM[k]], k), exp[k], tol if k != "efficacy" else 1e-14)
    if "a" in got and mag(got["a"], BASE["a"], "a") != 0:
        raise Violation("equations-a", "state dependence %s" % got["a"])
    stats.probes["impulse response to two-layer"] += 1
    stats.state("IR", round(tol, 13), p["efficacy"] == 1)


def round_trip(pkg, m, stats):
    """There and back returns the original parameters."""
    p = m.p
    if m.kind == "TL":
        sens = exact.modes(p["lambda0"], p["du"] * ref.RHO * ref.CP, p["dl"] * ref.RHO * ref.CP, p["eta"], p["efficacy"])
        *q, s1 = sens
        s2 = exact.two_layer(q[2], q[3], q[0], q[1], p["efficacy"])[4]
        if not q[0] < q[1] * (1 - 1e-9):
            return
    else:
        lam, C, CD, eta, s2 = exact.two_layer(p["q1"], p["q2"], p["d1"], p["d2"], p["efficacy"])
        if not (CD > 0 and eta > 0):
            return
        s1 = exact.modes(lam, C, CD, eta, p["efficacy"])[4]
    tol = 1e-10 + 3e-13 * s1 * s2 * s2
    if tol > 1e-3 or s1 > 1e8:
        stats.probes["too ill-conditioned to judge"] += 1
        return
    there = m.obj.get_impulse_response_parameters() if m.kind == "TL" else m.obj.get_two_layer_parameters()
    other = pkg.cls("IR" if m.kind == "TL" else "TL")(**there)
    back = other.get_two_layer_parameters() if m.kind == "TL" else other.get_impulse_response_parameters()
    for k in back:
        check("round-trip-" + k, k, mag(back.get(k), BASE[PARAM_DIM[k]], k), p[k], tol)
    stats.probes["round trips"] += 1
