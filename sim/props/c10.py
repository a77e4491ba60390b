"""C10: results do not depend on the units in which values are expressed.

Two simulated replicas live through the same history.  One is told everything in base
units, the other in other units chosen per value; everything observable must agree.
"""
import numpy as np

from .. import boot, build, gen
from ..client import Client, Stats, Violation, brief, near, reported, mag
from ..oracles import by_scenario
from ..units import BASE, DIMS, OUTPUTS, PARAM_DIM, PARAMS, SERIES
from .common import fresh, log_series, play

RUNS = {"quick": 3000, "thorough": 60000}
CFG = {
    "kinds": ["TL", "IR", "IR"],
    "p_fault": 0.1,
    "nops": (4, 16),
    "maxn": 16,
    "scen_rows": 4,
    "scen_maxn": 8,
    "base_only": True,
    "w": {"setp": 6, "setd": 3, "newconv": 1.2, "conv": 1.5, "heatcap": 0.6, "scen": 0.5, "scen_cut": 0, "overrun": 0, "setp_bad": 0, "setd_bad": 0, "new": 1, "run": 4, "copy": 0.2},
}
HUGE = 1e4  # beyond this a trajectory is running away and amplifies rounding


def other(rng, dim):
    return rng.choice(sorted(DIMS[dim])) if rng.random() < 0.8 else BASE[dim]


def generate(rng, tier):
    cfg = dict(CFG, regime="mild")
    ops = gen.history(rng, cfg)
    if rng.random() < 0.2:
        refused(rng, ops)
    for op in ops:
        if op["op"] == "new":
            op["alt"] = {k: other(rng, PARAM_DIM[k]) for k in op["p"]}
        elif op["op"] == "setp":
            op["alt"] = other(rng, PARAM_DIM[op["name"]])
        elif op["op"] == "setd":
            op["alt"] = other(rng, "erf")
        elif op["op"] == "scen":
            same = rng.random() < 0.3
            u = other(rng, "erf")
            for r in op["b"]["rows"]:
                f = DIMS["erf"][r["unit"]]
                r["vals"] = [v * f for v in r["vals"]]
                r["unit"] = "W/m^2"
                r["alt"] = u if same else other(rng, "erf")
    return {"ops": ops}


def refused(rng, ops):
    """Somewhere, a state-dependent feedback (however weak) and a conversion, which must be refused in any units."""
    m = rng.randrange(2)
    a = gen.logu(rng, 1e-9, 1e-3) * rng.choice([1, 1, -1])
    k = rng.randint(1, len(ops))
    ops[k:k] = [{"op": "setp", "m": m, "name": "a", "q": [a, BASE[PARAM_DIM["a"]]]}, {"op": "conv_bad", "m": m}]


def conv(x, dim, unit):
    f = DIMS[dim][unit]
    return x if f == 1.0 else x / f


def twin(op):
    """The same operation with its values in the alternative units."""
    op = dict(op)
    if op["op"] == "new":
        op["p"] = {k: [conv(q[0], PARAM_DIM[k], op["alt"][k]), op["alt"][k]] for k, q in op["p"].items()}
    elif op["op"] == "setp":
        op["q"] = [conv(op["q"][0], PARAM_DIM[op["name"]], op["alt"]), op["alt"]]
    elif op["op"] == "setd":
        e = dict(op["e"])
        e["v"] = [conv(x, "erf", op["alt"]) for x in e["v"]]
        if DIMS["erf"][op["alt"]] != 1.0:
            e["dt"] = "f8"
        e["u"] = op["alt"]
        op["e"] = e
    elif op["op"] == "scen":
        b = dict(op["b"])
        b["rows"] = [dict(r, unit=r["alt"], vals=[conv(v, "erf", r["alt"]) for v in r["vals"]]) for r in b["rows"]]
        op["b"] = b
    return op


def execute(plan, stats):
    _, a = fresh(stats)
    b = Client(boot.boot(), Stats())
    for op in plan["ops"]:
        out = []
        play(a, [op], lambda _, o, x: out.append(x))
        oa = out[0]
        ob = b.do(twin(op))
        if op["op"] == "copy" and oa.ok:
            continue
        compare(op, a, b, oa, ob, stats)


def close(x, y, rtol):
    return x == y or abs(x - y) <= rtol * max(abs(x), abs(y))


def compare(op, a, b, oa, ob, stats):
    name = op["op"]
    if oa.kind != ob.kind or (not oa.ok and type(oa.exc) is not type(ob.exc)):
        raise Violation("outcome-" + name, "%s: in base units %s, in other units %s" % (name, oa.describe(), ob.describe()))
    if name == "conv_bad" and oa.kind == "exc":
        stats.probes["refused conversions compared"] += 1
    if not oa.ok:
        return
    ma, mb = a.M.get(op.get("m", 0)), b.M.get(op.get("m", 0))
    if name in ("new", "newconv", "setp"):
        ra, rb = reported(ma.obj, ma.kind), reported(mb.obj, mb.kind)
        for k in ra:
            if not close(ra[k], rb[k], 1e-9 if name == "newconv" else 1e-10) and not (ma.dt is None and k == "delta_t"):
                raise Violation("param-" + k, "%s %s: %.17g %s in base units, %.17g in other units" % (name, k, ra[k], BASE[PARAM_DIM[k]], rb[k]))
    elif name in ("step", "run"):
        sa, sb = ma.series(), mb.series()
        alt_series(name, sa, sb, SERIES[ma.kind])
        stats.nontrivial = stats.nontrivial or ma.pos > 1
        log_series(stats, sa)
        stats.probes["series compared"] += 1
    elif name == "conv":
        if sorted(oa.value) != sorted(ob.value):
            raise Violation("conv-keys", "%s / %s" % (sorted(oa.value), sorted(ob.value)))
        for k in oa.value:
            x = mag(oa.value[k], BASE[PARAM_DIM[k]], k)
            y = mag(ob.value[k], BASE[PARAM_DIM[k]], k)
            if not close(x, y, 1e-9):
                raise Violation("conv-" + k, "converted %s: %.17g in base units, %.17g in other units" % (k, x, y))
        stats.probes["conversions compared"] += 1
    elif name == "heatcap":
        for k, x, y in zip(("upper", "lower"), oa.value, ob.value):
            x, y = mag(x, "J/m^2/delta_degC"), mag(y, "J/m^2/delta_degC")
            if not close(x, y, 1e-11):
                raise Violation("heatcap-" + k, "%s heat capacity: %.17g in base units, %.17g in other units" % (k, x, y))
    elif name == "scen":
        if not close(mag(ma.obj.delta_t, "s", "delta_t"), mag(mb.obj.delta_t, "s", "delta_t"), 1e-12):
            raise Violation("delta_t", "time step %s / %s" % (ma.obj.delta_t, mb.obj.delta_t))
        ga, gb = by_scenario(build.table(oa.value)), by_scenario(build.table(ob.value))
        if sorted(ga) != sorted(gb):
            raise Violation("scenarios", "%s / %s" % (sorted(ga), sorted(gb)))
        for s in sorted(ga):
            outs = {}
            for var in OUTPUTS[ma.kind]:
                x, y = ga[s].get(var, []), gb[s].get(var, [])
                if len(x) != 1 or len(y) != 1 or [str(t) for t in x[0].times] != [str(t) for t in y[0].times]:
                    raise Violation("output", "scenario %s: %s: %d/%d series" % (s, var, len(x), len(y)))
                if x[0].meta["unit"] != y[0].meta["unit"]:
                    raise Violation("output-unit", "scenario %s: %s in %s / %s" % (s, var, x[0].meta["unit"], y[0].meta["unit"]))
                outs[var] = (x[0].vals, y[0].vals)
            alt_series("scenario %s" % s, {k: v[0] for k, v in outs.items()}, {k: v[1] for k, v in outs.items()}, list(outs))
        stats.probes["scenario batches compared"] += 1
        stats.nontrivial = True


def alt_series(what, sa, sb, names):
    """Equal up to rounding; values are judged against the largest so far."""
    cut = None
    for k in names:
        x = np.asarray(sa[k], float)
        big = np.flatnonzero(~(np.abs(np.nan_to_num(x, nan=0.0)) < HUGE))
        if len(big):
            cut = min(big[0], len(x) if cut is None else cut)
    for k in names:
        x, y = np.asarray(sa[k], float)[:cut], np.asarray(sb[k], float)[:cut]
        scale = float(np.nanmax(np.abs(x))) if len(x) and not np.isnan(x).all() else 0.0
        if k in ("R", "Heat Uptake"):
            # heat uptake is a difference of fluxes as large as those of the temperatures
            scale = max([scale] + [10 * float(np.nanmax(np.abs(np.asarray(sa[j], float)[:cut]))) for j in names if j != k and len(x) and not np.isnan(np.asarray(sa[j], float)[:cut]).all()])
        if not near(x, y, 1e-8, max(scale, 1e-12)):
            raise Violation("series-" + k, "%s %s: in base units %s, in other units %s" % (what, k, brief(x), brief(y)))
