"""C17: only world data of the requested driver influences a run.

One client runs scenario sets full of foreign, corrupted and misleading series; a shadow
client runs the same driver series alone.  Results must agree up to rounding.
"""
import datetime as dt

import numpy as np

from .. import boot, build, gen
from ..client import Client, Stats, Violation, alike, brief, mag
from ..oracles import selected
from ..units import DIMS, MONTH, PARAMS, YR
from .common import fresh, play

RUNS = {"quick": 800, "thorough": 28000}
DRIVERS = [gen.ERF, "Radiative Forcing", "Effective Radiative Forcing|Anthropogenic", "Forcing"]
UNITS = ["K", "W/m^2", "mW/m^2", "Mt CO2/yr", "GtC", "dimensionless", "bananas", "W", "degC"]


def near_unit(rng, unit):
    """The driver's unit, its case changed, or another unit of forcing."""
    swapped = [u for u in sorted(DIMS["erf"]) if u.lower() == unit.lower()]
    return rng.choice([unit, rng.choice(swapped), rng.choice(sorted(DIMS["erf"]))])


def noise_row(rng, i, b):
    base = rng.choice(b["rows"])
    dv = b["driver_var"]
    what = rng.choice(["variable", "region", "subvariable", "both", "lookalike", "other driver", "similar"])
    var, region = dv, "World"
    if what == "variable":
        var = rng.choice(["Surface Temperature", "Emissions|CO2", "Heat Uptake", "Surface Temperature|Upper", "Atmospheric Concentrations|CO2"])
    elif what == "region":
        region = rng.choice(["World|Land", "Europe", "World|R5ASIA", "world", "World2", "R5World"])
    elif what == "subvariable":
        var = dv + rng.choice(["|CO2", "|Volcanic", "|", "2"])
    elif what == "both":
        var, region = "Surface Temperature", "World|Ocean"
    elif what == "lookalike":
        var = rng.choice([dv.lower(), dv + " ", "Pre " + dv, dv.split("|")[0] + "|World", "|" + dv])
    elif what == "other driver":
        var = rng.choice([d for d in DRIVERS if d != dv])
    else:
        region = rng.choice(["", "World|World", " World", "World "])
    axis = rng.choice(["same", "same", "same", "longer", "monthly", "mid year", "early", "inside", "one"])
    ts = build.times_of(base)
    if axis == "longer":
        y = ts[0].year
        ts = [dt.datetime(y - 5 + i, 1, 1) for i in range(len(ts) + 12)]
    elif axis == "monthly":
        y = ts[0].year
        ts = [dt.datetime(y + k // 12, k % 12 + 1, 1) for k in range(rng.randint(3, 26))]
    elif axis == "mid year":
        ts = [dt.datetime(t.year, 7, 2) for t in ts]
        ts = sorted(set(ts))
    elif axis == "early":
        ts = [dt.datetime(1000 + 13 * i, 3, 1) for i in range(3)]
    elif axis == "inside":
        ts = ts[1:-1] or ts
    elif axis == "one":
        ts = ts[:1]
    style = rng.choice(["plain", "nan", "huge", "inf", "all nan", "zero"])
    vals = [gen.r4(rng.gauss(0, 5)) for _ in ts]
    if style == "nan":
        vals = [None if rng.random() < 0.5 else v for v in vals]
    elif style == "huge":
        vals = [v * 1e300 for v in vals]
    elif style == "inf":
        vals = [float("1e999") if rng.random() < 0.3 else v for v in vals]
        vals = ["inf" if v == float("inf") else v for v in vals]
    elif style == "all nan":
        vals = [None] * len(ts)
    elif style == "zero":
        vals = [0.0] * len(ts)
    return {
        "scenario": rng.choice([base["scenario"], base["scenario"], "noise%d" % i]),
        "model": base["model"],
        "variable": var,
        "region": region,
        "unit": near_unit(rng, base["unit"]) if rng.random() < 0.3 else rng.choice(UNITS),
        "freq": "Y",
        "start": ts[0].year,
        "times": [t.isoformat() for t in ts],
        "vals": vals,
        "meta": dict(base["meta"], noise=i) if rng.random() < 0.2 else dict(base["meta"]),
        "kind": "%s, %s axis, %s" % (what, axis, style),
    }


def distinct(rows):
    """Scenario sets need unique labels."""
    seen, out = set(), []
    for r in rows:
        k = (r["scenario"], r["model"], r["variable"], r["region"], r["unit"], repr(sorted((k, str(v)) for k, v in r["meta"].items())))
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def generate(rng, tier):
    regime = rng.choice(["mild", "mild", "wild"])
    cfg = {"kinds": ["TL", "IR"], "regime": regime, "maxn": 8}
    kind = rng.choice(["TL", "IR"])
    ops = [gen.new_op(rng, cfg, 0, kind)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            nme = rng.choice(PARAMS[kind] + ("delta_t",))
            ops.append({"op": "setp", "m": 0, "name": nme, "q": gen.qty(rng, kind, nme, regime)})
        b = gen.batch(rng, rng.choice([1, 1, 2, 3]), None, regime, maxn=rng.choice([4, 10]))
        gen.crowd(rng, b, 0.01)
        gen.odd(rng, b)
        dv = rng.choice(DRIVERS)
        alike = rng.choice(["mW/m^2", "MW/m^2"]) if rng.random() < 0.15 else None
        for r in b["rows"]:
            r["variable"] = dv
            if alike is not None:
                r["unit"] = alike
        b["driver_var"] = dv
        noise = [noise_row(rng, i, b) for i in range(rng.choice([1, 1, 2, 3, 5]))]
        op = {"op": "noisy", "m": 0, "b": b, "noise": noise, "place": rng.randrange(1 << 16), "form": gen.form(rng)}
        if rng.random() < 0.2:
            op["only_noise"] = 1
        if rng.random() < 0.15:
            op["faults"] = [gen.fault(rng)]
        if dv == gen.ERF and rng.random() < 0.4:
            op["default_var"] = 1
        ops.append(op)
    gen.echo(rng, ops)
    return {"ops": ops}


def mixed(op):
    rows = [] if op.get("only_noise") else [dict(r) for r in op["b"]["rows"]]
    k = op["place"]
    for r in op["noise"]:
        r = dict(r, vals=[float("inf") if v == "inf" else v for v in r["vals"]])
        rows.insert(k % (len(rows) + 1), r)
        k //= 7
    return {"rows": distinct(rows), "driver_var": op["b"]["driver_var"]}


def execute(plan, stats):
    pkg, c = fresh(stats)
    quiet = Client(boot.boot(), Stats())
    for op in plan["ops"]:
        if op["op"] != "noisy":
            c.do(op)
            quiet.do(op)
            continue
        m, q = c.M.get(op["m"]), quiet.M.get(op["m"])
        if m is None:
            continue
        b = mixed(op)
        src = c.scen_input(dict(op, b=b))
        kw = {} if op.get("default_var") else {"driver_var": b["driver_var"]}
        m.drv, m.pos, m.touched, m.dt = None, None, True, None
        out = c.attempt(op, m, "run_scenarios", lambda: m.obj.run_scenarios(src, progress=False, **kw))
        stats.ops["run_scenarios with noise"] += 1
        for r in op["noise"]:
            stats.faults["noise series: " + r["kind"].split(",")[0]] += 1
            stats.faults["noise values:" + r["kind"].split(",")[2]] += 1
            stats.faults["noise axis:" + r["kind"].split(",")[1]] += 1
            stats.state("noise", r["kind"], m.kind)
        stats.log("noisy", out.kind)
        if not selected(b):
            if out.ok:
                raise Violation("ran-without-driver", "no world series of %r, yet the run returned a result" % b["driver_var"])
            if not isinstance(out.exc, ValueError):
                raise Violation("wrong-error", "no world series of %r: %s" % (b["driver_var"], out.describe()))
            stats.probes["refused without driver data"] += 1
            continue
        if not out.ok:
            raise Violation("raised", "driver series with %d other series (%s): %s" % (len(op["noise"]), op["noise"][0]["kind"] if op["noise"] else "", out.describe()))
        ref = build.table(q.obj.run_scenarios(build.scmrun(op["b"]), driver_var=b["driver_var"], progress=False))
        compare(build.table(out.value), ref)
        got, exp = mag(m.obj.delta_t, "s", "delta_t"), mag(q.obj.delta_t, "s", "delta_t")
        if got != exp:
            raise Violation("delta_t", "time step %r s with the other series, %r s without" % (got, exp))
        m.dt = YR if op["b"]["rows"][0]["freq"] == "Y" else MONTH
        stats.probes["compared with noise-free run"] += 1
        stats.nontrivial = True
        stats.steps += sum(len(r["vals"]) for r in op["b"]["rows"])
        stats.sim_seconds += sum(len(r["vals"]) for r in op["b"]["rows"]) * m.dt


def key(r, cols):
    return tuple(str(r.meta.get(k)) for k in cols)


def compare(got, ref):
    cols = sorted(k for k in ref[0].meta if k != "run_idx")
    a, b = sorted(got, key=lambda r: key(r, cols)), sorted(ref, key=lambda r: key(r, cols))
    ka, kb = [key(r, cols) for r in a], [key(r, cols) for r in b]
    if ka != kb:
        extra = [k for k in ka if k not in kb][:2]
        lost = [k for k in kb if k not in ka][:2]
        raise Violation("rows", "%d rows with the other series, %d without; extra %s, missing %s" % (len(a), len(b), extra, lost))
    for x, y in zip(a, b):
        if [build.iso(t) for t in x.times] != [build.iso(t) for t in y.times]:
            raise Violation("times", "%s: %d points with the other series, %d without" % (y.meta["variable"], len(x.times), len(y.times)))
        if not alike(x.vals, y.vals):
            raise Violation("values", "%s: %s with the other series, %s without" % (y.meta["variable"], brief(x.vals), brief(y.vals)))
