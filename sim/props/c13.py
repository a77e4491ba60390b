"""C13: scenario results are complete and labelled with what produced them.

Every returned set is compared, row by row and label by label, with a table the
simulator expects; models are re-parameterised, interrupted and fed their own results.
"""
import numpy as np

from .. import build, gen
from ..client import Violation, brief, same
from ..oracles import check_steps, equal_label, overflowed, selected
from ..units import DIMS, MONTH, NAMES, OUTPUTS, PARAMS, YR
from .common import fresh, play

RUNS = {"quick": 640, "thorough": 30000}
CFG = {"kinds": ["TL", "IR"], "slots": [1, 2, 2], "p_fault": 0, "maxn": 8}


def generate(rng, tier):
    regime = rng.choice(["mild", "mild", "wild"])
    cfg = dict(CFG, regime=regime)
    slots = rng.choice(CFG["slots"])
    kinds, ops = {}, []
    for s in range(slots):
        op = gen.new_op(rng, cfg, s)
        kinds[s] = op["kind"]
        ops.append(op)
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        s = rng.randrange(slots)
        for _ in range(rng.choice([0, 1, 1, 2])):
            nme = rng.choice(PARAMS[kinds[s]])
            ops.append({"op": "setp", "m": s, "name": nme, "q": gen.qty(rng, kinds[s], nme, regime)})
            if rng.random() < 0.15:
                ops[-1]["faults"] = [gen.small_fault(rng)]
        if rng.random() < 0.15:
            ops += [gen.driver_op(rng, cfg, s), {"op": "run", "m": s}]
        if rng.random() < 0.25 and any(o["op"] == "scen" for o in ops):
            ops.append({"op": "refeed", "m": s, "rows": rng.random() < 0.5})
            continue
        b = gen.batch(rng, rng.choice([1, 2, 3, 3, 4, 5]), None, regime, maxn=rng.choice([4, 8, 14]))
        gen.crowd(rng, b, 0.02)
        dress(rng, b)
        gen.odd(rng, b)
        op = {"op": "scen", "m": s, "b": b, "form": gen.form(rng)}
        if rng.random() < 0.25:
            op["faults"] = [gen.fault(rng)]
        ops.append(op)
    gen.echo(rng, ops)
    return {"ops": ops}


def dress(rng, b):
    """More metadata: shared scenario names, numbers, left-over run indices, odd names."""
    rows = b["rows"]
    if rng.random() < 0.35:
        for i, r in enumerate(rows):
            r["meta"] = dict(r["meta"], member=i)
            r["scenario"] = "shared" if rng.random() < 0.7 else r["scenario"]
    if rng.random() < 0.2:
        for r in rows:
            r["meta"] = dict(r["meta"], run_idx=rng.choice([0, 0, 7]))
    if rng.random() < 0.2:
        for r in rows:
            r["scenario"] = r["scenario"] + rng.choice(["", " with spaces", "|bar", "_1"])
    if rng.random() < 0.2:
        k = rng.choice(["version", "notes", "a_number", "ensemble_member"])
        for r in rows:
            r["meta"] = dict(r["meta"], **{k: rng.choice(["x", "y", 3, 2.5])})
    if rng.random() < 0.15:
        # columns left over from runs of other models or with other parameters
        for r in rows:
            r["meta"] = dict(r["meta"], **{"du (meter)": rng.choice([10.0, 33.5]), "efficacy (dimensionless)": 1.1, "d1 (a)": rng.choice([3.0, 9.0])})
    if rng.random() < 0.3:
        dv = rng.choice(["Effective Radiative Forcing|Total", "Radiative Forcing", "Surface Temperature|Prescribed", "Heat Uptake|Prescribed"])
        for r in rows:
            r["variable"] = dv
        b["driver_var"] = dv
    if rng.random() < 0.2:
        r = dict(rng.choice(rows))
        r["region"] = rng.choice(["World|Land", "Europe"])
        rows.insert(rng.randrange(len(rows) + 1), r)


def execute(plan, stats):
    pkg, c = fresh(stats)
    last = [None]
    calls = 0
    for op in plan["ops"]:
        m = c.M.get(op.get("m", 0))
        if op["op"] == "refeed":
            if last[0] is None or m is None:
                continue
            refeed(c, m, op, last, stats)
            calls += 1
            continue
        out = []
        play(c, [op], lambda _, o, x: out.append(x))
        out = out[0]
        if out.kind == "exc":
            raise Violation("raised", "%s %s" % (op["op"], out.describe()))
        if op["op"] == "scen" and out.ok:
            calls += 1
            want = expected(op["b"])
            judge(m, want, op["b"].get("driver_var"), out.value, stats)
            last[0] = (out.value, want, op["b"]["driver_var"])
            stats.state("scen", len(want), op["form"], m.kind, calls, len(want[0]["labels"]))
    stats.nontrivial = calls > 0 and (calls > 1 or any(len(op["b"]["rows"]) > 1 for op in plan["ops"] if op["op"] == "scen"))


def expected(b):
    """What must come back, per driver series: labels, unit, times, values."""
    extra = sorted({k for r in b["rows"] for k in r["meta"]})
    out = []
    for r in selected(b):
        labels = {"scenario": r["scenario"], "model": r["model"], "region": r["region"]}
        labels.update({k: build.label_of(r, k) for k in extra})
        labels.pop("climate_model", None)
        labels.pop("run_idx", None)
        for k in [k for k in labels if k.endswith(")")]:
            del labels[k]
        out.append({"labels": labels, "unit": r["unit"], "times": [build.iso(t) for t in build.times_of(r)], "vals": np.array(r["vals"], float), "freq": r["freq"]})
    return out


def judge(m, want, driver_var, res, stats):
    rows = build.table(res)
    outs = OUTPUTS[m.kind]
    per = 1 + len(outs)
    if len(rows) != per * len(want):
        raise Violation("row-count", "%d driver series gave %d rows, expected %d" % (len(want), len(rows), per * len(want)))
    # labels of the model
    for r in rows:
        if r.meta.get("climate_model") != NAMES[m.kind]:
            raise Violation("climate-model", "climate model is %r" % (r.meta.get("climate_model"),))
        for k in PARAMS[m.kind]:
            q = getattr(m.obj, k)
            col = "%s (%s)" % (k, q.units)
            if col not in r.meta:
                raise Violation("parameter-missing", "no column %r in %s" % (col, sorted(map(str, r.meta))))
            if not (isinstance(r.meta[col], (int, float, np.integer, np.floating)) and float(r.meta[col]) == float(q.magnitude)):
                raise Violation("parameter-value", "%s is %r, the model has %r" % (col, r.meta[col], q.magnitude))
            if abs(float(r.meta[col]) * DIMF(k, q) - m.p[k]) > 1e-10 * abs(m.p[k]):
                raise Violation("parameter-set", "%s = %r but the model was given %r" % (col, r.meta[col], m.p[k]))
    # which scenario does each row belong to
    groups = {i: [] for i in range(len(want))}
    for r in rows:
        hits = [i for i, w in enumerate(want) if all(k in r.meta and equal_label(r.meta[k], v) for k, v in w["labels"].items())]
        if len(hits) != 1:
            raise Violation("labels", "row labelled %s matches %d of the driver series" % ({k: r.meta.get(k) for k in want[0]["labels"]}, len(hits)))
        groups[hits[0]].append(r)
    seen = {}
    for i, w in enumerate(want):
        rs = groups[i]
        names = sorted(str(r.meta["variable"]) for r in rs)
        if names != sorted([driver_var] + list(outs)) and not (driver_var in outs):
            raise Violation("variables", "scenario %s has %s" % (w["labels"], names))
        idx = {str(r.meta.get("run_idx")) for r in rs}
        if len(idx) != 1 or "None" in idx or "nan" in idx:
            raise Violation("run-index", "scenario %s has run indices %s" % (w["labels"], sorted(idx)))
        idx = idx.pop()
        if idx in seen:
            raise Violation("run-index", "scenarios %s and %s share run index %s" % (seen[idx], w["labels"], idx))
        seen[idx] = w["labels"]
        by = {}
        drv = None
        blown = overflowed(rs)
        for r in rs:
            if blown and r.meta["variable"] != driver_var and len(r.vals) < len(w["vals"]):
                # what follows an overflow is not a number and shows as missing
                r.times = [t for t in r.times] + build.times_like(w["times"][len(r.vals):])
                r.vals = np.concatenate([r.vals, np.full(len(w["vals"]) - len(r.vals), np.nan)])
            if [build.iso(t) for t in r.times] != w["times"]:
                raise Violation("times", "scenario %s, %s: times %s.. (%d), driver %s.. (%d)" % (w["labels"], r.meta["variable"], [build.iso(t) for t in r.times[:3]], len(r.times), w["times"][:3], len(w["times"])))
            if r.meta["variable"] == driver_var and (driver_var not in outs):
                drv = r
            else:
                by[str(r.meta["variable"])] = r
                if str(r.meta["unit"]) != outs[str(r.meta["variable"])]:
                    raise Violation("unit", "%s in %s" % (r.meta["variable"], r.meta["unit"]))
        if str(drv.meta["unit"]) != w["unit"] or not same(drv.vals, w["vals"]):
            raise Violation("driver", "scenario %s: driver came back as %s %s, was %s %s" % (w["labels"], brief(drv.vals), drv.meta["unit"], brief(w["vals"]), w["unit"]))
        F = w["vals"] * DIMS["erf"][w["unit"]]
        if m.kind == "TL":
            S = {"Tu": by["Surface Temperature|Upper"].vals, "Tl": by["Surface Temperature|Lower"].vals, "R": by["Heat Uptake"].vals}
            what = {"Tu", "Tl", "R"}
        else:
            S = {"T1": by["Surface Temperature|Box 1"].vals, "T2": by["Surface Temperature|Box 2"].vals, "R": by["Heat Uptake"].vals}
            what = {"T1", "T2", "R"}
            tot = by["Surface Temperature"].vals
            size = np.abs(S["T1"]) + np.abs(S["T2"])
            if not np.all((np.abs(tot - S["T1"] - S["T2"]) <= 1e-13 * size) | ~np.isfinite(size)):
                raise Violation("sum", "scenario %s: surface temperature is not the sum of the boxes" % w["labels"])
        check_steps(m.kind, m.p, YR if w["freq"] == "Y" else MONTH, list(F), S, 0, len(F), what, "scenario %s: " % w["labels"])
    stats.probes["result sets checked"] += 1
    stats.probes["result rows checked"] += len(rows)


def DIMF(name, q):
    from ..units import BASE, PARAM_DIM

    return (1 * q.units).to(BASE[PARAM_DIM[name]]).magnitude


def refeed(c, m, op, last, stats):
    """Run the model on an earlier result (its driver series are still in it)."""
    res, want, dv = last[0]
    src = res.copy()
    before = build.fingerprint_input(src)
    m.drv, m.pos, m.touched = None, None, True
    out = c.call("run_scenarios", lambda: m.obj.run_scenarios(src, driver_var=dv, progress=False))
    if not out.ok:
        raise Violation("raised", "run on earlier results: %s" % out.describe())
    if build.fingerprint_input(src) != before:
        raise Violation("input", "run on earlier results changed them")
    m.dt = YR if want[0]["freq"] == "Y" else MONTH
    stats.ops["refeed"] += 1
    judge(m, want, dv, out.value, stats)
    stats.probes["runs on earlier results"] += 1
