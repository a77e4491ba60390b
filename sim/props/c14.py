"""C14: the time step follows each scenario set's own time axis.

Sequences of annual, monthly and unsupported time axes on one model, mixed with time
steps set by hand, direct runs, crash points and refusals.
"""
import datetime as dt

import numpy as np

from .. import boot, build, gen
from ..client import Violation, same, brief, mag
from ..oracles import by_scenario, check_scen_steps, selected
from ..units import MONTH, PARAMS, SERIES, YR
from .common import fresh, play

RUNS = {"quick": 1000, "thorough": 35000}
CFG = {"kinds": ["TL", "IR"], "slots": [1], "p_fault": 0, "maxn": 8}
BAD_AXES = ["decades", "two years", "half years", "quarters", "two months", "weeks", "days", "gap", "gap month", "mixed", "irregular", "shifted", "day pair", "hole for one", "extra point", "extra month", "27 days", "32 days", "fortnights", "five years", "years then decades"]
GOOD_AXES = ["Y", "Y", "Y mid", "Y day", "M", "M", "M mid", "M end", "M turn"]

LONG_AXES = ["Y", "Y mid", "M mid", "M end", "gap", "gap month", "extra point", "extra month", "years then decades"]


def iso(ts):
    return [t.isoformat() for t in ts]


def month_at(k, day):
    y, m = divmod(k, 12)
    if day == 31:
        nxt = dt.datetime((k + 1) // 12, (k + 1) % 12 + 1, 1)
        return nxt - dt.timedelta(days=1)
    return dt.datetime(y, m + 1, day)


def axis(rng, kind):
    """Times of one row (or of two rows) with this kind of axis, and its step in seconds."""
    y = rng.choice([1850, 1750, 2000, 2015, rng.randint(1700, 2250)])
    n = rng.choice([2, 3, 4, rng.randint(3, 10)])
    mo = rng.randint(1, 12)
    if kind in LONG_AXES and rng.random() < 0.08:
        y, n = 1700, rng.randint(100, 380)
    if kind == "Y":
        return [[dt.datetime(y + i, 1, 1) for i in range(n)]], YR
    if kind == "Y mid":
        return [[dt.datetime(y + i, mo, rng.choice([1, 1, 15]) if i == 0 else 1) for i in range(n)]] if False else [[dt.datetime(y + i, mo, 1) for i in range(n)]], YR
    if kind == "Y day":
        d = rng.randint(1, 28)
        return [[dt.datetime(y + i, mo, d) for i in range(n)]], YR
    k0 = y * 12 + mo - 1
    if kind == "M":
        n = rng.choice([n, n, 13, 14, 25])
        return [[month_at(k0 + i, 1) for i in range(n)]], MONTH
    if kind == "M mid":
        d = rng.choice([2, 15, 16, 28])
        return [[month_at(k0 + i, d) for i in range(n)]], MONTH
    if kind == "M end":
        return [[month_at(k0 + i, 31) for i in range(n)]], MONTH
    if kind == "M turn":
        return [[month_at(y * 12 + 11 + i, rng.choice([1])) for i in range(rng.choice([2, 2, 3]))]], MONTH
    n = max(n, 3)
    if kind == "decades":
        return [[dt.datetime(y + 10 * i, 1, 1) for i in range(n)]], None
    if kind == "two years":
        return [[dt.datetime(y + 2 * i, 1, 1) for i in range(n)]], None
    if kind == "half years":
        return [[month_at(y * 12 + 6 * i, 1) for i in range(n)]], None
    if kind == "quarters":
        return [[month_at(k0 + 3 * i, 1) for i in range(n + 1)]], None
    if kind == "two months":
        return [[month_at(y * 12 + 2 * i, 1) for i in range(n)]], None
    if kind == "weeks":
        return [[dt.datetime(y, mo, 1) + dt.timedelta(days=7 * i) for i in range(n)]], None
    if kind == "days":
        s = rng.choice([dt.datetime(y, mo, 1), dt.datetime(y, 12, 30)])
        return [[s + dt.timedelta(days=i) for i in range(n)]], None
    if kind == "day pair":
        return [[dt.datetime(y, 12, 31), dt.datetime(y + 1, 1, 1)]], None
    if kind in ("27 days", "32 days", "fortnights"):
        d = {"27 days": 27, "32 days": 32, "fortnights": 14}[kind]
        return [[dt.datetime(y, mo, rng.randint(1, 28)) + dt.timedelta(days=d * i) for i in range(n + 1)]], None
    if kind == "five years":
        return [[dt.datetime(y + 5 * i, mo, 1) for i in range(n)]], None
    if kind == "years then decades":
        t = [dt.datetime(y + i, 1, 1) for i in range(n)] + [dt.datetime(y + n + 9 + 10 * i, 1, 1) for i in range(rng.randint(1, 4))]
        return [t if rng.random() < 0.7 else t[: n + 1]], None
    if kind == "extra point":
        t = [dt.datetime(y + i, 1, 1) for i in range(n)]
        i = rng.randrange(1, n)
        t.insert(i, dt.datetime(t[i - 1].year, rng.randint(3, 11), rng.randint(1, 28)))
        return [t], None
    if kind == "extra month":
        t = [month_at(k0 + i, 1) for i in range(n + 1)]
        i = rng.randrange(1, n + 1)
        t.insert(i, t[i - 1] + dt.timedelta(days=rng.randint(1, 27)))
        return [t], None
    if kind == "gap":
        t = [dt.datetime(y + i, 1, 1) for i in range(n + 2)]
        del t[rng.choice([rng.randrange(1, n + 1), n])]
        return [t], None
    if kind == "gap month":
        t = [month_at(k0 + i, 1) for i in range(n + 2)]
        i = rng.randrange(1, n + 1)
        if t[i].month in (12, 1) and n + 1 <= 3:
            return axis(rng, "gap")
        del t[i]
        if all(b.year - a.year == 1 for a, b in zip(t, t[1:])):
            return axis(rng, "gap")
        return [t], None
    if kind == "mixed":
        a = [dt.datetime(y + i, 1, 1) for i in range(n)]
        b = [month_at(y * 12 + i, 1) for i in range(rng.randint(14, 30))]
        return [a, b] if rng.random() < 0.5 else [b, a], None
    if kind == "irregular":
        t = [month_at(k0 + i, 1) for i in range(n)]
        t += [dt.datetime(t[-1].year + 2 + i, 1, 1) for i in range(2)]
        return [t], None
    if kind == "shifted":
        a = [dt.datetime(y + i, 1, 1) for i in range(n)]
        b = [dt.datetime(y + i, 7, 1) for i in range(n)]
        return [a, b], None
    if kind == "hole for one":
        a = [dt.datetime(y + i, 1, 1) for i in range(n + 2)]
        b = list(a)
        del b[rng.randrange(1, n + 1)]
        return [a, b] if rng.random() < 0.5 else [b, a], None
    raise KeyError(kind)


def axis_batch(rng, kind, regime):
    times, step = axis(rng, kind)
    if step is not None and rng.random() < 0.4:
        t = times[0]
        a = rng.randrange(0, len(t) - 1)
        times.append(t[a: max(a + 2, rng.randint(a + 1, len(t)))])
    if rng.random() < 0.15:
        times.append(list(times[0]))
    rows = []
    for i, t in enumerate(times):
        r = gen.scen_row(rng, "s%d" % i, "Y" if step == YR else "M", 0, len(t), None, regime=regime)
        if all(v == 0 for v in r["vals"]):
            r["vals"] = [1.5] * len(t)
        r["times"] = iso(t)
        r["start"] = t[0].year
        rows.append(r)
    return {"rows": rows, "driver_var": gen.ERF, "axis": kind, "step": step}


def generate(rng, tier):
    regime = rng.choice(["mild", "mild", "wild"])
    cfg = dict(CFG, regime=regime)
    kind = rng.choice(["TL", "TL", "IR"])
    ops = [gen.new_op(rng, cfg, 0, kind)]
    for _ in range(rng.choice([2, 3, 3, 4, 6])):
        u = rng.random()
        if u < 0.3:
            ops.append({"op": "setp", "m": 0, "name": "delta_t", "q": gen.qty(rng, kind, "delta_t", regime)})
        if u < 0.15:
            ops += [gen.driver_op(rng, cfg, 0), {"op": rng.choice(["run", "step"]), "m": 0, "n": 3}]
        if 0.3 < u < 0.45:
            nme = rng.choice(PARAMS[kind])
            ops.append({"op": "setp", "m": 0, "name": nme, "q": gen.qty(rng, kind, nme, regime)})
        ax = rng.choice(BAD_AXES) if rng.random() < 0.4 else rng.choice(GOOD_AXES)
        op = {"op": "axis", "m": 0, "b": axis_batch(rng, ax, regime), "form": rng.choice(["scmrun", "scmrun", "frame"])}
        if rng.random() < 0.15:
            op["faults"] = [gen.fault(rng)]
        ops.append(op)
    gen.echo(rng, ops)
    return {"ops": ops}


def execute(plan, stats):
    pkg, c = fresh(stats)
    seq = []
    for op in plan["ops"]:
        if op["op"] != "axis":
            play(c, [op])
            continue
        m = c.M.get(op["m"])
        if m is None:
            continue
        b = op["b"]
        src = c.scen_input(op)
        m.drv, m.pos, m.touched = None, None, True
        m.dt = None
        before = mag(m.obj.delta_t, "s", "delta_t")
        out = c.attempt(op, m, "run_scenarios", lambda: m.obj.run_scenarios(src, progress=False))
        stats.ops["run on axis: " + b["axis"]] += 1
        stats.log(b["axis"], out.kind)
        seq.append(b["axis"])
        stats.state("axis", tuple(seq[-2:]), m.kind, out.kind)
        if b["step"] is None:
            if out.kind not in ("exc",):
                raise Violation("accepted-" + b["axis"].replace(" ", "-"), "a set of series with axis '%s' (%s) was run: %s" % (b["axis"], [r["times"] for r in b["rows"]], out.describe()))
            stats.faults["refused axis: " + b["axis"]] += 1
            after = mag(m.obj.delta_t, "s", "delta_t")
            if after != before and b["axis"] not in ("hole for one", "mixed") and not op.get("faults"):
                raise Violation("refusal-left-a-time-step", "refusing axis '%s' changed the time step from %.17g s to %.17g s" % (b["axis"], before, after))
            continue
        if not out.ok:
            raise Violation("refused-" + b["axis"].replace(" ", "-"), "axis '%s' %s: %s" % (b["axis"], b["rows"][0]["times"], out.describe()))
        m.dt = b["step"]
        got = mag(m.obj.delta_t, "s", "delta_t")
        if not abs(got - b["step"]) <= 1e-12 * b["step"]:
            raise Violation("delta_t", "after axis '%s' the model reports a time step of %.17g s, expected %.17g s" % (b["axis"], got, b["step"]))
        check_scen_steps(b, m, out.value, set(SERIES[m.kind]), b["step"])
        for r in b["rows"]:
            stats.steps += len(r["vals"])
            stats.sim_seconds += len(r["vals"]) * b["step"]
        stats.nontrivial = stats.nontrivial or len(seq) > 1
