"""C05: a scenario's result does not depend on the rest of the batch or earlier runs."""
from .. import boot, build, gen
from ..boot import ur
from ..client import Violation, alike, brief
from ..oracles import by_scenario, equal_label, selected
from ..units import OUTPUTS, PARAMS
from .common import fresh, play

RUNS = {"quick": 480, "thorough": 25000}


def gap_row(rng, base_row, label):
    """A series that is not regular on its own, inside the period of another one."""
    n = len(base_row["vals"])
    row = gen.scen_row(rng, label, base_row["freq"], base_row["start"], n, rng.choice([None, base_row["unit"]]))
    style = rng.choice(["every", "hole", "holes", "ends"])
    keep = [True] * n
    if style == "every":
        k = rng.choice([2, 2, 3, 5])
        keep = [i % k == 0 for i in range(n)]
    elif style == "hole":
        keep[rng.randrange(1, n - 1)] = False
    elif style == "holes":
        keep = [rng.random() < 0.6 or i in (0, n - 1) for i in range(n)]
    else:
        keep = [i in (0, n - 1) for i in range(n)]
    kept = [t for t, k in zip(build.times_of(row), keep) if k]
    if row["freq"] == "M" and all(b.year - a.year == 1 for a, b in zip(kept, kept[1:])):
        return None  # one value per calendar year: counts as annual
    times = [t.isoformat() for t in kept]
    row["vals"] = [v for v, k in zip(row["vals"], keep) if k]
    row["times"] = times
    return row


def generate(rng, tier):
    kind = rng.choice(["TL", "TL", "IR"])
    regime = rng.choice(["mild", "mild", "wild"])
    cfg = {"kinds": [kind], "regime": regime}
    ops = [gen.new_op(rng, cfg, 0, kind)]
    freq = rng.choice([None, None, "Y", "M"])
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        u = rng.random()
        if u < 0.15:
            nme = rng.choice(PARAMS[kind] + ("delta_t",))
            ops.append({"op": "setp", "m": 0, "name": nme, "q": gen.qty(rng, kind, nme, regime)})
        elif u < 0.25:
            ops += [gen.driver_op(rng, cfg, 0), {"op": "step", "m": 0, "n": rng.choice([1, 3, 100])}]
        elif u < 0.35:
            op = gen.scen_op(rng, cfg, 0)
            op.update(noretry=1, faults=[gen.fault(rng)])
            ops.append(op)
        b = gen.batch(rng, rng.choice([1, 2, 2, 3, 3, 4]), freq, rng.choice(["mild", "wild"]), maxn=rng.choice([6, 10, 16]))
        if rng.random() < 0.25:
            host = rng.choice(b["rows"])
            if len(host["vals"]) >= 3:
                g = gap_row(rng, host, "g%d" % len(b["rows"]))
                if g is not None:
                    b["rows"].insert(rng.randrange(len(b["rows"]) + 1), g)
        gen.crowd(rng, b, 0.03)
        gen.odd(rng, b)
        order = rng.random()
        if order < 0.5:
            rng.shuffle(b["rows"])
        op = {"op": "scen", "m": 0, "b": b, "form": gen.form(rng)}
        if rng.random() < 0.2:
            op["faults"] = [gen.fault(rng)]
        ops.append(op)
        if rng.random() < 0.2:
            # the same scenarios again, in another order, some left out
            b2 = {"rows": [r for r in b["rows"] if rng.random() < 0.8] or b["rows"][:1], "driver_var": b["driver_var"]}
            rng.shuffle(b2["rows"])
            if b2["rows"] and not any("times" in r for r in b2["rows"]) and contiguous(b2):
                ops.append({"op": "scen", "m": 0, "b": b2, "form": "scmrun"})
    gen.echo(rng, ops)
    return {"ops": ops}


def contiguous(b):
    spans = sorted((r["start"], r["start"] + len(r["vals"])) for r in b["rows"])
    end = spans[0][1]
    for s, e in spans[1:]:
        if s > end:
            return False
        end = max(end, e)
    return True


def execute(plan, stats):
    pkg, c = fresh(stats)
    ref_pkg = boot.boot()
    for op in plan["ops"]:
        out = []
        play(c, [op], lambda _, o, x: out.append(x))
        m = c.M.get(op.get("m", 0))
        if op["op"] != "scen" or op.get("noretry"):
            if out and out[0].kind == "exc":
                raise Violation("raised", "%s %s" % (op["op"], out[0].describe()))
            continue
        judge(c, ref_pkg, m, op, out[0], stats)


def alone(ref_pkg, m, b, row):
    twin = ref_pkg.cls(m.kind)(**{k: getattr(m.obj, k) for k in PARAMS[m.kind]})
    try:
        return build.table(twin.run_scenarios(build.scmrun({"rows": [row]}), driver_var=b["driver_var"], progress=False)), None
    except NotImplementedError as exc:
        return None, exc


def judge(c, ref_pkg, m, op, out, stats):
    b = op["b"]
    rows = selected(b)
    got = by_scenario(build.table(out.value)) if out.ok else None
    refused = None
    spread = rows if len(rows) <= 8 else rows[:2] + rows[8:-2:len(rows) // 4] + rows[-2:]
    for r in rows:
        if not any(r is x for x in spread) and "times" not in r:
            if out.ok and r["scenario"] not in got:
                raise Violation("series", "scenario %s is missing from the batch's result" % r["scenario"])
            continue
        exp, exc = alone(ref_pkg, m, b, r)
        if exc is not None:
            refused = r
            stats.probes["scenario refused on its own"] += 1
            if out.ok:
                raise Violation("runs-only-in-batch", "scenario %s is refused alone (%s) but runs in the batch" % (r["scenario"], str(exc)[:80]))
            continue
        if not out.ok:
            continue
        exp = by_scenario(exp)[r["scenario"]]
        mine = got.get(r["scenario"], {})
        if sorted(exp) != sorted(mine):
            raise Violation("series", "scenario %s: alone %s, in the batch %s" % (r["scenario"], sorted(exp), sorted(mine)))
        for var in exp:
            if len(exp[var]) != len(mine[var]):
                raise Violation("count", "scenario %s: %d series of %s alone, %d in the batch" % (r["scenario"], len(exp[var]), var, len(mine[var])))
            e, g = exp[var][0], mine[var][0]
            if [build.iso(t) for t in e.times] != [build.iso(t) for t in g.times]:
                raise Violation("times", "scenario %s, %s: %d points alone, %d in the batch" % (r["scenario"], var, len(e.times), len(g.times)))
            if not alike(g.vals, e.vals):
                raise Violation("differs", "scenario %s, %s: alone %s, in the batch %s" % (r["scenario"], var, brief(e.vals), brief(g.vals)))
            for k in e.meta:
                if k != "run_idx" and not equal_label(e.meta[k], g.meta.get(k)):
                    raise Violation("meta", "scenario %s: %s is %r alone, %r in the batch" % (r["scenario"], k, e.meta[k], g.meta.get(k)))
        stats.probes["scenario compared with a run of its own"] += 1
        stats.nontrivial = stats.nontrivial or len(rows) > 1 or c.stats.ops["scen"] > 1
    if not out.ok and refused is None:
        raise Violation("raised", "batch of scenarios that all run alone: %s" % out.describe())
    stats.state("batch", len(rows), len({r["unit"] for r in rows}), len({(r["start"], len(r["vals"])) for r in rows}), rows[0]["freq"], refused is not None)
