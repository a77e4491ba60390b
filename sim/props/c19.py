"""C19: results depend only on past drivers.

Pairs of simulated runs that agree up to some driver value: the second run's remainder is
changed, corrupted (infinities, huge values), cut off or extended, and it is stepped in another
grouping, with crash points.  Everything up to and including the point of change has to be
identical bit for bit.
"""
import copy as cp

import numpy as np

from .. import build, gen
from ..client import Mirror, Violation, alike, brief, reported
from ..oracles import by_scenario, overflowed
from ..units import PARAMS
from .common import fresh, log_series, play

RUNS = {"quick": 2000, "thorough": 40000}
CFG = {
    "kinds": ["TL", "TL", "IR"],
    "p_fault": 0.2,
    "nops": (0, 6),
    "maxn": 12,
    "slots": [1],
    "w": {"conv": 0.2, "newconv": 0, "copy": 0, "setp": 7, "scen": 0.2, "scen_cut": 0.2, "overrun": 0.3, "setp_bad": 0.3, "setd_bad": 0.2, "step": 2, "run": 2},
}
NASTY = [float("inf"), float("-inf"), 1e300, -1e300, 1e-320, 0.0]


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    ops = gen.history(rng, cfg)
    kind = ops[0]["kind"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(scen_pair(rng, cfg) if rng.random() < 0.25 else pair(rng, cfg))
        if rng.random() < 0.4:
            nme = rng.choice(PARAMS[kind] + ("delta_t",))
            ops.append({"op": "setp", "m": 0, "name": nme, "q": gen.qty(rng, kind, nme, cfg["regime"])})
    return {"ops": ops}


def pair(rng, cfg):
    maxn = rng.choice([12, 30, 120])
    e = gen.erf_spec(rng, rng.choice([None, rng.randint(1, maxn)]), rng.choice(["mild", "wild"]))
    n = len(e["v"])
    k = rng.choice([0, n, max(0, n - 1), max(0, n - 1), rng.randint(0, n), rng.randint(0, n)])
    edit = rng.choice(["change", "change", "corrupt", "extend", "cut", "shift"])
    m = n - k
    if edit == "extend":
        m += rng.randint(1, 20)
    elif edit == "cut":
        m = rng.randint(0, max(0, m - 1))
    if edit == "corrupt":
        tail = [rng.choice(NASTY) for _ in range(m)]
    elif edit == "shift":
        tail = [float(x) * 1.5 + 1 for x in e["v"][k:]][:m]
    else:
        tail = gen.erf_values(rng, m, "wild") if m else []
    if k + len(tail) == 0:
        tail = [1.0]
    op = {
        "op": "pair",
        "e": e,
        "k": k,
        "tail": [repr(float(x)) for x in tail],
        "who": rng.choice(["same", "same", "copy", "fresh"]),
        "first": rng.choice(["run", "run", "steps"]),
        "groups": [rng.choice([1, 1, 1, 2, 3, 7, 50]) for _ in range(rng.randint(0, 12))],
    }
    if rng.random() < 0.3:
        op["faults"] = [gen.small_fault(rng) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < 0.15:
        op["short"] = rng.randint(1, n + 2)  # leave the first run unfinished
    return op


def scen_pair(rng, cfg):
    b = gen.batch(rng, regime=rng.choice(["mild", "wild"]), maxn=12, maxrows=3)
    gen.odd(rng, b)
    i = rng.randrange(len(b["rows"]))
    n = len(b["rows"][i]["vals"])
    k = rng.choice([0, max(0, n - 1), rng.randint(0, n), rng.randint(0, n)])
    m = max(2 - k, rng.choice([n - k, n - k, n - k + rng.randint(1, 9), rng.randint(0, max(0, n - k))]))
    tail = [gen.r4(rng.choice([1, 1, 1e3, 1e-6, 1e200]) * rng.gauss(0, 3)) for _ in range(m)]
    return {"op": "scen_pair", "b": b, "row": i, "k": k, "tail": tail, "form": rng.choice(["scmrun", "frame"])}


def execute(plan, stats):
    pkg, c = fresh(stats)
    for op in plan["ops"]:
        if op["op"] in ("pair", "scen_pair"):
            m = c.M.get(0)
            if m is not None:
                (judge if op["op"] == "pair" else judge_scen)(pkg, c, m, op, stats)
            continue
        play(c, [op])


def other(pkg, c, m, who):
    if who == "same":
        return 0
    if who == "copy":
        c.do({"op": "copy", "m": 9, "from": 0})
    else:
        names = PARAMS[m.kind] + ("delta_t",)
        obj = pkg.cls(m.kind)(**{k: getattr(m.obj, k) for k in names})
        c.M[9] = Mirror(obj, m.kind, dict(m.p), dict(m.q), m.dt)
    return 9


def steps(c, slot, groups, faults, upto=None):
    m = c.M[slot]
    c.do({"op": "reset", "m": slot})
    faults = list(faults)
    for g in groups + [10**6]:
        left = m.n - m.pos if upto is None else min(m.n, upto) - m.pos
        if left <= 0:
            break
        op = {"op": "step", "m": slot, "n": min(g, left)}
        if faults:
            op["faults"] = [faults.pop(0)]
        out = c.do(op)
        if not out.ok:
            raise Violation("raised", "step %s" % out.describe())


def judge(pkg, c, m, op, stats):
    e = op["e"]
    k = min(op["k"], len(e["v"]))
    vals = [float(x) for x in op["tail"]]
    e2 = dict(cp.deepcopy(e), dt="f8", v=[float(x) for x in e["v"][:k]] + vals)
    if not e2["v"]:
        return
    if m.dt is None:
        c.do({"op": "setp", "m": 0, "name": "delta_t", "q": [1, "yr"]})
    c.do({"op": "setd", "m": 0, "e": e})
    if op.get("short"):
        steps(c, 0, [], [], op["short"])
    elif op["first"] == "run":
        out = c.do({"op": "run", "m": 0})
        if not out.ok:
            raise Violation("raised", "run %s" % out.describe())
    else:
        steps(c, 0, [], [])
    done = m.pos
    A = m.series()
    slot = other(pkg, c, m, op["who"])
    m2 = c.M[slot]
    if reported(m2.obj, m2.kind) != reported(m.obj, m.kind):
        return
    c.do({"op": "setd", "m": slot, "e": e2})
    steps(c, slot, list(op["groups"]), op.get("faults", ()))
    B = m2.series()
    upto = min(k + 1, len(e2["v"]), done)
    for nme in A:
        a, b = A[nme][:upto], B[nme][:upto]
        if not alike(b, a):
            i = int(np.argmax(~((a == b) | ((a != a) & (b != b))))) if a.shape == b.shape else -1
            raise Violation("future-" + nme, "drivers agree before index %d, but %s at step %d is %s and %s" % (k, nme, i, brief(a[i:], 1), brief(b[i:], 1)))
    if len(e2["v"]) == len(e["v"]) and k >= len(e["v"]) - 1:
        stats.probes["only the last driver differs"] += 1
    stats.probes["pair compared (%s)" % op["who"]] += 1
    if upto > 1:
        stats.nontrivial = True
    stats.state("pair", m.kind, op["who"], min(k, 5), len(e["v"]) - k, len(vals) - (len(e["v"]) - k), tuple(op["groups"][:4]))
    c.M.pop(9, None)
    log_series(stats, B)


def judge_scen(pkg, c, m, op, stats):
    b = op["b"]
    if op["row"] >= len(b["rows"]):
        return
    b2 = cp.deepcopy(b)
    row = b2["rows"][op["row"]]
    k = min(op["k"], len(row["vals"]))
    row["vals"] = [float(x) for x in row["vals"][:k]] + op["tail"]
    if len(row["vals"]) < 2:
        return
    spans = sorted((r["start"], r["start"] + len(r["vals"])) for r in b2["rows"])
    end = spans[0][1]
    for s, e in spans[1:]:
        if s > end:
            return  # the edit would tear a hole in the joint time axis
        end = max(end, e)
    A = c.do({"op": "scen", "m": 0, "b": b, "form": op["form"]})
    B = c.do({"op": "scen", "m": 0, "b": b2, "form": op["form"]})
    for out in (A, B):
        if not out.ok:
            raise Violation("raised", "run_scenarios %s" % out.describe())
    ta, tb = by_scenario(build.table(A.value)), by_scenario(build.table(B.value))
    for i, r in enumerate(b["rows"]):
        lab = r["scenario"]
        if sorted(ta[lab]) != sorted(tb[lab]):
            raise Violation("series", "scenario %s: %s and %s" % (lab, sorted(ta[lab]), sorted(tb[lab])))
        for var in ta[lab]:
            x, y = ta[lab][var][0], tb[lab][var][0]
            upto = min(len(r["vals"]), len(b2["rows"][i]["vals"]))
            if i == op["row"]:
                upto = min(upto, k + (0 if var == b["driver_var"] else 1))
            if overflowed([x, y]):
                upto = min(upto, len(x.vals), len(y.vals))
            tx, ty = [[build.iso(t) for t in s.times[:upto]] for s in (x, y)]
            if tx != ty or not alike(y.vals[:upto], x.vals[:upto]):
                raise Violation("future-scen", "scenario %s, %s: drivers agree before index %d, results %s and %s" % (lab, var, k, brief(x.vals[:upto]), brief(y.vals[:upto])))
    stats.probes["scenario pair compared"] += 1
    stats.nontrivial = True
    stats.state("scen", m.kind, len(b["rows"]), min(k, 5), len(op["tail"]) - (len(b["rows"][op["row"]]["vals"]) - k))
