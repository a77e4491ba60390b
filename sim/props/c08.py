"""C08: inputs are never modified, and results are not tied to inputs."""
import numpy as np
import pandas as pd

from .. import boot, build, gen
from ..boot import ScmRun
from ..client import Violation, reported_exact, same
from ..units import PARAMS, SERIES
from .c06 import equal_obs, table_obs
from .common import fresh, play

RUNS = {"quick": 1200, "thorough": 40000}
CFG = {
    "kinds": ["TL", "IR"],
    "p_fault": 0.35,
    "nops": (2, 8),
    "slots": [1, 1, 2],
    "scen_rows": 3,
    "scen_maxn": 8,
    "w": {"scen": 3, "scen_cut": 1, "conv": 2, "newconv": 1, "setp": 4, "setd": 3, "step": 2, "run": 3, "copy": 0.3, "setp_bad": 1, "setd_bad": 1},
}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    ops = []
    for op in gen.history(rng, cfg):
        ops.append(op)
        if op["op"] == "setd" and rng.random() < 0.08:
            # drivers that overflowed somewhere else
            e = op["e"] = dict(op["e"], dt="f8", v=[float(x) for x in op["e"]["v"]])
            e["v"][rng.randrange(len(e["v"]))] = rng.choice([float("inf"), float("-inf"), 1e308])
        if op["op"] == "scen" and not op.get("noretry"):
            if rng.random() < 0.5:
                op["b"]["noise"] = rng.randint(1, 2)
                op["b"]["rows"] += noise_rows(rng, op["b"], op["b"]["noise"])
            if rng.random() < 0.5:
                ops.append({"op": "scribble", "m": op["m"], "on": rng.choice(["result", "result", "input"]), "how": rng.choice(["values", "meta", "both"])})
            if rng.random() < 0.4:
                again = {k: v for k, v in op.items() if k not in ("faults",)}
                ops.append(dict(again, reuse=1))
        elif op["op"] == "conv" and rng.random() < 0.7:
            ops.append({"op": "scribble", "m": op["m"], "on": "conv", "how": rng.choice(["values", "meta", "both"])})
        elif op["op"] in ("step", "run") and rng.random() < 0.2:
            ops.append({"op": "scribble", "m": op["m"], "on": rng.choice(["result", "conv"]), "how": "both"})
    return {"ops": ops}


def noise_rows(rng, b, n):
    host = b["rows"][0]
    out = []
    for i in range(n):
        r = gen.scen_row(rng, "noise%d" % i, host["freq"], host["start"], len(host["vals"]), "W/m^2", variable=rng.choice(["Emissions|CO2", "Effective Radiative Forcing|CO2", gen.ERF]), region="World|R5ASIA")
        out.append(r)
    return out


def fp(x):
    if isinstance(x, dict):
        return repr(sorted((k, repr(v.magnitude), str(v.units)) for k, v in x.items()))
    return build.fingerprint_input(x)


def scribble(x, how):
    """What a caller may do with something that belongs to him."""
    if isinstance(x, dict):
        for k in list(x):
            if how in ("meta", "both"):
                x[k].ito(x[k].units * boot.ur.Unit("mm/m"))
            if how in ("values", "both") and isinstance(x[k].magnitude, np.ndarray):
                x[k].magnitude[...] = -777.0
            x[k] = 0 * x[k]
        x["scribbled"] = 1 * boot.ur("m")
        return
    if isinstance(x, pd.DataFrame):
        if how in ("values", "both"):
            num = [c for c in x.columns if not isinstance(c, str) or c == "value"]
            for c in num:
                x[c].values[...] = -777.0
            x.loc[:, num] = -777.0
        if how in ("meta", "both") and "scenario" in x.columns:
            x["scenario"] = "scribbled"
        return
    if isinstance(x, ScmRun):
        if how in ("values", "both"):
            df = getattr(x, "_df", None)
            if df is not None:
                try:
                    df.values[...] = -777.0
                except ValueError:
                    pass
                df.iloc[:, :] = -777.0
        if how in ("meta", "both"):
            x["model"] = "scribbled"
            x["extra scribble"] = 3
            x.metadata["scribbled"] = "yes"


def execute(plan, stats):
    pkg, c = fresh(stats)
    ref_pkg = boot.boot()
    base = {k: reported_exact(ref_pkg.cls(k)(), k) for k in ("TL", "IR")}
    consts = {n: repr(getattr(pkg.constants, n)) for n in dir(pkg.constants) if n.isupper()}
    tracked = []  # [what, object, fingerprint]

    def track(label, obj):
        if hasattr(obj, "magnitude") or isinstance(obj, (ScmRun, pd.DataFrame, np.ndarray)):
            tracked.append([label, obj, fp(obj)])

    def verify(when):
        for label, obj, f in tracked:
            if fp(obj) != f:
                raise Violation("modified-" + label.split()[0], "%s was modified by %s" % (label, when))

    def on_fault(op, m, out):
        stats.probes["inputs inspected after an interrupted operation"] += 1
        verify("interrupted %s (%s at %s)" % (op["op"], type(out.exc).__name__, out.site))

    c.on_input = track
    c.on_fault = on_fault
    last = {}
    for op in plan["ops"]:
        slot = op.get("m", 0)
        if op["op"] == "scribble":
            m = c.M.get(slot)
            x = last.get((slot, op["on"]))
            if x is None or m is None:
                continue
            pre = reported_exact(m.obj, m.kind)
            S = m.series()
            tracked[:] = [t for t in tracked if t[1] is not x]
            scribble(x, op["how"])
            last.pop((slot, op["on"]))
            stats.probes["caller scribbled on its " + op["on"]] += 1
            stats.nontrivial = True
            if op["on"] != "input":
                if reported_exact(m.obj, m.kind) != pre:
                    raise Violation("tied-parameters", "changing a returned %s changed the model's parameters" % op["on"])
                for k in SERIES[m.kind]:
                    if not same(S[k], m.series()[k]):
                        raise Violation("tied-series", "changing a returned %s changed the model's %s" % (op["on"], k))
            verify("the caller's change to another object (%s)" % op["on"])
            continue
        if op["op"] == "scen":
            m = c.M.get(slot)
            if m is None:
                continue
            if op.get("reuse") and last.get((slot, "input")) is not None:
                op = dict(op, _input=last[(slot, "input")])
            else:
                src = c.scen_input(op)
                track("scenarios", src)
                op = dict(op, _input=src)
        got = []
        play(c, [op], lambda _, o, x: got.append(x))
        out = got[0] if got else None
        if out is not None and out.kind == "exc" and op["op"] in ("new", "newconv", "scen", "setp", "setd", "run", "step", "reset", "conv", "copy"):
            raise Violation("raised", "%s %s" % (op["op"], out.describe()))
        verify(op["op"])
        m = c.M.get(slot)
        if out is None or not out.ok:
            continue
        if op["op"] == "conv":
            last[(slot, "conv")] = out.value
            tracked.append(["result conversion", out.value, fp(out.value)])
        if op["op"] == "scen":
            res = out.value
            if res is op["_input"]:
                raise Violation("same-object", "run_scenarios returned its input")
            tracked.append(["result scenarios", res, fp(res)])
            last[(slot, "result")] = res
            last[(slot, "input")] = op["_input"]
            twin = ref_pkg.cls(m.kind)(**{k: getattr(m.obj, k) for k in PARAMS[m.kind]})
            exp = twin.run_scenarios(c.scen_input({k: v for k, v in op.items() if k != "_input"}), progress=False)
            if not equal_obs(("table", "") + table_obs(res), ("table", "") + table_obs(exp)):
                raise Violation("later-result", "result differs from that of a fresh model and fresh inputs")
            stats.log(build.fingerprint_table(build.table(res)))
        stats.probes["objects watched"] += len(tracked)
    # the package's own defaults and constants
    for k in ("TL", "IR"):
        now = reported_exact(pkg.cls(k)(), k)
        if now != base[k]:
            raise Violation("defaults", "default %s parameters changed: %s -> %s" % (k, base[k], now))
    now = {n: repr(getattr(pkg.constants, n)) for n in dir(pkg.constants) if n.isupper()}
    if now != consts:
        raise Violation("constants", "%s -> %s" % (consts, now))
    stats.nontrivial = stats.nontrivial or len(tracked) > 2
