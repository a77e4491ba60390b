"""C09: rejected input raises the documented error and changes nothing."""
import numpy as np

from .. import boot, build, gen
from ..boot import ur
from ..client import BAD_DRIVERS, BAD_VALUES, QUANTITY_BAD, Client, Stats, Violation, brief, expected_error, reported_erf, reported_exact, same
from ..units import PARAMS, SERIES, YR
from .c06 import equal_obs, obs, show
from .common import fresh

RUNS = {"quick": 4200, "thorough": 80000}
CFG = {
    "kinds": ["TL", "IR"],
    "nops": (3, 10),
    "slots": [1, 1, 2],
    "p_fault": 0,
    "w": {"setp_bad": 0, "setd_bad": 0, "overrun": 0, "scen": 0.25, "scen_cut": 0, "conv": 1, "newconv": 0.7, "setp": 6, "heatcap": 0.4, "reset": 3},
}
BAD_OPS = ("setp_bad", "setd_bad", "newbad", "conv_bad", "reset_bad", "scen_bad")


def bad_op(rng, m, kinds):
    kind = rng.choice(kinds)
    what = rng.choice(["setp_bad"] * 6 + ["setd_bad"] * 4 + ["newbad"] * 3 + ["conv_bad"] * 2 + ["nan", "reset_bad", "scen_bad"])
    if what == "setp_bad":
        return {"op": what, "m": m, "name": rng.choice(PARAMS["TL"] + PARAMS["IR"] + ("delta_t",)), "bad": rng.choice(gen.BAD_KINDS)}
    if what == "setd_bad":
        return {"op": what, "m": m, "bad": rng.choice(gen.BAD_DRV), "via": rng.choice(["erf", "set_drivers"])}
    if what == "newbad":
        if rng.random() < 0.6:
            # reversed or equal timescales, in any units
            hi = gen.logu(rng, 0.01, 3000)
            lo = rng.choice([hi, hi, hi * 0.999999, gen.r4(hi * rng.random()), gen.r4(hi / 400)])
            from ..units import DIMS

            if lo == hi:
                u = rng.choice(["yr", "s", "day", "century"])
                d = {"d1": [hi, u], "d2": [lo, u]}
            else:
                d = {"d1": gen.express(rng, "time", hi * YR), "d2": gen.express(rng, "time", lo * YR)}
            return {"op": what, "m": m, "kind": "IR", "p": d}
        return {"op": what, "m": m, "kind": kind, "p": {}, "name": rng.choice(PARAMS[kind] + ("delta_t",)), "bad": rng.choice(gen.BAD_KINDS)}
    if what == "conv_bad":
        a = rng.choice([1e-12, 1e-9, 1e-7, 1e-5, 0.001, 0.03, -0.02, -1e-9, 0.5])
        return [{"op": "setp", "m": m, "name": "a", "q": gen.express(rng, "a", a)}, {"op": what, "m": m}]
    if what == "scen_bad":
        b = gen.batch(rng, rng.choice([1, 2]), maxn=5)
        style = rng.choice(["region", "variable", "both", "subregion"])
        for r in b["rows"]:
            if style in ("region", "both"):
                r["region"] = rng.choice(["World|Northern Hemisphere", "Earth", "World|Land"])
            if style in ("variable", "both"):
                r["variable"] = rng.choice(["Effective Radiative Forcing|CO2", "Emissions|CO2", "Radiative Forcing"])
            if style == "subregion":
                r["region"] = "World|R5ASIA"
        return {"op": what, "m": m, "b": b, "form": rng.choice(["scmrun", "frame"])}
    if what == "nan":
        e = gen.erf_spec(rng, rng.randint(1, 6), "mild")
        e["dt"] = "f8"
        e["v"] = [float(x) for x in e["v"]]
        return {"op": "nan", "m": m, "e": e, "at": rng.choice([0, -1, "all", 0.5])}
    return {"op": what, "m": m}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    ops = []
    p = rng.choice([0.3, 0.6, 0.9])
    for op in gen.history(rng, cfg):
        ops.append(op)
        while rng.random() < p * 0.7:
            x = bad_op(rng, op["m"], cfg["kinds"])
            ops += x if isinstance(x, list) else [x]
    return {"ops": ops}


def attempt_bad(c, op, m):
    """(callable, expected error name) of a call that must be refused, or None."""
    name = op["op"]
    if name == "newbad":
        kwargs = {k: build.quantity(q) for k, q in op["p"].items()}
        err = "ValueError"
        if "bad" in op:
            kwargs[op["name"]] = BAD_VALUES[op["bad"]](gen.PARAM_DIM[op["name"]], None)
            err = "UnitError" if op["bad"] in QUANTITY_BAD else "TypeError"
        elif kwargs["d1"] < kwargs["d2"] or gen.c("d1", op["p"]["d1"]) < gen.c("d2", op["p"]["d2"]):
            return None  # rounding of the units made them ordered
        return (lambda: c.pkg.cls(op["kind"])(**kwargs)), err
    if m is None:
        return None
    if name == "setp_bad":
        if not (op["name"] == "delta_t" or op["name"] in PARAMS[m.kind]):
            return None
        val = BAD_VALUES[op["bad"]](gen.PARAM_DIM[op["name"]], None)
        return (lambda: setattr(m.obj, op["name"], val)), "UnitError" if op["bad"] in QUANTITY_BAD else "TypeError"
    if name == "setd_bad":
        mk, err = BAD_DRIVERS[op["bad"]]
        val = mk()
        if op["via"] == "erf" and err != "AssertionError":
            return (lambda: setattr(m.obj, "erf", val)), err
        return (lambda: m.obj.set_drivers(val)), err
    if name == "conv_bad":
        if m.kind != "TL" or m.p["a"] == 0:
            return None
        return m.obj.get_impulse_response_parameters, "ValueError"
    if name == "reset_bad":
        if m.drv is not None or getattr(m, "touched", False):
            return None
        return m.obj.reset, "ModelStateError"
    if name == "scen_bad":
        src = c.scen_input(op)
        return (lambda: m.obj.run_scenarios(src, progress=False)), "ValueError"
    return None


def execute(plan, stats):
    pkg, a = fresh(stats)
    b = Client(boot.boot(), Stats())
    for i, op in enumerate(plan["ops"]):
        ma = a.M.get(op.get("m", 0))
        if op["op"] == "nan":
            mb = b.M.get(op.get("m", 0))
            if ma is None:
                continue
            nan_drivers(pkg, a, ma, op, stats)
            for m in (ma, mb):
                m.drv, m.pos, m.touched = None, None, True
            continue
        if op["op"] in BAD_OPS:
            got = attempt_bad(a, op, ma)
            if got is None:
                continue
            fn, err = got
            pre = snapshot(a)
            out = a.call(op["op"], fn)
            stats.ops[op["op"]] += 1
            stats.faults["rejected: %s -> %s" % (op["op"] + ("/" + op["bad"] if "bad" in op else ""), err)] += 1
            stats.nontrivial = True
            stats.log(op["op"], out.kind, type(out.exc).__name__)
            what = {k: v for k, v in op.items() if k not in ("b",)}
            if out.ok:
                raise Violation("accepted-" + op["op"], "%s was accepted" % what)
            if not isinstance(out.exc, expected_error(pkg, err)) or (err == "UnitError" and not isinstance(out.exc, ValueError)):
                raise Violation("wrong-error-" + op["op"], "%s: expected %s, got %s" % (what, err, out.describe()))
            post = snapshot(a)
            for k in pre:
                if not equal(pre[k], post[k]):
                    raise Violation("changed-by-" + op["op"], "%s changed model %s: %s -> %s" % (what, k, diff(pre[k], post[k]), diff(post[k], pre[k])))
            continue
        oa = a.do(op)
        ob = b.do(op)
        x, y = obs(op, a.M.get(op.get("m", 0)), oa), obs(op, b.M.get(op.get("m", 0)), ob)
        if not equal_obs(x, y):
            raise Violation("keeps-working", "operation %d (%s): with rejected calls %s, without %s" % (i, op["op"], show(x), show(y)))
        if oa.kind == "exc" and op["op"] != "overrun":
            raise Violation("raised", "%s %s" % (op["op"], oa.describe()))


def snapshot(c):
    out = {}
    for k, m in c.M.items():
        S = m.series()
        out[k] = (reported_exact(m.obj, m.kind), reported_erf(m.obj), {s: S[s] for s in SERIES[m.kind]})
    return out


def equal(x, y):
    return x[0] == y[0] and repr(x[1]) == repr(y[1]) and all(same(x[2][k], y[2][k]) for k in x[2])


def diff(x, y):
    if x[0] != y[0]:
        return {k: v for k, v in x[0].items() if y[0].get(k) != v}
    if repr(x[1]) != repr(y[1]):
        return x[1]
    return {k: brief(v) for k, v in x[2].items()}


def nan_drivers(pkg, c, m, op, stats):
    """Drivers that contain missing values: the reset is refused."""
    e = dict(op["e"], form="plain")
    v = np.array(e["v"], dtype=float)
    if op["at"] == "all":
        v[:] = np.nan
    elif op["at"] == 0.5:
        v[len(v) // 2] = np.nan
    else:
        v[op["at"]] = np.nan
    out = c.call("set_drivers", lambda: m.obj.set_drivers(v * ur(e["u"])))
    if not out.ok:
        return
    S = m.series()
    P = reported_exact(m.obj, m.kind)
    out = c.call("reset", m.obj.reset)
    stats.faults["rejected: reset with missing driver values -> ModelStateError"] += 1
    if out.ok:
        raise Violation("accepted-reset", "reset accepted drivers with missing values")
    if not isinstance(out.exc, pkg.ModelStateError):
        raise Violation("wrong-error-reset", out.describe())
    T = m.series()
    if P != reported_exact(m.obj, m.kind) or not all(same(S[k], T[k]) for k in S):
        raise Violation("changed-by-reset", "refused reset changed the model")
