"""C06: interrupted operations never leave wrong results and can be retried."""
import numpy as np

from .. import boot, build, gen
from ..build import quantity
from ..client import Client, Mirror, Stats, Violation, alike, brief, mag, reported_exact
from ..oracles import selected
from ..units import BASE, PARAM_DIM, PARAMS, SERIES
from .common import fresh, log_series

RUNS = {"quick": 3200, "thorough": 120000}
CFG = {
    "kinds": ["TL", "IR"],
    "p_fault": 0.7,
    "always_fault": True,
    "nops": (3, 12),
    "scen_rows": 3,
    "scen_maxn": 7,
    "maxn": 14,
    "w": {"step": 6, "run": 5, "overrun": 0, "setp_bad": 0, "setd_bad": 0, "scen": 0.8, "scen_cut": 0.4, "newconv": 1, "copy": 0.3, "reset": 3, "conv": 1, "heatcap": 0.3, "setp": 5},
}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    ops = gen.history(rng, cfg)
    for op in ops:
        if op["op"] in ("step", "run") and op.get("faults"):
            op["on"] = rng.choice([0, 0, 1, 2, 3, 50])
    return {"ops": ops}


def obs(op, m, out):
    """What a caller can see of an operation's effect."""
    if out.kind in ("skip",):
        return ("skip",)
    if out.kind != "ok":
        return (out.kind, type(out.exc).__name__)
    name = op["op"]
    if name in ("new", "newconv", "copy", "setp"):
        r = reported_exact(m.obj, m.kind)
        if m.dt is None:
            r.pop("delta_t")
        return ("params", tuple(sorted(r.items())))
    if name in ("step", "run", "reset"):
        return ("series",) + tuple((k, v.shape, np.where(np.isnan(v), np.nan, v + 0.0).tobytes()) for k, v in sorted(m.series().items()))
    if name == "scen":
        return ("table", str(m.obj.delta_t)) + table_obs(out.value)
    if name == "conv":
        return ("conv",) + tuple(sorted((k, base(v, k)) for k, v in out.value.items()))
    if name == "heatcap":
        return ("hc",) + tuple((k, base(v, "heat capacity")) for k, v in zip("ul", out.value))
    return ("ok",)


def table_obs(res):
    rows = sorted(build.table(res), key=lambda r: r.key())
    return tuple((r.key(), tuple(build.iso(t) for t in r.times), np.asarray(r.vals, float).tobytes()) for r in rows)


def base(v, name):
    """A returned quantity as a number in base units."""
    if name == "heat capacity":
        return float(mag(v, "J/m^2/delta_degC", name))
    return float(mag(v, BASE[PARAM_DIM[name]], name)) if name in PARAM_DIM else repr(v)


def equal_obs(x, y):
    """Both executions show the caller the same."""
    if x == y:
        return True
    if x[0] != y[0] or len(x) != len(y):
        return False
    if x[0] in ("series", "table"):
        k = 1 if x[0] == "series" else 2
        return x[:k] == y[:k] and all(u[:2] == v[:2] and alike(np.frombuffer(u[2]), np.frombuffer(v[2])) for u, v in zip(x[k:], y[k:]))
    if x[0] in ("conv", "hc"):
        return all(u[0] == v[0] and (u[1] == v[1] or (isinstance(u[1], float) and isinstance(v[1], float) and (abs(u[1] - v[1]) <= 1e-9 * abs(v[1]) or (u[1] != u[1] and v[1] != v[1])))) for u, v in zip(x[1:], y[1:]))
    return False


def one(c, op):
    """Run one operation with the C06 restriction: parameters change only before a reset."""
    m = c.M.get(op.get("m", 0))
    out = c.do(op)
    m = c.M.get(op.get("m", 0))
    if m is not None:
        if op["op"] == "setp" and m.pos:
            m.pos = None
        if op.get("noretry"):
            m.dt = None
    return out, m


def readable(obj, name):
    """A parameter as it is reported, converted to base units (None: there is none yet)."""
    v = getattr(obj, name, None)
    return base(v, name) if hasattr(v, "magnitude") else None


def near(value, q, name):
    exp = base(q, name)
    return value is not None and abs(value - exp) <= 1e-11 * abs(exp)


def full_run(pkg, m):
    """The undisturbed run of a model: same parameters and drivers, no interruptions."""
    twin = pkg.cls(m.kind)(**{k: getattr(m.obj, k) for k in PARAMS[m.kind] + ("delta_t",)})
    twin.set_drivers(build.drivers(m.spec))
    twin.reset()
    twin.run()
    return Mirror(twin, m.kind, m.p, m.q, m.dt).series()


def finite_subset(got, exp):
    """Every finite value of ``got`` is the value ``exp`` has at that place."""
    ok = np.isfinite(got)
    if not ok.any():
        return True
    idx = np.flatnonzero(ok)
    if idx[-1] >= len(exp):
        return False
    exp = np.asarray(exp, float)
    with np.errstate(all="ignore"):
        scale = np.maximum.accumulate(np.where(np.isfinite(exp), np.abs(exp), 0.0))
        return bool(np.all((got[idx] == exp[idx]) | (np.abs(got[idx] - exp[idx]) <= 1e-11 * scale[idx])))


def execute(plan, stats):
    # undisturbed execution
    quiet = Stats()
    pkg_a = boot.boot()
    a = Client(pkg_a, quiet)
    pkg_b, b = fresh(stats)

    def on_fault(op, m, out):
        if m is None:
            return
        name = op["op"]
        S = m.series()
        stats.probes["model inspected after an interrupted " + name] += 1
        old = before.get("series")
        check_parameters(op, m, out)
        if name in ("step", "run"):
            full = full_run(pkg_a, m)
            check_finite(S, full, name, out)
            k = 0
            for _ in range(op.get("on", 0)):
                try:
                    m.obj.step()
                    k += 1
                except IndexError:
                    break
            if k:
                stats.probes["stepped on after an interrupted step or run"] += 1
                check_finite(m.series(), full, "stepping on after interrupted " + name, out)
        elif name == "scen":
            cands = [old]
            for r in selected(op["b"]):
                twin = pkg_a.cls(m.kind)(**{k: getattr(m.obj, k) for k in PARAMS[m.kind]})
                twin.delta_t = 1 * boot.ur("yr" if r["freq"] == "Y" else "month")
                twin.set_drivers(np.array(r["vals"], dtype=float) * boot.ur(r["unit"]))
                twin.reset()
                twin.run()
                cands.append(Mirror(twin, m.kind, m.p, m.q, None).series())
            for k in SERIES[m.kind]:
                if not any(finite_subset(S[k], x[k]) for x in cands if x is not None):
                    raise Violation("left-behind", "%s after interrupted run_scenarios (%s at %s) belongs to no scenario: %s" % (k, type(out.exc).__name__, out.site, brief(S[k])))
        elif old is not None:
            for k in SERIES[m.kind]:
                if not finite_subset(S[k], old[k]):
                    raise Violation("left-behind", "%s changed by interrupted %s (%s at %s): %s -> %s" % (k, name, type(out.exc).__name__, out.site, brief(old[k]), brief(S[k])))

    def check_parameters(op, m, out):
        """Every parameter is as it was or as the operation was to make it."""
        for k, was in (before.get("params") or {}).items():
            now = readable(m.obj, k)
            if now == was:
                continue
            fine = False
            if op["op"] == "setp" and op["name"] == k:
                fine = near(now, quantity(op["q"]), k)
            elif op["op"] == "scen" and k == "delta_t":
                fine = any(near(now, 1 * boot.ur(u), k) for u in ("yr", "month"))
            if not fine:
                raise Violation("left-behind", "%s after interrupted %s (%s at %s) is %s, before it was %s" % (k, op["op"], type(out.exc).__name__, out.site, now, was))
        stats.probes["parameters inspected after an interrupted operation"] += 1

    def check_finite(S, full, what, out):
        for k in sorted(full):
            if not finite_subset(S[k], full[k]):
                raise Violation("left-behind", "%s after %s (%s at %s): %s, undisturbed %s" % (k, what, type(out.exc).__name__, out.site, brief(S[k]), brief(full[k])))

    b.on_fault = on_fault
    before = {}
    for i, op in enumerate(plan["ops"]):
        clean = {k: v for k, v in op.items() if k not in ("faults", "on")}
        if op.get("noretry"):
            ma = a.M.get(op.get("m", 0))
            if ma is not None:
                ma.drv, ma.pos, ma.dt, ma.touched = None, None, None, True
            oa = None
        else:
            oa_out, ma = one(a, clean)
            oa = obs(clean, ma, oa_out)
        mb = b.M.get(op.get("m", 0))
        before["series"] = mb.series() if mb is not None else None
        before["params"] = None
        if mb is not None and op["op"] not in ("new", "newconv", "copy"):
            before["params"] = {k: readable(mb.obj, k) for k in PARAMS[mb.kind] + (("delta_t",) if mb.dt is not None else ())}
        out, mb = one(b, op)
        if out.kind == "swallowed":
            raise Violation("swallowed", "%s returned a result although %r struck at %s" % (op["op"], out.exc, out.site))
        if oa is None:
            continue
        ob = obs(op, mb, out)
        if not equal_obs(ob, oa):
            raise Violation(
                "retry-differs",
                "operation %d (%s): undisturbed %s, after interruptions %s" % (i, op["op"], show(oa), show(ob)),
            )
        if mb is not None and out.ok and op["op"] in ("run", "step"):
            log_series(stats, mb.series())


def show(o):
    if o and o[0] == "series":
        return {k: brief(np.frombuffer(v)) for k, _, v in o[1:]}
    return repr(o)[:300]
