"""C04: a reset run depends only on current parameters, time step and drivers."""
import numpy as np

from .. import boot, build, gen
from ..client import Unusable, Violation, alike, brief, near, reported
from ..boot import ur
from ..units import BASE, DIMS, PARAM_DIM, PARAMS, SERIES
from .common import fresh, log_series, play

RUNS = {"quick": 3200, "thorough": 90000}
CFG = {
    "kinds": ["TL", "IR"],
    "p_fault": 0.3,
    "nops": (4, 18),
    "w": {"step": 5, "run": 3, "overrun": 2, "setp_bad": 2, "setd_bad": 1, "scen": 0.25, "scen_cut": 0.35, "newconv": 1, "copy": 1, "heatcap": 0.3},
}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    if rng.random() < 0.1:
        cfg["maxn"] = 150
    if rng.random() < 0.012:
        cfg["maxn"] = 1500
    ops = gen.history(rng, cfg)
    # probes: reset and run, compared with a fresh model
    out = []
    for op in ops:
        out.append(op)
        if rng.random() < 0.12:
            out.append({"op": "probe", "m": op["m"], "resets": rng.choice([1, 1, 2, 3]), "how": rng.choice(["run", "steps"])})
    for m in sorted({o["m"] for o in ops}):
        if rng.random() < 0.5:
            out.append(gen.driver_op(rng, cfg, m))
        if rng.random() < 0.3:
            out.append({"op": "setp", "m": m, "name": "delta_t", "q": gen.qty(rng, "TL", "delta_t", "mild")})
        out.append({"op": "probe", "m": m, "resets": rng.choice([1, 1, 2]), "how": "run"})
        if rng.random() < 0.4:
            out.append({"op": "probe", "m": m, "resets": 1, "how": "run"})
    return {"ops": out}


def execute(plan, stats):
    pkg, c = fresh(stats)
    ref_pkg = boot.boot()

    def each(i, op, out):
        if out.kind == "exc" and op["op"] in ("new", "newconv", "copy", "scen", "setp", "setd", "reset", "step", "run", "conv", "heatcap"):
            raise Violation("raised", "%s %s" % (op["op"], out.describe()))


    ops = plan["ops"]
    i = 0
    for i, op in enumerate(ops):
        if op["op"] != "probe":
            play(c, [op], lambda _, o, out: each(i, o, out))
            continue
        m = c.M.get(op["m"])
        if m is None or m.drv is None:
            continue
        if m.dt is None:
            play(c, [{"op": "setp", "m": op["m"], "name": "delta_t", "q": [1, "yr"]}])
        do_probe(c, ref_pkg, m, op, stats)


def do_probe(c, ref_pkg, m, op, stats):
    kind = m.kind
    for _ in range(op["resets"]):
        m.obj.reset()
        S = m.series()
        for k in SERIES[kind]:
            if len(S[k]) != m.n or not np.isnan(S[k]).all():
                raise Violation("reset-trace", "after reset %s = %s" % (k, brief(S[k])))
    if op["how"] == "run":
        m.obj.run()
    else:
        for _ in range(m.n):
            m.obj.step()
    got = m.series()
    # the same parameters, time step and drivers, as told and as reported
    rep = reported(m.obj, kind)
    told = dict(m.p, delta_t=m.dt)
    for k in told:
        if not near(rep[k], told[k], 1e-12, abs(told[k])):
            raise Violation("reported-" + k, "told %r, model reports %r" % (told[k], rep[k]))
    kwargs = {k: getattr(m.obj, k) for k in PARAMS[kind] + ("delta_t",)}
    try:
        twin = ref_pkg.cls(kind)(**kwargs)
    except ValueError:
        raise Unusable("parameters not accepted by the constructor")
    twin.set_drivers(build.drivers(dict(m.spec, form="plain")) if m.spec else m.obj.erf)
    twin.reset()
    twin.run()
    from ..client import Mirror

    exp = Mirror(twin, kind, m.p, m.q, m.dt).series()
    for k in SERIES[kind]:
        if not alike(got[k], exp[k]):
            raise Violation("differs-" + k, "reused model %s, fresh model %s" % (brief(got[k]), brief(exp[k])))
    log_series(stats, got)
    m.pos = m.n
    m.uniform = True
    stats.steps += m.n
    stats.sim_seconds += m.n * m.dt
    stats.probes["compared with a fresh model"] += 1
    stats.nontrivial = True
