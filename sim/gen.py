"""Seeded generation of values, inputs and operation histories (all plain JSON)."""
import math
import random

from .units import DIMS, BASE, PARAM_DIM, PARAMS, DEFAULTS, YR, MONTH


def rng_for(seed, prop, index):
    return random.Random("%s/%s/%s" % (seed, prop, index))


def r4(x):
    """Short decimals keep plans readable."""
    return float("%.6g" % x)


def logu(rng, lo, hi):
    return r4(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def canon_value(rng, kind, name, regime, current=None):
    """A value in base units.  regime: 'mild' (physically sensible) or 'wild'."""
    wild = regime == "wild"
    if rng.random() < 0.12:
        return DEFAULTS[kind].get(name, 1.0)
    if current is not None and rng.random() < 0.08:
        return current
    if name == "du":
        return logu(rng, 1, 2000) if wild else logu(rng, 20, 200)
    if name == "dl":
        if wild and rng.random() < 0.15:
            return rng.choice([1e5, 1e15, 1e9, 5.0])
        return logu(rng, 50, 20000) if wild else logu(rng, 400, 4000)
    if name == "lambda0":
        if wild and rng.random() < 0.15:
            return rng.choice([-0.5, 0.01, 20.0, 1.0, -1.3])
        return r4(rng.uniform(0.4, 3.0))
    if name == "a":
        if rng.random() < 0.35:
            return 0.0
        if rng.random() < 0.06:
            return logu(rng, 1e-12, 1e-5)
        return r4(rng.choice([1, 1, -1]) * logu(rng, 1e-4, 0.5 if wild else 0.06))
    if name == "efficacy":
        u = rng.random()
        if u < 0.25:
            return 1.0
        if u < 0.33:
            return rng.choice([1.0000001, 0.9999999, 1.001, 0.999, 1.00001])
        if wild and u < 0.4:
            return rng.choice([0.05, 5.0, 3.0])
        return r4(rng.uniform(0.6, 2.0))
    if name == "eta":
        if wild and rng.random() < 0.12:
            return rng.choice([0.0, 1e-6, 8.0])
        return r4(rng.uniform(0.2, 1.6))
    if name == "delta_t":
        if kind == "TL":
            return rng.choice([YR, MONTH, YR, MONTH, 86400.0, 30 * 86400.0, 365 * 86400.0, YR / 4, 2 * YR, 5 * YR, r4(rng.uniform(1e4, 3e7)), r4(rng.uniform(3e7, 2e8))])
        return rng.choice([YR, MONTH, YR, MONTH, 10 * YR, YR / 4, 86400.0, 365 * 86400.0, r4(rng.uniform(1e4, 3e8))])
    if name in ("q1", "q2"):
        if wild and rng.random() < 0.1:
            return rng.choice([1e-4, 5.0])
        return r4(rng.uniform(0.1, 0.9))
    if name == "d1":
        if wild:
            return r4(logu(rng, 0.05, 100) * YR)
        return r4(rng.uniform(1.0, 15.0) * YR)
    if name == "d2":
        if wild:
            return r4(logu(rng, 101, 50000) * YR)
        return r4(rng.uniform(60.0, 700.0) * YR)
    raise KeyError(name)


def express(rng, dim, canon, base_only=False):
    """Express a base-unit value in some unit: [value, unit]."""
    if base_only or rng.random() < 0.3:
        u = BASE[dim]
    else:
        u = rng.choice(sorted(DIMS[dim]))
    f = DIMS[dim][u]
    v = canon if f == 1.0 else canon / f
    if float(v).is_integer() and abs(v) < 1e9 and rng.random() < 0.3:
        v = int(v)
    return [v, u]


def qty(rng, kind, name, regime, current=None, base_only=False):
    if name == "efficacy" and regime == "wild" and not base_only and rng.random() < 0.04:
        return [1, rng.choice(["cm/m", "mm/m"])]  # the number is one, the efficacy is not
    return express(rng, PARAM_DIM[name], canon_value(rng, kind, name, regime, current), base_only)


def erf_values(rng, n, regime="wild"):
    kind = rng.choice(
        ["const", "ramp", "noise", "step", "sin", "pulse", "zero", "neg", "big", "ints", "dups", "walk"]
        if regime == "wild"
        else ["const", "ramp", "noise", "step", "sin", "pulse", "neg", "walk", "ints"]
    )
    amp = rng.choice([0.5, 1.0, 3.7, 4.0, 8.0])
    if kind == "const":
        return [r4(amp)] * n
    if kind == "ramp":
        return [r4(amp * i / max(1, n - 1)) for i in range(n)]
    if kind == "noise":
        return [r4(rng.gauss(0, amp)) for i in range(n)]
    if kind == "step":
        k = rng.randrange(n) if n else 0
        return [0.0 if i < k else r4(amp) for i in range(n)]
    if kind == "sin":
        w = rng.uniform(0.1, 2.0)
        return [r4(amp * math.sin(w * i)) for i in range(n)]
    if kind == "pulse":
        k = rng.randrange(n) if n else 0
        return [r4(amp * 3) if i == k else 0.0 for i in range(n)]
    if kind == "zero":
        return [0.0] * n
    if kind == "neg":
        return [r4(-amp * rng.random()) for i in range(n)]
    if kind == "big":
        s = rng.choice([1e3, 1e6, 1e-9])
        return [r4(s * rng.gauss(0, 1)) for i in range(n)]
    if kind == "ints":
        return [float(rng.randint(-3, 8)) for i in range(n)]
    if kind == "dups":
        return [float(rng.choice([0, 1, 1, 4])) for i in range(n)]
    v, out = 0.0, []
    for i in range(n):
        v += rng.gauss(0.03, 0.3)
        out.append(r4(v))
    return out


def erf_spec(rng, n=None, regime="wild", base_only=False, maxn=24):
    if n is None:
        n = rng.choice([1, 2, 2, 3, 4, 5, 8, 12, rng.randint(3, maxn), rng.randint(3, maxn)])
    vals = erf_values(rng, n, regime)
    v, u = express(rng, "erf", 1.0, base_only)
    f = DIMS["erf"][u]
    if f != 1.0:
        vals = [x / f for x in vals]
    dt = "f8"
    if all(float(x).is_integer() and abs(x) < 1e9 for x in vals) and rng.random() < 0.6:
        dt = "i8"
        vals = [int(x) for x in vals]
    return {"v": vals, "u": u, "dt": dt, "form": rng.choice(["plain", "plain", "ro", "strided", "rev"])}


EPS = [1e-3, -1e-3, 1e-5, -1e-6, 1e-7, 1e-9, -1e-9]


def near_qty(rng, q):
    """Almost the same quantity."""
    return [q[0] * (1.0 + rng.choice(EPS)), q[1]]


def near_drivers(rng, e):
    """Drivers that are easily mistaken for ``e``."""
    vals = list(e["v"])
    n = len(vals)
    u = e["u"]
    how = rng.choice(["one", "last", "first", "all", "unit", "same", "tiny", "reverse", "longer", "shorter", "negative"])
    if how in ("one", "last", "first"):
        k = {"one": rng.randrange(n), "last": n - 1, "first": 0}[how]
        v = vals[k]
        vals[k] = v * (1.0 + rng.choice(EPS)) + rng.choice([0.0, 1e-6, 1e-9, 1.0])
    elif how == "all":
        f = 1.0 + rng.choice(EPS)
        vals = [v * f for v in vals]
    elif how == "unit":
        u = rng.choice(sorted(DIMS["erf"]))
    elif how == "tiny":
        vals = [v * 1e-9 for v in vals]
    elif how == "reverse":
        vals.reverse()
    elif how == "longer":
        vals.append(rng.choice([0, vals[-1], 1.5]))
    elif how == "shorter" and n > 1:
        vals.pop()
    elif how == "negative":
        vals = [-v for v in vals]
    ints = all(isinstance(v, int) for v in vals)
    return {"v": vals, "u": u, "dt": "i8" if ints else "f8", "form": e.get("form", "plain")}


def redrive(rng, ops, p=0.35):
    """Give some drivers the length of the model's last ones, so that a run can go on with them."""
    out, last = [], {}
    for op in ops:
        m = op.get("m", 0)
        if op["op"] in ("new", "newconv", "copy", "scen"):
            last.pop(m, None)
        elif op["op"] == "setd":
            n = last.get(m)
            if n and rng.random() < p:
                e = dict(op["e"])
                e["v"] = (e["v"] * n)[:n]
                op = dict(op, e=e)
                if rng.random() < 0.5:
                    out.append({"op": "reset", "m": m})
                out.append({"op": "step", "m": m, "n": rng.choice([1, 2, 3, 5, 8])})
                out.append(op)
                out.append({"op": "step", "m": m, "n": rng.choice([1, 2, 3, 5, 100])})
                continue
            last[m] = len(op["e"]["v"])
        out.append(op)
    return out


def echo(rng, ops, p=0.15):
    """Make some inputs near-copies of earlier ones (where reuse of old results hides)."""
    lastp, lastd, lastv = {}, [], []
    for op in ops:
        if op["op"] == "new":
            for k, q in op["p"].items():
                lastp.setdefault(k, []).append(q)
        elif op["op"] == "setp" and "share" not in op:
            old = lastp.setdefault(op["name"], [])
            if old and rng.random() < p:
                op["q"] = near_qty(rng, rng.choice(old[-2:]))
            old.append(op["q"])
        elif op["op"] == "setd" and "share" not in op:
            if lastd and rng.random() < p:
                op["e"] = near_drivers(rng, rng.choice(lastd[-2:]))
            lastd.append(op["e"])
        elif op["op"] in ("scen", "noisy") and "share" not in op:
            for r in op["b"]["rows"]:
                if lastv and rng.random() < p and "times" not in r:
                    n = len(r["vals"])
                    v, unit = rng.choice(lastv[-3:])
                    e = near_drivers(rng, {"v": v, "u": unit})
                    if all(isinstance(x, (int, float)) for x in e["v"]):
                        r["vals"] = [float(x) for x in (e["v"] * n)[:n]]
                        r["unit"] = e["u"]
                lastv.append((list(r["vals"]), r["unit"]))


def params(rng, kind, regime, names=None, base_only=False):
    out = {}
    for nme in names if names is not None else PARAMS[kind] + ("delta_t",):
        if names is not None or rng.random() < 0.6:
            out[nme] = qty(rng, kind, nme, regime, base_only=base_only)
    if kind == "IR":
        fix_order(out)
    return out


def c(nme, q):
    return q[0] * DIMS[PARAM_DIM[nme]][q[1]]


def fix_order(p):
    """Constructor arguments must have d1 < d2 (canonically)."""
    d1 = c("d1", p["d1"]) if "d1" in p else DEFAULTS["IR"]["d1"]
    d2 = c("d2", p["d2"]) if "d2" in p else DEFAULTS["IR"]["d2"]
    if d1 >= d2 * 0.999:
        p["d1"] = [9.0, "yr"]
        p["d2"] = [400.0, "yr"]


BAD_PARAM = ["float", "int", "none", "str", "array", "kg", "wrongdim", "dimless", "bool", "degC2"]


def fault(rng, heavy=False):
    """A crash point: which event stream, how many events in, which exception."""
    stream = rng.choice(["any", "any", "hot", "call", "store", "store"])
    top = {"any": 2500, "hot": 600, "call": 250, "store": 160}[stream]
    k = int(math.exp(rng.uniform(0, math.log(top))))
    if rng.random() < 0.3:
        k = rng.randint(1, top)
    kind = rng.choice(["interrupt", "interrupt", "memory", "memory", "runtime", "oserror"])
    return [stream, max(1, k), kind]


def small_fault(rng):
    """Like ``fault`` but early: suits short operations (setters, single steps)."""
    stream = rng.choice(["any", "any", "hot", "call", "store", "store"])
    top = {"any": 60, "hot": 15, "call": 8, "store": 5}[stream]
    return [stream, rng.randint(1, top), rng.choice(["interrupt", "memory", "runtime", "oserror"])]


def preemptions(rng, n=None):
    style = rng.choice(["fine", "medium", "coarse", "hot", "mixed", "store"])
    n = n or rng.choice([3, 8, 20, 60, 150])
    out = []
    for _ in range(n):
        s = style if style != "mixed" else rng.choice(["fine", "medium", "coarse", "hot", "store"])
        if s == "fine":
            e = ["any", 1 + int(rng.expovariate(1 / 12.0)), rng.randrange(4)]
        elif s == "medium":
            e = ["any", 1 + int(rng.expovariate(1 / 120.0)), rng.randrange(4)]
        elif s == "coarse":
            e = ["any", 1 + int(rng.expovariate(1 / 1200.0)), rng.randrange(4)]
        elif s == "hot":
            e = ["hot", 1 + int(rng.expovariate(1 / 6.0)), rng.randrange(4)]
        else:
            e = ["store", 1 + int(rng.expovariate(1 / 3.0)), rng.randrange(4)]
        out.append(e)
    return out


# ---------------------------------------------------------------- scenarios
ERF = "Effective Radiative Forcing"


def scen_row(rng, label, freq="Y", start=None, n=None, unit=None, variable=ERF, region="World", regime="mild", meta=None, maxn=16):
    if n is None:
        n = rng.choice([2, 3, 5, 8, rng.randint(3, maxn), rng.randint(3, maxn)])
    if start is None:
        start = rng.choice([1850, 1750, 2000, 2015, rng.randint(1700, 2300)])
    v, u = express(rng, "erf", 1.0) if unit is None else (1.0, unit)
    f = DIMS["erf"][u]
    vals = erf_values(rng, n, regime)
    if f != 1.0:
        vals = [x / f for x in vals]
    return {
        "scenario": label,
        "model": rng.choice(["unspecified", "idealised", "m1"]),
        "variable": variable,
        "region": region,
        "unit": u,
        "freq": freq,
        "start": start,  # year ("Y") or month index since year 0 ("M")
        "vals": vals,
        "meta": meta or {},
    }


def batch(rng, nrows=None, freq=None, regime="mild", contiguous=True, maxn=14, maxrows=5, far=True):
    """A set of scenarios whose joint time axis is regular."""
    freq = freq or rng.choice(["Y", "Y", "Y", "M"])
    nrows = nrows or rng.choice([1, 1, 2, 2, 3, rng.randint(1, maxrows)])
    base = rng.choice([1850, 1750, 2000, rng.randint(1700, 2200), rng.randint(2200, 2270), rng.randint(1600, 1680)])
    if far and rng.random() < 0.04:
        base = rng.choice([850, 1000, 100, 3000, 2999, 9000, rng.randint(20, 9600)])
    if freq == "M":
        base = base * 12 + rng.choice([rng.randrange(12), 11, 10, 0])
    length = rng.choice([2, rng.randint(3, maxn), rng.randint(3, maxn), rng.randint(3, maxn)])
    if rng.random() < 0.03:
        length = rng.randint(60, 300)
    rows = []
    same_axis = rng.random() < 0.45
    unit = None if rng.random() < 0.5 else "W/m^2"
    metas = rng.random() < 0.4
    for i in range(nrows):
        if i == 0 or same_axis:
            s, n = base, length
        else:
            a = rng.randint(0, length - 1)
            s = base + rng.randint(-3, 3) if rng.random() < 0.3 else base + a
            n = max(2, min(length, rng.randint(1, length)))
            if rng.random() < 0.08:
                s, n = base + a, 1
            if contiguous:
                # keep the union gap-free: overlap or touch the first row
                if s > base + length:
                    s = base
                if s + n < base:
                    n = base - s + 1
        rows.append(scen_row(rng, "s%d" % i, freq, s, n, unit, regime=regime))
        if metas:
            rows[-1]["meta"] = {"ensemble": rng.choice(["r1", "r2"]), "source": rng.randint(1, 3)}
        if rows and rng.random() < 0.15 and i > 0:
            rows[-1]["vals"] = (rows[0]["vals"] * (n // max(1, len(rows[0]["vals"])) + 1))[:n]
            rows[-1]["unit"] = rows[0]["unit"]
        if rng.random() < 0.12 and i > 0:
            # the same numbers in another unit, or the same forcing in other numbers
            p = rows[-2]
            rows[-1].update(start=p["start"], vals=list(p["vals"]), unit=rng.choice(sorted(DIMS["erf"])))
            if rng.random() < 0.4:
                f = DIMS["erf"][p["unit"]] / DIMS["erf"][rows[-1]["unit"]]
                rows[-1]["vals"] = [x * f for x in p["vals"]]
    climate = rng.choice([None, "junk input", "two_layer"])
    for r in rows:
        if climate is not None:
            r["meta"] = dict(r["meta"], climate_model=climate)
            climate = rng.choice([climate, climate, "other", "two_timescale_impulse_response"])
    return {"rows": rows, "driver_var": ERF}


# ---------------------------------------------------------------- histories
def faults_for(rng, op, p):
    """Crash points for one operation (usually none)."""
    if rng.random() >= p:
        return {}
    n = rng.choice([1, 1, 1, 2, 3])
    if op in ("scen",):
        return {"faults": [fault(rng) for _ in range(n)]}
    if op in ("run",):
        return {"faults": [fault(rng) if rng.random() < 0.6 else small_fault(rng) for _ in range(n)]}
    return {"faults": [small_fault(rng) for _ in range(n)]}


def driver_op(rng, cfg, m=0):
    op = {"op": "setd", "m": m, "e": erf_spec(rng, None, cfg["regime"], cfg.get("base_only", False), cfg.get("maxn", 24))}
    if rng.random() < 0.15:
        op["via"] = "erf"
    return op


def new_op(rng, cfg, m=0, kind=None):
    kind = kind or rng.choice(cfg["kinds"])
    return {"op": "new", "m": m, "kind": kind, "p": params(rng, kind, cfg["regime"], base_only=cfg.get("base_only", False))}


FRAMES = ["frame", "frame", "frame_idx", "frame_idx", "long", "long_time", "years", "years_text", "years_float"]


def form(rng):
    """How scenarios are handed over."""
    return "scmrun" if rng.random() < 0.5 else rng.choice(FRAMES)


ODD = ["s*", "s", "S", "ssp1.0", "ssp1", "ssp1 ", "a b", "\u00e9", "x|y", "x|*", "(a)", "[b]", "a\\d", "1", "007", "World", "None", "%s", "{}", "a,b", '"q"', "unspecified", "World|Land", "^a$", "true"]


def odd(rng, b, p=0.12):
    """Now and then labels that mean something to some pattern, parser or format, and gaps in the metadata."""
    if rng.random() >= p:
        return
    names = {}
    for r in b["rows"]:
        if r["scenario"] not in names:
            free = [x for x in ODD if x not in names.values()]
            names[r["scenario"]] = rng.choice(free) if free and rng.random() < 0.8 else r["scenario"]
        r["scenario"] = names[r["scenario"]]
    if rng.random() < 0.4:
        k = rng.choice(["note", "source", "ecs"])
        vals = {"note": ["x", None, ""], "source": [1, None], "ecs": [2.5, None, 3.0]}[k]
        for r in b["rows"]:
            r["meta"] = dict(r["meta"], **{k: rng.choice(vals)})


def crowd(rng, b, p=0.015):
    """Now and then a batch of many (short) scenarios."""
    if rng.random() >= p:
        return
    host = b["rows"][0]
    k = rng.choice([9, 11, 20, 40, 70, 70, 130, 140])
    for i in range(k):
        n = max(2, min(len(host["vals"]), rng.choice([2, 3, 5])))
        r = scen_row(rng, "c%03d" % i, host["freq"], host["start"], n, rng.choice([None, "W/m^2"]))
        r["variable"], r["meta"] = host["variable"], dict(host["meta"])
        b["rows"].append(r)


def scen_op(rng, cfg, m=0):
    b = batch(rng, regime="mild" if cfg["regime"] == "mild" else rng.choice(["mild", "wild"]), maxn=cfg.get("scen_maxn", 10), maxrows=cfg.get("scen_rows", 3))
    op = {"op": "scen", "m": m, "b": b, "form": form(rng)}
    if rng.random() < 0.1:
        op["default_var"] = True
    return op


DEFAULT_W = {
    "setp": 6,
    "setd": 3,
    "reset": 2,
    "step": 6,
    "run": 3,
    "overrun": 0.4,
    "setp_bad": 1,
    "setd_bad": 0.5,
    "new": 0.7,
    "newconv": 0.5,
    "copy": 0.4,
    "conv": 0.6,
    "heatcap": 0.2,
    "scen": 0.15,
    "scen_cut": 0.1,
}


def history(rng, cfg):
    """A random history of operations on up to ``slots`` models."""
    w = dict(DEFAULT_W)
    w.update(cfg.get("w", {}))
    # swarm: switch off a random subset of operation kinds
    for k in list(w):
        if k not in ("step", "run", "setd", "setp") and rng.random() < 0.3:
            w[k] = 0
    names = [k for k in w if w[k] > 0]
    weights = [w[k] for k in names]
    slots = rng.choice(cfg.get("slots", [1, 1, 2]))
    pf = rng.choice([0, 0, cfg.get("p_fault", 0.15), cfg.get("p_fault", 0.15) * 2])
    if cfg.get("always_fault"):
        pf = cfg["p_fault"] * rng.choice([0.5, 1, 1])
    kinds = {}
    ops = []
    for s in range(slots):
        op = new_op(rng, cfg, s)
        kinds[s] = op["kind"]
        ops.append(op)
        if rng.random() < 0.8:
            ops.append(driver_op(rng, cfg, s))
    base_only = cfg.get("base_only", False)
    cur = 0
    for _ in range(rng.randint(*cfg.get("nops", (5, 22)))):
        if rng.random() < 0.3:
            cur = rng.randrange(slots)
        name = rng.choices(names, weights)[0]
        kind = kinds[cur]
        op = {"op": name, "m": cur}
        if name == "setp":
            nme = rng.choice(PARAMS[kind] + ("delta_t",))
            op.update(name=nme, q=qty(rng, kind, nme, cfg["regime"], base_only=base_only))
        elif name == "setd":
            op = driver_op(rng, cfg, cur)
        elif name == "step":
            op["n"] = rng.choice([1, 1, 1, 2, 3, 5, 100])
        elif name == "overrun":
            op["n"] = rng.choice([1, 1, 2, 3, 6, 30])
            if rng.random() < 0.6:
                ops.append({"op": "run", "m": cur})
            if rng.random() < 0.6:
                nme = rng.choice(PARAMS[kind] + ("delta_t",))
                ops.append({"op": "setp", "m": cur, "name": nme, "q": qty(rng, kind, nme, cfg["regime"], base_only=base_only)})
        elif name == "setp_bad":
            op.update(name=rng.choice(PARAMS[kind] + ("delta_t",)), bad=rng.choice(sorted(BAD_KINDS)))
        elif name == "setd_bad":
            op.update(bad=rng.choice(BAD_DRV), via=rng.choice(["erf", "set_drivers"]))
        elif name == "new":
            op = new_op(rng, cfg, cur)
            kinds[cur] = op["kind"]
        elif name in ("newconv", "copy"):
            src = rng.randrange(slots)
            if name == "newconv" and (len(cfg["kinds"]) == 1 or src == cur):
                continue
            if name == "copy" and kinds[src] not in cfg["kinds"]:
                continue
            if src == cur and name == "newconv":
                continue
            op["from"] = src
            if name == "copy":
                kinds[cur] = kinds[src]
            else:
                kinds[cur] = "IR" if kinds[src] == "TL" else "TL"
        elif name == "scen":
            op = scen_op(rng, cfg, cur)
        elif name == "scen_cut":
            op = scen_op(rng, cfg, cur)
            op["noretry"] = 1
            op["faults"] = [fault(rng)]
        if name not in ("scen_cut", "copy", "overrun"):
            op.update(faults_for(rng, name, pf))
        ops.append(op)
        if name in ("scen", "scen_cut") and rng.random() < 0.7:
            ops.append(driver_op(rng, cfg, cur))
    if not base_only:
        echo(rng, ops)
    return ops


BAD_KINDS = ["float", "int", "none", "str", "array", "kg", "wrongdim", "dimless", "bool", "degC2", "off1", "off2", "inverse", "npfloat", "list", "unit"]
BAD_DRV = ["ndarray", "kg", "K", "Wm", "W", "2d", "2d1", "2dcol", "3d", "0d"]
