"""C07: separate model instances never influence each other."""
from .. import boot, build, gen
from ..client import Client, HarnessError, Stats, Violation, reserve
from ..sched import Sched, Tracer, instrument
from .c06 import equal_obs, obs, one, show

RUNS = {"quick": 2600, "thorough": 40000}


def generate(rng, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    regime = rng.choice(["mild", "mild", "wild"])
    scen = rng.random() < 0.22
    w = {
        "overrun": 0, "setp_bad": 0.6, "setd_bad": 0.4, "newconv": 0.8, "copy": 0.5, "conv": 1.5, "heatcap": 0.5, "new": 1,
        "scen": 1.2 if scen else 0, "scen_cut": 0, "setp": 5, "run": 4, "step": 5, "reset": 2,
    }
    cfg = {
        "kinds": rng.choice([["TL"], ["IR"], ["TL", "IR"], ["TL", "IR"]]),
        "regime": regime, "w": w, "nops": (1, 3) if scen else (2, 7), "maxn": 8, "slots": [1, 1, 1, 2],
        "p_fault": rng.choice([0, 0, 0.3]), "scen_rows": 2, "scen_maxn": 5,
    }
    plan = {"shared": [], "clients": []}
    # inputs that several clients use at the same time
    nsh = rng.choice([0, 1, 2, 3])
    for k in range(nsh):
        what = rng.choice(["drivers", "param", "scen"] if scen else ["drivers", "drivers", "param"])
        if what == "drivers":
            plan["shared"].append({"what": what, "e": gen.erf_spec(rng, None, regime, maxn=8)})
        elif what == "param":
            nme = rng.choice(["du", "dl", "lambda0", "eta", "efficacy", "q1", "q2", "delta_t"])
            kind = "IR" if nme in ("q1", "q2") else "TL"
            plan["shared"].append({"what": what, "name": nme, "q": gen.qty(rng, kind, nme, "mild")})
        else:
            plan["shared"].append({"what": what, "b": gen.batch(rng, rng.choice([1, 2]), maxn=5), "form": rng.choice(["scmrun", "frame"])})
    origin = rng.random() < 0.35
    if origin:
        ocfg = dict(cfg, slots=[1], nops=(0, 3), p_fault=0, w=dict(w, scen=0, newconv=0, copy=0))
        plan["origin"] = gen.history(rng, ocfg)
        if rng.random() < 0.6:
            # starts from a model in the middle of a run
            plan["origin"] += [gen.driver_op(rng, ocfg, 0), {"op": "step", "m": 0, "n": rng.choice([1, 2, 100])}]
    for i in range(n):
        ops = gen.history(rng, cfg)
        cl = {"ops": ops}
        if origin:
            how = rng.choice(["copy", "shallow", "newconv", "fresh"] + (["own"] if not any(c.get("start") == "own" for c in plan["clients"]) else []))
            if how != "fresh":
                cl["start"] = how
                cl["ops"] = [o for o in ops if not (o["op"] == "new" and o["m"] == 0)]
                if rng.random() < 0.6:
                    # goes on with what the model had
                    cl["ops"] = [o for o in cl["ops"] if not (o["op"] == "setd" and o["m"] == 0)]
                    cl["ops"].insert(0, {"op": rng.choice(["step", "step", "run"]), "m": 0, "n": rng.choice([1, 2, 3])})
        # use the shared inputs
        for op in cl["ops"]:
            for k, s in enumerate(plan["shared"]):
                if rng.random() < 0.5:
                    if op["op"] == "setd" and s["what"] == "drivers":
                        op.update(e=s["e"], share=k)
                    elif op["op"] == "setp" and s["what"] == "param" and rng.random() < 0.6:
                        op.update(name=s["name"], q=s["q"], share=k)
                    elif op["op"] == "scen" and s["what"] == "scen":
                        op.update(b=s["b"], share=k)
        if rng.random() < 0.3 and i > 0 and "start" not in cl:
            # same history as another client: contention on the same points
            cl = {"ops": [dict(o) for o in plan["clients"][0]["ops"]]}
            if rng.random() < 0.6:
                vary(rng, cl["ops"])
        plan["clients"].append(cl)
    if rng.random() < 0.15 and not scen:
        # one after the other, each gone before the next is built
        first = [o for o in plan["clients"][0]["ops"] if o["op"] != "copy"]
        if rng.random() < 0.6:
            first = [gen.new_op(rng, cfg, 0), gen.driver_op(rng, cfg, 0), {"op": "run", "m": 0}, {"op": "conv", "m": 0}]
        plan = {"shared": plan["shared"], "lifetimes": 1, "clients": [{"ops": first}]}
        for _ in range(rng.choice([2, 3, 5, 7])):
            ops = [dict(o) for o in first]
            if ops[0]["op"] == "new" and rng.random() < 0.7:
                # one parameter of the new model differs
                kind = ops[0]["kind"]
                nme = rng.choice([k for k in gen.PARAMS[kind] + ("delta_t",) if k not in ("d1", "d2")])
                ops[0] = dict(ops[0], p=dict(ops[0]["p"], **{nme: gen.qty(rng, kind, nme, "mild")}))
            else:
                vary(rng, ops)
            plan["clients"].append({"ops": ops})
        plan["preempt"], plan["finish"] = [], []
        return plan
    plan["preempt"] = gen.preemptions(rng)
    plan["finish"] = [rng.randrange(4) for _ in range(n + 1)]
    return plan


def vary(rng, ops):
    """The same history with one value changed."""
    cand = [o for o in ops if (o["op"] == "new" and o["p"]) or (o["op"] in ("setp", "setd") and "share" not in o)]
    if not cand:
        return
    o = rng.choice(cand)
    if rng.random() < 0.4:
        o = cand[0]
    if o["op"] == "new":
        o["p"] = dict(o["p"])
        nme = rng.choice(sorted(o["p"]) + ["efficacy"])
        if nme not in ("d1", "d2"):
            o["p"][nme] = gen.qty(rng, o["kind"], nme, "mild")
    elif o["op"] == "setp":
        if o["name"] not in ("d1", "d2"):
            o["q"] = [o["q"][0] * rng.choice([1.5, 0.75, 1.0001]), o["q"][1]]
    else:
        o["e"] = gen.near_drivers(rng, o["e"])


def make_shared(plan):
    out = {}
    for k, s in enumerate(plan["shared"]):
        if s["what"] == "drivers":
            out[k] = build.drivers(s["e"])
        elif s["what"] == "param":
            out[k] = build.quantity(s["q"])
        else:
            out[k] = build.scmrun(s["b"]) if s["form"] == "scmrun" else build.frame(s["b"])
    return out


def prepare(plan, pkg, stats, which, tracers):
    """Shared inputs, the origin model, and the clients ``which`` with their models."""
    shared = make_shared(plan)
    o = None
    if "origin" in plan:
        o = Client(pkg, Stats())
        for op in plan["origin"]:
            one(o, op)
    clients = {}
    for i in which:
        c = Client(pkg, stats, tracers.get(i), trace_all=i in tracers)
        c.shared = shared
        start = plan["clients"][i].get("start")
        if start and o is not None and 0 in o.M:
            src = o.M[0]
            if start == "own":
                c.M[0] = src
            else:
                c.M["origin"] = src
                tr, c.tracer = c.tracer, None
                if start == "shallow":
                    c.do({"op": "copy", "m": 0, "from": "origin", "shallow": 1})
                else:
                    c.do({"op": start, "m": 0, "from": "origin"})
                c.tracer = tr
                c.M.pop("origin", None)
        clients[i] = c
    return clients


def body(c, ops, log):
    for op in ops:
        out, m = one(c, op)
        if out.kind == "swallowed":
            raise Violation("swallowed", "%s returned a result although %r struck" % (op["op"], out.exc))
        log.append(obs(op, m, out))


def execute(plan, stats):
    n = len(plan["clients"])
    # each client alone, in its own freshly started package, uninterrupted
    alone = []
    for i in range(n):
        c = prepare(plan, boot.boot(), Stats(), [i], {})[i]
        log = []
        body(c, [{k: v for k, v in op.items() if k != "faults"} for op in plan["clients"][i]["ops"]], log)
        alone.append(log)
    if plan.get("lifetimes"):
        logs = one_by_one(plan, stats)
        compare(plan, alone, logs, stats)
        return
    # all together
    pkg = boot.boot()
    instrument(pkg)
    tracers = {i: Tracer() for i in range(n)}
    clients = prepare(plan, pkg, stats, range(n), tracers)
    logs = [[] for _ in range(n)]
    s = Sched(plan["preempt"], plan["finish"])
    for t in tracers.values():
        t.sched = s
    errors = s.run([lambda _, i=i: body(clients[i], plan["clients"][i]["ops"], logs[i]) for i in range(n)])
    stats.probes["preemptions"] += s.switches
    stats.state("schedule", tuple(s.sig))
    for a in s.sig:
        stats.sites.add(("preempted in",) + a[2:])
    stats.log("sig", s.sig)
    if s.switches and n > 1:
        stats.nontrivial = True
    for i, exc in sorted(errors, key=lambda e: e[0]):
        raise exc
    compare(plan, alone, logs, stats)


def one_by_one(plan, stats):
    """Models with separate lifetimes in one process (memory addresses get used again)."""
    pkg = boot.boot()
    instrument(pkg)
    n = len(plan["clients"])
    # everything is made ready beforehand, so that a model is built right where the one before was
    clients = [prepare(plan, pkg, stats, [i], {})[i] for i in range(n)]
    hist = [[{k: v for k, v in op.items() if k != "faults"} for op in plan["clients"][i]["ops"]] for i in range(n)]
    for c, ops in zip(clients, hist):
        if ops and ops[0]["op"] == "new":
            ops[0]["_kwargs"] = c.ctor_kwargs(ops[0])
    logs = [[] for _ in range(n)]
    place = []
    for i in range(n):
        if "_kwargs" in (hist[i] or [{}])[0]:
            hist[i][0]["_place"] = place
        body(clients[i], hist[i], logs[i])
        stats.probes["model lifetimes in one process"] += 1
        ids = [id(m.obj) for m in clients[i].M.values()]
        clients[i].M.clear()
        place = [reserve(a) for a in ids[:1]]
    stats.nontrivial = True
    return logs


def compare(plan, alone, logs, stats):
    for i in range(len(plan["clients"])):
        for k, (x, y) in enumerate(zip(alone[i], logs[i])):
            if not equal_obs(y, x):
                raise Violation("influenced", "client %d, operation %d (%s): alone %s, together %s" % (i, k, plan["clients"][i]["ops"][k]["op"], show(x), show(y)))
        if len(alone[i]) != len(logs[i]):
            raise HarnessError("client logs differ in length")
        for x in logs[i]:
            stats.log(i, x)
