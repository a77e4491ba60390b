"""C15: results do not depend on progress display, clock, terminal or process.

The simulated environment decides what the terminal, the clock, the global random state
and the string-hash seed do; results are compared with a quiet environment.
"""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import boot, build, gen
from ..client import Client, Stats, Violation, reported_exact, same, brief
from ..units import MONTH, PARAMS, SERIES, YR
from .common import fresh

RUNS = {"quick": 400, "thorough": 20000}
STUBS = ["string-hash seed and global random state of fresh interpreter processes"]
FAULTS = ["epipe", "eio", "enospc", "closed", "eintr", "short"]


def term_faults(rng):
    u = rng.random()
    if u < 0.2:
        return {}
    kinds = FAULTS if rng.random() < 0.5 else [rng.choice(FAULTS)]
    if u < 0.35:
        return {"-1": rng.choice(kinds)}
    return {str(rng.choice([0, 1, 2, 3, rng.randrange(40)])): rng.choice(kinds) for _ in range(rng.choice([1, 1, 2, 4]))}


def clock_script(rng):
    kind = rng.choice(["normal", "slow", "stall", "jumps", "back", "mixed", "huge"])
    n = rng.choice([0, 10, 60])
    step = {
        "normal": lambda: 0.01,
        "slow": lambda: rng.choice([0.2, 5.0]),
        "stall": lambda: 0.0,
        "jumps": lambda: rng.choice([0.0, 3600.0, 1e7]),
        "back": lambda: rng.choice([-1.0, -3600.0, 0.5]),
        "mixed": lambda: rng.choice([0.0, 0.2, -10.0, 100.0, 0.001]),
        "huge": lambda: 1e12,
    }[kind]
    return [step() for _ in range(n)]


def generate(rng, tier):
    regime = rng.choice(["mild", "mild", "wild"])
    cfg = {"kinds": ["TL", "IR"], "regime": regime, "maxn": 8}
    kind = rng.choice(["TL", "IR"])
    ops = [gen.new_op(rng, cfg, 0, kind)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.4:
            nme = rng.choice(PARAMS[kind])
            ops.append({"op": "setp", "m": 0, "name": nme, "q": gen.qty(rng, kind, nme, regime)})
        b = gen.batch(rng, rng.choice([1, 1, 2, 3, 5]), None, regime, maxn=6)
        gen.crowd(rng, b, 0.01)
        gen.odd(rng, b)
        op = {"op": "env", "m": 0, "b": b, "form": gen.form(rng)}
        op["progress"] = rng.choice([True, True, True, False, None])
        op["term"] = term_faults(rng)
        op["clock"] = clock_script(rng)
        op["rand"] = rng.randrange(1000)
        op["after"] = rng.choice(["same", "quiet"])
        if rng.random() < 0.12:
            op["faults"] = [gen.fault(rng)]
        ops.append(op)
    plan = {"ops": ops}
    if rng.random() < 0.015:
        plan["process"] = {"hash": rng.choice([0, 1, 99, rng.randrange(2**32)]), "rand": rng.randrange(10**6), "env": rng.choice(ENVS)}
    return plan


ENVS = [
    {},
    {"TZ": "Pacific/Auckland", "COLUMNS": "7", "TERM": "dumb"},
    {"LC_ALL": "C", "LANG": "C", "TZ": "America/St_Johns", "COLUMNS": "0"},
    {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "PYTHONUTF8": "0"},
]


def random_state():
    s = np.random.get_state()
    return (random.getstate(), s[0], s[1].tobytes(), s[2:])


def seed_world(n):
    random.seed(n)
    np.random.seed(n)
    # consume a little, so that cached gaussians exist sometimes
    if n % 2:
        np.random.standard_normal()
        random.gauss(0, 1)


def result_sig(out):
    return build.fingerprint_table(build.table(out.value))


def kwargs(op):
    kw = {"driver_var": op["b"]["driver_var"]}
    if op["progress"] is not None:
        kw["progress"] = op["progress"]
    return kw


def in_env(c, op, m, src, term_plan, fault=None):
    """One call inside the simulated environment."""
    term = boot.SimTerminal(term_plan)
    old, oldout = sys.stderr, sys.stdout
    sys.stderr = term
    boot.CLOCK.script = list(op["clock"])
    before = boot.CLOCK.reads
    seed_world(op["rand"])
    rs = random_state()
    try:
        out = c.call("run_scenarios", lambda: m.obj.run_scenarios(src, **kwargs(op)), fault)
    finally:
        sys.stderr, sys.stdout = old, oldout
        boot.CLOCK.script = []
    if random_state() != rs:
        raise Violation("random-state", "run_scenarios changed the global random state")
    return out, term, boot.CLOCK.reads - before


def execute(plan, stats):
    pkg, c = fresh(stats)
    quiet = Client(boot.boot(), Stats())
    sigs = []
    try:
        for op in plan["ops"]:
            if op["op"] != "env":
                c.do(op)
                quiet.do(op)
                continue
            m, q = c.M.get(op["m"]), quiet.M.get(op["m"])
            if m is None:
                continue
            sigs.append(one(pkg, c, m, q, op, stats))
    finally:
        random.seed(0)
        np.random.seed(0)
    if "process" in plan and os.environ.get("OTLM_CHILD") is None:
        other_process(plan, sigs, stats)
    stats.log(sigs)


def one(pkg, c, m, q, op, stats):
    build_in = lambda: c.scen_input(op)  # noqa: E731
    ref = q.obj.run_scenarios(build_in(), driver_var=op["b"]["driver_var"], progress=False)
    want = build.fingerprint_table(build.table(ref))
    refP, refS = reported_exact(q.obj, q.kind), q.series()
    m.drv, m.pos, m.touched, m.dt = None, None, True, None
    fault = (op.get("faults") or [None])[0]
    attempts = [(op["term"], fault)]
    if op["after"] == "same":
        attempts.append((op["term"], None))
    attempts.append(({}, None))
    src = build_in()
    for term_plan, flt in attempts:
        out, term, reads = in_env(c, op, m, src, term_plan, flt)
        stats.ops["run_scenarios progress=%s" % op["progress"]] += 1
        for k in term.fired:
            stats.faults["terminal " + k] += 1
        if any(op["clock"][:reads]):
            stats.faults["clock scripted"] += 1
        if op["clock"] and reads:
            if min(op["clock"][: max(1, reads)]) < 0:
                stats.faults["clock jumped back"] += 1
            if max(op["clock"][: max(1, reads)]) > 1000:
                stats.faults["clock jumped ahead"] += 1
            if all(x == 0 for x in op["clock"][: max(1, reads)]):
                stats.faults["clock stalled"] += 1
        stats.log("env", out.kind, term.fired, reads)
        stats.state("env", op["progress"], out.kind, tuple(term.fired[:3]), min(reads, 5), len(op["b"]["rows"]))
        if out.kind == "fault":
            continue
        if out.kind == "swallowed":
            raise Violation("swallowed", "an interruption at %s was swallowed" % (out.site,))
        if not out.ok:
            hard = [k for k in term.fired if k != "short"]
            if not hard:
                raise Violation("raised", "run with progress=%s and a terminal that works: %s" % (op["progress"], out.describe()))
            if op["progress"] is False:
                raise Violation("terminal-used", "progress off, yet the terminal's failure got out: %s" % out.describe())
            if not isinstance(out.exc, (OSError, ValueError)):
                raise Violation("other-error", "terminal failed with %s but %s" % (hard, out.describe()))
            stats.probes["terminal error raised"] += 1
            continue
        got = result_sig(out)
        if got != want:
            raise Violation("result", "result differs from a quiet environment (progress=%s, terminal %s)" % (op["progress"], term.fired))
        P, S = reported_exact(m.obj, m.kind), m.series()
        if P != refP:
            raise Violation("model", "model parameters after the run differ from a quiet environment: %s / %s" % (P, refP))
        for k in S:
            if not same(S[k], refS[k]):
                raise Violation("model", "model %s after the run: %s, quiet %s" % (k, brief(S[k]), brief(refS[k])))
        stats.probes["compared with quiet environment"] += 1
        stats.nontrivial = True
    b = op["b"]
    m.dt = YR if build.freq_of(b) == "Y" else MONTH
    stats.steps += sum(len(r["vals"]) for r in b["rows"])
    stats.sim_seconds += m.dt * sum(len(r["vals"]) for r in b["rows"])
    return want


def other_process(plan, sigs, stats):
    """The same history in another interpreter with another hash seed and random state."""
    env = dict(os.environ, PYTHONHASHSEED=str(plan["process"]["hash"]), OTLM_CHILD=str(plan["process"]["rand"]), **plan["process"].get("env", {}))
    code = (
        "import sys, json, random; sys.dont_write_bytecode = True; sys.path.insert(0, %r)\n"
        "from sim.props import c15; c15.child()" % os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    )
    p = subprocess.run([sys.executable, "-Wignore", "-c", code], input=json.dumps(plan), capture_output=True, text=True, env=env, timeout=100)
    if p.returncode != 0:
        raise Violation("process", "the history fails in another process: %s" % p.stderr[-400:])
    got = json.loads(p.stdout.strip().splitlines()[-1])
    stats.faults["fresh process with other hash seed and random state"] += 1
    if got != sigs:
        raise Violation("process", "results differ under string-hash seed %s" % plan["process"]["hash"])


def child():
    plan = json.loads(sys.stdin.read())
    seed_world(int(os.environ["OTLM_CHILD"]))
    c = Client(boot.boot(), Stats())
    sigs = []
    for op in plan["ops"]:
        if op["op"] != "env":
            c.do(op)
            continue
        m = c.M[op["m"]]
        out = m.obj.run_scenarios(c.scen_input(op), driver_var=op["b"]["driver_var"], progress=False)
        m.drv, m.pos, m.touched, m.dt = None, None, True, None
        sigs.append(build.fingerprint_table(build.table(out)))
    print(json.dumps(sigs))
