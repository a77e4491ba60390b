"""Many simulated runs of one property, in parallel, with evidence and replay files."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
from collections import Counter

from . import boot, engine, sched
from .minimise import Minimiser

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEADLINE = {"quick": 840, "thorough": 6 * 3600}
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def run_one(plan):
    """Execute; a run that does not end is repeated under instruction counting."""
    res = engine.execute(plan)
    if res.verdict == "harness" and res.key == "timeout":
        engine.FORCE_TRACE = 6_000_000
        try:
            res2 = engine.execute(plan, 100)
        finally:
            engine.FORCE_TRACE = None
        if res2.verdict == "violated" and res2.key == "endless":
            return res2
    return res


class Tally:
    def __init__(self):
        self.verdicts = Counter()
        self.ops = Counter()
        self.faults = Counter()
        self.probes = Counter()
        self.sites = set()
        self.states = set()
        self.nontrivial = set()
        self.distinct = set()
        self.sim_seconds = 0.0
        self.steps = 0
        self.bad = []  # (index, verdict, key, msg)

    def add(self, index, res):
        s = res.stats
        self.verdicts[res.verdict] += 1
        self.ops.update(s.ops)
        self.faults.update(s.faults)
        self.probes.update(s.probes)
        self.sites |= s.sites
        self.states |= s.states
        d = s.digest.digest()[:8]
        self.distinct.add(d)
        if s.nontrivial:
            self.nontrivial.add(d)
        self.sim_seconds += s.sim_seconds
        self.steps += s.steps
        if res.verdict in ("violated", "harness"):
            self.bad.append((index, res.verdict, res.key, res.msg))

    def merge(self, o):
        for n in ("verdicts", "ops", "faults", "probes"):
            getattr(self, n).update(getattr(o, n))
        for n in ("sites", "states", "nontrivial", "distinct"):
            setattr(self, n, getattr(self, n) | getattr(o, n))
        self.sim_seconds += o.sim_seconds
        self.steps += o.steps
        self.bad += o.bad


def worker(prop, seed, tier, indexes, stop, conn, known):
    t = Tally()
    try:
        for i in indexes:
            if stop.is_set():
                break
            plan = engine.plan_for(prop, seed, i, tier)
            res = run_one(plan)
            t.add(i, res)
            if res.verdict == "harness" or (res.verdict == "violated" and not known_match(prop, res, known)):
                stop.set()
                break
    except BaseException as exc:  # noqa: B902
        import traceback

        t.bad.append((-1, "harness", "worker", traceback.format_exc() + repr(exc)))
        stop.set()
    conn.send(t)
    conn.close()


# ------------------------------------------------------------- known findings
def findings(prop):
    """Lines ``finding: property=C05 key=<class> match=<regex on the message> -- text``."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=(\S+) -- (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def known_match(prop, res, known):
    for key, rx, text in known:
        if res.key == key and re.search(rx, res.msg or ""):
            return text
    return None


# ------------------------------------------------------------------- running
def explore(prop, seed, tier, runs, jobs, known):
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    jobs = max(1, min(jobs, runs))
    procs = []
    for w in range(jobs):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(prop, seed, tier, range(w, runs, jobs), stop, b, known))
        p.start()
        b.close()
        procs.append((p, a))
    total = Tally()
    deadline = time.time() + DEADLINE[tier]
    lost = 0
    for p, a in procs:
        left = max(0.0, deadline - time.time())
        try:
            if a.poll(left):
                total.merge(a.recv())
            else:
                lost += 1
        except EOFError:
            lost += 1
        if lost:
            stop.set()
    for p, _ in procs:
        p.join(5)
        if p.is_alive():
            p.terminate()
            p.join()
    if lost:
        total.bad.append((-1, "harness", "lost-worker", "%d of %d workers did not report" % (lost, jobs)))
    return total


def fails_like(key):
    def f(plan):
        r = run_one(plan)
        return r.verdict == "violated" and r.key == key

    return f


def write_replay(prop, plan, key, msg, minimised, extra=None):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    res = run_one(plan) if extra is None else None
    doc = {
        "property": prop,
        "seed": plan.get("seed"),
        "index": plan.get("index"),
        "key": key,
        "message": res.msg if res is not None and res.verdict == "violated" else msg,
        "digest": res.stats.digest.hexdigest()[:16] if res is not None else None,
        "minimised": minimised,
        "plan": plan,
    }
    if extra:
        doc.update(extra)
    name = "%s-%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", key)[:40], hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:8])
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    return path


def reproduces(path, seconds=300):
    """Replay in a fresh process."""
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "replay.py"), path], capture_output=True, text=True, timeout=seconds)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1 and "VIOLATION" in r.stdout


def report(prop, seed, tier, index, key, msg, seconds, jobs):
    plan = engine.plan_for(prop, seed, index, tier)
    plan = json.loads(json.dumps(plan))
    original = json.loads(json.dumps(plan))
    if key != "endless":
        f = fails_like(key)
        if f(plan):
            try:
                plan = Minimiser(plan, f, seconds).run()
            except Exception as exc:  # noqa: B902
                print("not minimised: %r" % exc)
    path = write_replay(prop, plan, key, msg, plan != original)
    if reproduces(path):
        return path
    path = write_replay(prop, original, key, msg, False)
    if reproduces(path):
        return path
    # depends on what ran earlier in the same process: replay the whole chunk
    path = write_replay(prop, original, key, msg, False, {"chunk": [prop, seed, tier, index % jobs, jobs, index]})
    reproduces(path)
    return path


def evidence(prop, tier, seed, t, wall, runs, level, mod, violations):
    cover = {
        "evaluations": sum(t.verdicts.values()),
        "distinct_nontrivial": len(t.nontrivial),
        "rule": getattr(mod, "RULE", "") or (mod.__doc__ or "").strip(),
        "samples": [],
        "simulated_runs": sum(t.verdicts.values()),
        "runs_planned": runs,
        "verdicts": dict(t.verdicts),
        "runs_per_hour": int(sum(t.verdicts.values()) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(sum(t.verdicts.values()) / max(wall, 1e-9) * 3600),
        "simulated_years": round(t.sim_seconds / (365.25 * 86400), 3),
        "model_steps": t.steps,
        "operations": dict(t.ops.most_common()),
        "faults_fired": {},
        "faults_fired_total": sum(t.faults.values()),
        "distinct_crash_sites": len(t.sites),
        "distinct_states": len(t.states),
        "distinct_states_measure": "distinct (previous operation, operation, outcome, kind of model, position in run, drivers set) tuples, crash contexts and property-specific state signatures",
        "distinct_histories": len(t.distinct),
        "probes": dict(t.probes.most_common()),
        "components_real": ["openscm_twolayermodel (all modules, from /repo/src)", "numpy", "pandas", "pint/openscm-units", "scmdata", "tqdm", "deepcopy"],
        "components_stub": ["git (subprocess.Popen) while the package starts", "clock read by tqdm", "terminal (sys.stderr)"] + list(getattr(mod, "STUBS", [])),
    }
    kinds = Counter()
    for k, n in t.faults.items():
        kinds[k.split(" during ")[0]] += n
    cover["faults_fired"] = dict(kinds.most_common())
    cover["faults_fired_during"] = dict(t.faults.most_common(60))
    for i in (0, 1):
        s = json.dumps(engine.plan_for(prop, seed, i, tier))
        cover["samples"].append({"index": i, "plan": s if len(s) < 3000 else s[:3000] + "..."})
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cover,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) or ["libraries (numpy, pandas, pint, scmdata, tqdm) are atomic: no crash or preemption inside them", "reference equations are evaluated in double precision with tolerances of 1e-11 relative to the terms involved"],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(doc, fh, indent=1)
    os.replace(tmp, path)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8)))
    args = ap.parse_args(argv)
    prop, tier, seed = args.property, args.tier, args.seed
    if tier not in DEADLINE:
        print("unknown tier %s" % tier)
        return 2
    mod = engine.module(prop)
    runs = args.runs or mod.RUNS[tier]
    known = findings(prop)
    print("property %s seed %d tier %s runs %d" % (prop, seed, tier, runs), flush=True)
    t0 = time.time()
    t = explore(prop, seed, tier, runs, args.jobs, known)
    wall = time.time() - t0
    seen = {}
    new = []
    for index, verdict, key, msg in sorted(t.bad):
        if verdict != "violated":
            continue
        text = known_match(prop, engine.Result("violated", None, key, msg), known)
        if text:
            seen.setdefault(text, index)
        else:
            new.append((index, key, msg))
    evidence(prop, tier, seed, t, wall, runs, "exploration", mod, len(new))
    print("%d runs in %.1f s: %s; %d faults fired, %d states, %d crash sites" % (sum(t.verdicts.values()), wall, dict(t.verdicts), sum(t.faults.values()), len(t.states), len(t.sites)))
    for _, _, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if new:
        index, key, msg = new[0]
        print("run %d of seed %d: %s: %s" % (index, seed, key, msg), flush=True)
        path = report(prop, seed, tier, index, key, msg, 60 if tier == "quick" else 300, args.jobs)
        doc = json.load(open(path))
        print("minimised: %s: %s" % (doc["key"], doc["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    harness = [b for b in t.bad if b[1] == "harness"]
    if harness:
        for index, _, key, msg in harness[:3]:
            print("HARNESS ERROR in run %d: %s: %s" % (index, key, msg))
        return 2
    done = t.verdicts["held"] + t.verdicts["unusable"] + sum(1 for b in t.bad if b[1] == "violated")
    if done != runs:
        print("HARNESS ERROR: %d of %d runs done" % (done, runs))
        return 2
    if t.verdicts["unusable"] > runs // 5:
        print("HARNESS ERROR: %d of %d runs could not be judged" % (t.verdicts["unusable"], runs))
        return 2
    print("OK property=%s held on everything explored" % prop)
    return 0
