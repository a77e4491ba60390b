"""Determinism self-test: the same plans, fresh interpreters, other hash seeds and orders."""
import argparse
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C%02d" % i for i in range(1, 24)]


def child(runs, seed, reverse, props):
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from sim import engine

    idx = [(p, i) for p in props for i in range(runs)]
    if reverse:
        idx.reverse()
    out = {}
    for p, i in idx:
        r = engine.execute(engine.plan_for(p, seed, i, "quick"))
        out[p, i] = "%s %d %s %s %s" % (p, i, r.verdict, r.key, r.stats.digest.hexdigest()[:24])
    for k in sorted(out):
        print(out[k])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--runs", type=int, default=3)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seeds", type=int, default=1)
    ap.add_argument("--child", type=int)
    ap.add_argument("--props")
    a = ap.parse_args()
    props = a.props.split(",") if a.props else [p for p in PROPS if os.path.exists(os.path.join(HERE, "sim", "props", p.lower() + ".py"))]
    if a.child is not None:
        child(a.runs, a.seed, a.child, props)
        return 0
    bad = 0
    for seed in range(a.seed, a.seed + a.seeds):
        procs = []
        for hs, rev in (("0", 0), ("4242", 1), ("random", 0)):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            procs.append(subprocess.Popen([sys.executable, "-Wignore", os.path.abspath(__file__), "--child", str(rev), "--runs", str(a.runs), "--seed", str(seed), "--props", ",".join(props)], stdout=subprocess.PIPE, text=True, env=env))
        outs = [p.communicate()[0] for p in procs]
        if any(p.returncode for p in procs):
            print("determinism: a run failed")
            bad = 1
        lines = [o.splitlines() for o in outs]
        for other in lines[1:]:
            for x, y in zip(lines[0], other):
                if x != y:
                    print("NOT DETERMINISTIC:\n  %s\n  %s" % (x, y))
                    bad = 1
            if len(other) != len(lines[0]):
                bad = 1
        print("determinism: seed %d, %d runs x 3 interpreters %s" % (seed, len(lines[0]), "DIFFER" if bad else "identical"))
    return bad


if __name__ == "__main__":
    sys.exit(main())
