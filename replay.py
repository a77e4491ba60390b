#!/opt/venv/bin/python -Wignore
"""replay.py FILE: re-executes a recorded failing plan exactly; exit 1 if it still fails."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import engine  # noqa: E402
from sim.runner import run_one  # noqa: E402


def main(path):
    doc = json.load(open(path))
    plan = doc["plan"]
    if "chunk" in doc:
        prop, seed, tier, first, step, last = doc["chunk"]
        for i in range(first, last, step):
            engine.execute(engine.plan_for(prop, seed, i, tier))
    res = run_one(plan)
    print("%s: %s" % (res.verdict, res.key))
    print(res.msg)
    print("digest %s (recorded %s)" % (res.stats.digest.hexdigest()[:16], doc.get("digest")))
    if res.verdict == "violated" and res.key == doc["key"]:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return 0 if res.verdict == "held" else 2


sys.exit(main(sys.argv[1]))
