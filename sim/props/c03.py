"""C03: reported heat uptake closes the energy budget at every step."""
from .. import gen
from .common import trajectories

RUNS = {"quick": 5200, "thorough": 80000}
CFG = {"kinds": ["TL", "IR"], "p_fault": 0.12, "nops": (5, 24), "slots": [1, 1, 2, 2]}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "mild", "wild"]))
    if rng.random() < 0.1:
        cfg["maxn"] = 150
    if rng.random() < 0.012:
        cfg["maxn"] = 2000
    cfg["w"] = {"newconv": 2, "setp": 8}
    return {"ops": gen.redrive(rng, gen.history(rng, cfg))}


def execute(plan, stats):
    trajectories(plan, stats, {"R"})
