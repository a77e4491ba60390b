"""C01: two-layer trajectories follow the documented forward-difference equations."""
from .. import gen
from .common import trajectories

RUNS = {"quick": 6000, "thorough": 120000}
CFG = {"kinds": ["TL"], "p_fault": 0.15, "nops": (5, 24)}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "wild", "wild"]))
    if rng.random() < 0.1:
        cfg["maxn"] = 300
    if rng.random() < 0.012:
        cfg["maxn"] = 3000
    cfg["w"] = {"newconv": 0, "conv": 0.2}
    return {"ops": gen.redrive(rng, gen.history(rng, cfg))}


def execute(plan, stats):
    trajectories(plan, stats, {"Tu", "Tl"})
