"""C02: impulse-response trajectories follow the exact two-timescale solution."""
from .. import gen
from ..units import YR
from .common import trajectories

RUNS = {"quick": 4200, "thorough": 60000}
CFG = {"kinds": ["IR"], "p_fault": 0.15, "nops": (5, 24)}


def generate(rng, tier):
    cfg = dict(CFG, regime=rng.choice(["mild", "wild", "wild"]))
    if rng.random() < 0.1:
        cfg["maxn"] = 120
    if rng.random() < 0.012:
        cfg["maxn"] = 3000
    cfg["w"] = {"newconv": 0, "conv": 0.2}
    ops = gen.redrive(rng, gen.history(rng, cfg))
    if rng.random() < 0.3:
        swap_timescales(rng, ops)
    return {"ops": ops}


def swap_timescales(rng, ops):
    """Only the constructor insists on d1 < d2: set them in any order (never nearly equal)."""
    for op in ops:
        if op["op"] == "setp" and op["name"] in ("d1", "d2"):
            half = 0.0 if op["name"] == "d1" else 0.5
            op["q"] = gen.express(rng, "time", gen.r4(0.1 * 2 ** ((rng.randrange(26) + half) / 2.0) * YR))


def execute(plan, stats):
    trajectories(plan, stats, {"T1", "T2"})
