"""Pair histograms equal their definition under any schedule."""

from .. import adapters as A
from .common import against_model, gen_case

ID = "P18"
RULE = (
    "a run counts when its neighbour sets were determined (no distance at a cutoff), it compared at least one output with "
    "the definition, and the scheduler switched between workers"
)
NAMES = A.HISTS + ["StaticStructureFactorDebye"]
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    c = gen_case(rng, NAMES)
    c["kind"] = c["a"]
    if c["a"] in ("RDF", "CorrelationFunction", "PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ") and rng.random() < 0.3:
        on_grid(rng, c)
    return c


def on_grid(rng, c):
    """Distances that are exact in single precision, at the edges of the bins, too."""
    L = [rng.choice([4, 8, 16]) for _ in range(3)]
    for f in c["frames"]:
        b = f["sys"]["box"]
        f["sys"]["box"] = {"L": [*L[:2], 0] if b["d2"] else L, "tilt": [0, 0, 0], "d2": b["d2"]}
        f["sys"]["pk"] = "grid"
        f["sys"]["grid"] = rng.choice([0.5, 0.5, 1, 0.25])
        if f.get("nb") and f["nb"]["t"] == "nearest":
            f["nb"] = None
        f.pop("quat", None)
        if "XY" in c["a"]:
            f["nb"] = f.get("nb") or {"t": "ball", "f": 0.9}
    w = rng.choice([0.5, 0.5, 0.25, 0.125])
    if "XY" in c["a"]:
        c["p"].update({k: w * 2 ** rng.randrange(3) for k in ("x_max", "y_max") if k in c["p"]})
        for k, x in c["p"].items():
            if k.startswith("bins"):
                c["p"][k] = rng.choice([1, 2, 4, 8]) if isinstance(x, int) else [rng.choice([1, 2, 4, 8]) for _ in x]
        if "m" in c["p"]:
            c["p"].update(m=[w * 2 ** rng.randrange(3) for _ in range(3)], neq=0)
            c["p"].pop("shift", None)
        return
    m = rng.randint(1, int(0.98 * min(L) / 2 / w))
    if "bins3" in c["p"]:
        b = c["p"]["bins3"]
        c["p"].update(bins3=m if isinstance(b, int) else [m, *b[1:]], r_max=m * w)
        return
    c["p"]["bins"] = m
    if c["p"].get("r_min"):
        c["p"]["r_min"] = rng.randrange(m) * w
        c["p"]["bins"] = m - int(c["p"]["r_min"] / w)
    c["p"]["r_max"] = m * w


def run(sc, ctx):
    n = against_model(sc, ctx)
    ctx.nontrivial = n > 0 and ctx.sim.stats()["switches"] > 0
