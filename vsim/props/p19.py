"""Per-particle and grid analyses equal their definition under any schedule."""

from .. import adapters as A
from .common import against_model, gen_case

ID = "P19"
RULE = (
    "a run counts when its neighbour sets were determined (no distance at a cutoff), it compared at least one output with "
    "the definition, and the scheduler switched between workers"
)
SPH = [c.__name__ for c in A._sph.CLASSES]  # decided by P23
NAMES = [n for n in A.ALL if n not in A.HISTS + SPH and n not in ("StaticStructureFactorDebye", "DiffractionPattern", "MSD", "QueryList", "AllPairs", "FilterSANN", "FilterRAD")]
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    c = gen_case(rng, NAMES)
    c["kind"] = c["a"]
    if c["a"] in ("GaussianDensity", "SphereVoxelization") and rng.random() < 0.3:
        on_grid(rng, c)
    return c


def on_grid(rng, c):
    """Distances between points and cells that are exact in single precision, some of them that of the cutoff."""
    L = [rng.choice([4, 8, 16]) for _ in range(3)]
    for f in c["frames"]:
        b = f["sys"]["box"]
        f["sys"]["box"] = {"L": [*L[:2], 0] if b["d2"] else L, "tilt": [0, 0, 0], "d2": b["d2"]}
        f["sys"]["pk"] = "grid"
        f["sys"]["grid"] = rng.choice([0.5, 0.5, 1, 0.25])
    w = [rng.choice([4, 8, 16] if x < 16 else [8, 16]) for x in L]
    lim = min(x / 2 - x / y for x, y in zip(L, w))
    c["p"].update(w=w, r_max=rng.randint(1, max(1, int(lim * 4))) / 4)


def run(sc, ctx):
    n = against_model(sc, ctx)
    ctx.nontrivial = n > 0 and ctx.sim.stats()["switches"] > 0
