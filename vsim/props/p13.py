"""Clusters are the connected components of the bonds, whatever order and workers the bonds are merged by."""

import numpy as np

from .. import adapters as A
from .. import systems as S
from .common import against_model

ID = "P13"
RULE = (
    "a run counts when the bonds were merged by two or more workers between which the scheduler switched and the clusters "
    "were compared with the connected components; two runs are the same when their scheduling decisions and accesses agree"
)
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    ad = A.ALL["Cluster"]
    k = rng.choice([1, 1, 1, 2])
    p, frames = ad.gen(rng, k, rng.random() < 0.5)
    for f in frames:
        if rng.random() < 0.75:
            f["sys"]["n"] = rng.choice([2, 3, 5, 8, 16, rng.randint(10, 200), rng.randint(20, 90)])
            n = f["sys"]["n"]
            f["nb"] = {
                "t": "graph", "g": rng.choice(["path", "paths", "star", "tree", "pairs", "rand", "rand"]),
                "m": int(n * rng.choice([0.3, 0.5, 0.7, 1.0, 2.0])), "s": rng.getrandbits(32), "shuf": rng.random() < 0.5,
            }
    return {"a": "Cluster", "p": p, "frames": frames, "kind": frames[0]["nb"].get("g", frames[0]["nb"]["t"])}


def run(sc, ctx):
    n = against_model(sc, ctx, "computation")
    ctx.nontrivial = n > 0 and ctx.sim.stats()["switches"] > 0
