"""Neighbour filters keep exactly the bonds their definition keeps, with all that belongs to them."""

import re

import numpy as np

import freud

from .. import adapters as A
from .common import against_model, frames_of, gen_case

ID = "P14"
RULE = (
    "a run counts when the filter had bonds to decide on and the scheduler switched between workers; two runs are the same "
    "when their scheduling decisions and accesses agree"
)
SCHED_NONTRIVIAL = False
NAMES = ["FilterSANN", "FilterRAD"]


def gen(rng, tier):
    c = gen_case(rng, NAMES, kmax=2)
    c["kind"] = c["a"]
    c["strict"] = rng.random() < 0.4
    return c


def strict(sc, ctx):
    """allow_incomplete_shell=False: an error that names exactly the query points without a full shell."""
    ad, p, frames = frames_of(sc)
    for F in frames[:1]:
        with ctx.sim.ref():
            o = ad.make(p)
            ad.compute(o, p, F)
            u = ad.outputs(o)
        pr, ds, vs = u["unfiltered.pairs"].astype(int), u["unfiltered.distances"].astype(float), u["unfiltered.vectors"]
        bad, unsure = set(), set()
        for i in range(F.nQ):
            s = np.nonzero(pr[:, 0] == i)[0]
            s = s[np.argsort(ds[s], kind="stable")]
            d = ds[s]
            if len(d) > 1 and np.diff(d).min() < 1e-5 * F.geo.scale:
                unsure.add(i)
                continue
            k = ad.keep(p, F, F.pts, i, pr[s, 1], d, vs[s].astype(float))
            if k is None:
                unsure.add(i)
            elif sc["a"] == "FilterSANN":
                if len(k) == len(s):
                    bad.add(i)
            elif p["term"] and len(k) == len(s):
                bad.add(i)
        cls = getattr(freud.locality, sc["a"])
        kw = {"terminate_after_blocked": p["term"]} if sc["a"] == "FilterRAD" else {}
        x = cls(allow_incomplete_shell=False, **kw)
        named = set()
        with ctx.sim.world():
            try:
                ad.compute(x, p, F)
            except RuntimeError as e:
                m = re.search(r"indices ([\d, ]+) do not have full", str(e))
                if not m:
                    raise
                named = {int(t) for t in m.group(1).split(",") if t.strip()}
        if (bad - named) or (named - bad - unsure):
            ctx.fail(
                f"{sc['a']}.incomplete",
                f"query points {sorted(bad)} have no full shell (undecided: {sorted(unsure)}); the error names {sorted(named)}",
            )
        return len(pr)
    return 0


def run(sc, ctx):
    n = strict(sc, ctx) if sc["strict"] else against_model(sc, ctx, "computation")
    ctx.nontrivial = n > 0 and ctx.sim.stats()["switches"] > 0
