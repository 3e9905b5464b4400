"""Queries over one structure do not disturb each other, however their consumption interleaves."""

import numpy as np

import freud

from .. import query as Q
from ..systems import Frame
from .p07 import make

ID = "P08"
RULE = (
    "a run counts when at least two queries of one structure were partly consumed at the same time; two runs are the same "
    "when the interleaving, drawn from the scenario, and the scheduling decisions agree"
)
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    s = Q.gen_system(rng, hi=30, big=False)
    cell = s["nq"]["t"] == "cell"
    k = rng.choice([2, 2, 3, 4])
    one_r = cell and rng.random() < 0.5
    cl = []
    for _ in range(k):
        q = Q.gen_query(rng, cell, hi=15)
        if one_r and cl:
            q["f"] = cl[0]["q"]["f"]
        cl.append({"q": q, "drop": rng.random() < 0.15})
    return {
        "frame": s, "clients": cl, "kind": s["nq"]["t"] + (".one_r" if one_r else ""), "order": rng.getrandbits(32),
        "mix": rng.choice([1, 3, 8, 20]), "compute": rng.random() < 0.4, "del": rng.random() < 0.3, "same": one_r,
    }


def run(sc, ctx):
    F = Frame(sc["frame"])
    g = np.random.default_rng(sc["order"])
    kind = sc["frame"]["nq"]["t"]
    with ctx.sim.world():
        nq = make(F)
        live = []
        for k, c in enumerate(sc["clients"]):
            q = Q.Query(F, c["q"])
            pts = q.points()
            args = dict(q.args)
            res = nq.query(pts, args)
            if isinstance(pts, np.ndarray):
                pts[...] = 1e6  # the caller's array is its own again
            args.clear()
            live.append({"q": q, "res": res, "it": None, "got": [], "k": k, "c": c})
        rdf = freud.density.RDF(5, F.geo.rcut * 0.7) if sc["compute"] else None
        todo = list(live)
        overlapped = 0
        if sc["del"]:
            keep, nq = nq, None
            keep = None  # noqa: F841
            rdf = None
        steps = 0
        while todo:
            x = todo[int(g.integers(len(todo)))]
            if x["it"] is None:
                x["it"] = iter(x["res"])
                if sc["del"]:
                    x["res"] = None
            n = 1 + int(g.integers(sc["mix"]))
            for _ in range(n):
                try:
                    x["got"].append(next(x["it"]))
                except StopIteration:
                    todo.remove(x)
                    x["done"] = True
                    break
            if sum(1 for y in todo if y["it"] is not None) > 1:
                overlapped += 1
            if x in todo and x["c"]["drop"] and len(x["got"]) > 5:
                x["it"].close()
                todo.remove(x)
            steps += 1
            if rdf is not None and steps % 7 == 0:
                rdf.compute(nq)
            if nq is not None and steps % 23 == 0:
                y = live[int(g.integers(len(live)))]
                r = y["q"].check_nlist(y["res"].toNeighborList())
                if r:
                    ctx.fail(f"{kind}.nlist.{r[0]}", f"query {y['k']} turned into a list in between: {r[1]}")
                    return
    for x in live:
        a = np.array(x["got"], float).reshape(-1, 3)
        r = x["q"].check(a[:, 0], a[:, 1], a[:, 2], part=None if x.get("done") else 1)
        if r:
            ctx.fail(f"{kind}{'.one_r' if sc['same'] else ''}.{r[0]}", f"query {x['k']} of {len(live)}: {r[1]}")
            return
    ctx.probe("overlapping_steps", overlapped)
    ctx.nontrivial = overlapped > 0
