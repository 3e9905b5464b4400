"""Neighbour queries are exact, for every structure, whatever was asked of it before."""

import numpy as np

from .. import query as Q
from .. import systems as S
from ..systems import Frame

ID = "P07"
RULE = (
    "a run counts when at least one query had an answer with a bond and the scheduler switched workers inside a query; "
    "two runs are the same when their scheduling decisions and accesses agree"
)
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    s = Q.gen_system(rng)
    cell = s["nq"]["t"] == "cell"
    if rng.random() < 0.15:
        Q.on_grid(rng, s)
    k = rng.choice([1, 1, 2, 3, 5])
    ops = [
        {"q": Q.gen_query(rng, cell), "how": rng.choice(["nlist", "nlist", "nlist_d", "list", "part"])} for _ in range(k)
    ]
    return {"frame": s, "ops": ops, "kind": s["nq"]["t"]}


def make(F):
    return S.as_nq(F.system())


def run(sc, ctx):
    F = Frame(sc["frame"])
    bonds = 0
    undefined = 0
    with ctx.sim.world():
        nq = make(F)
        for k, op in enumerate(sc["ops"]):
            q = Q.Query(F, op["q"])
            res = nq.query(q.points(), dict(q.args))
            if op["how"] in ("nlist", "nlist_d"):
                nl = res.toNeighborList(sort_by_distance=op["how"] == "nlist_d")
                r = q.check_nlist(nl, op["how"] == "nlist_d")
                bonds += len(nl)
            else:
                it = iter(res)
                t = []
                for x in it:
                    t.append(x)
                    if op["how"] == "part" and len(t) >= 7:
                        break
                a = np.array(t, float).reshape(-1, 3)
                r = q.check(a[:, 0], a[:, 1], a[:, 2], part=None if op["how"] == "list" or len(t) < 7 else 7)
                if not r and (np.diff(a[:, 0]) < 0).any():
                    r = "order", "query points are not visited in order"
                bonds += len(t)
            undefined += int((~q.defined).sum())
            if r:
                ctx.fail(f"{sc['frame']['nq']['t']}.{op['q']['t']}.{r[0]}", f"query {k} ({op['how']}): {r[1]}")
                return
    ctx.probe("bonds", bonds)
    ctx.probe("undetermined_query_points", undefined)
    st = ctx.sim.stats()
    ctx.nontrivial = bonds > 0 and st["switches"] > 0
