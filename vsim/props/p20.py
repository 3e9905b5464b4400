"""Bulk box operations equal the operation on each vector alone, under any split over workers."""

import numpy as np

from .. import boxops as B

ID = "P20"
RULE = (
    "a run counts when a bulk operation was split over two or more workers between which the scheduler switched; two runs "
    "are the same when their scheduling decisions, accesses and operations agree"
)


def gen(rng, tier):
    ops = [B.gen_op(rng) for _ in range(rng.choice([1, 1, 2]))]
    for d in ops:
        if rng.random() < 0.2:
            B.on_grid(rng, d)
    return {"ops": ops, "kind": "box"}


def run(sc, ctx):
    for d in sc["ops"]:
        op = B.Op(d)
        name = d["op"]
        with ctx.sim.world():
            r, msg = op.real()
        if msg:
            ctx.fail(f"{name}.arrays", msg)
            return
        if r.shape != op.expect_shape():
            ctx.fail(f"{name}.shape", f"{r.shape} instead of {op.expect_shape()}")
            return
        m = op.model(r)
        if m:
            ctx.fail(f"{name}.definition", m)
            return
        if name in ("center", "center_of_mass"):
            with ctx.sim.ref():
                s, _ = op.real()
            if not np.array_equal(r, s, equal_nan=True):
                ctx.fail(f"{name}.split", "differs from the one-worker result")
                return
            continue
        g = np.random.default_rng(d["s"] + 1)
        with ctx.sim.ref():
            if name == "compute_all_distances":
                for _ in range(25):
                    j, i = int(g.integers(r.shape[1])), int(g.integers(r.shape[0]))
                    if r[i, j] != op.one(j, i):
                        ctx.fail(f"{name}.alone", f"distance {(i, j)} is {r[i, j]}, alone {op.one(j, i)}")
                        return
            else:
                R = np.atleast_2d(r) if name not in ("contains", "compute_distances") else r
                for k in g.permutation(len(R))[:25]:
                    if not np.array_equal(R[k], op.one(int(k)), equal_nan=True):
                        ctx.fail(f"{name}.alone", f"vector {k}: {R[k]}, alone {op.one(int(k))}")
                        return
