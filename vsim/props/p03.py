"""Seeded results repeat: the same seed gives the same result whatever schedule, thread count or other use is around it."""

import random

import numpy as np

import freud

from .. import adapters as A
from .. import systems as S

ID = "P03"
RULE = (
    "a run counts when a seeded computation was repeated and at least one repetition ran on several workers between which "
    "the scheduler switched, or the global generators were disturbed in between; two runs are the same when their "
    "scheduling decisions and accesses agree"
)
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    k = rng.choice(["Cubatic", "Cubatic", "Cubatic", "default", "random", "unit"])
    d = {"k": k, "kind": k, "disturb": rng.getrandbits(32), "seed": rng.choice([0, 1, rng.getrandbits(31), rng.getrandbits(16)])}
    if k in ("Cubatic", "default"):
        ad = A.ALL["Cubatic"]
        d["p"], d["frames"] = ad.gen(rng, rng.choice([1, 2, 3]), False)
        d["p"]["seed"] = d["seed"]
        d["p"]["k"] = rng.choice([1, 2, 3, 5, 8, 12])
        d["ops"] = [[rng.randrange(2), rng.randrange(len(d["frames"])), rng.randrange(3)] for _ in range(rng.randint(2, 5))]
        d["t"] = round(rng.uniform(1, 2e9), 3)
    elif k == "random":
        d["n"] = rng.randint(1, 300)
        d["L"] = round(rng.uniform(1, 30), 3)
        d["d2"] = rng.random() < 0.4
    else:
        d["cell"] = rng.choice(["fcc", "bcc", "sc", "hcp", "square", "hex", "graphene", "rectangular", "oblique"])
        d["rep"] = rng.randint(1, 4)
        d["scale"] = round(rng.uniform(0.5, 3), 3)
        d["sigma"] = rng.choice([0, round(rng.uniform(0.001, 0.3), 4)])
    return d


def disturb(g):
    """What else a program does between two uses of a seed."""
    np.random.seed(int(g.integers(1 << 31)))
    np.random.random(int(g.integers(5)))
    random.seed(int(g.integers(1 << 31)))
    if g.random() < 0.5:
        freud.data.make_random_system(3, 5, seed=int(g.integers(1 << 20)))
    if g.random() < 0.3:
        freud.data.make_random_system(3, 5)


def state():
    a, b = np.random.get_state(), random.getstate()
    return (a[0], a[1].tobytes(), *a[2:]), b


def run(sc, ctx):
    g = np.random.default_rng(sc["disturb"])
    if sc["k"] in ("Cubatic", "default"):
        return cubatic(sc, ctx, g)

    def make():
        if sc["k"] == "random":
            return freud.data.make_random_system(sc["L"], sc["n"], sc["d2"], seed=sc["seed"])
        c = getattr(freud.data.UnitCell, sc["cell"])()
        return c.generate_system(sc["rep"], scale=sc["scale"], sigma_noise=sc["sigma"], seed=sc["seed"])

    def bits(r):
        b, p = r
        return [b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.is2D], np.array(p, copy=True)

    with ctx.sim.ref():
        disturb(g)
        s0 = state()
        rb, rp = bits(make())
        if state() != s0:
            ctx.fail(f"{sc['k']}.global_state", "a seeded call changed the state of the global random generators")
            return
    n = 0
    with ctx.sim.world():
        for _ in range(3):
            disturb(g)
            b, p = bits(make())
            n += 1
            if b != rb or p.shape != rp.shape or not np.array_equal(p, rp):
                ctx.fail(f"{sc['k']}.repeat", f"the same seed {sc['seed']} gave another system")
                return
    if sc["k"] == "unit" and sc["sigma"] == 0:
        n = 0
    ctx.nontrivial = n > 0


def cubatic(sc, ctx, g):
    import time

    ad, p = A.ALL["Cubatic"], sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    objs, seeds = [], []
    real = time.time
    clock = [sc["t"]]
    try:
        time.time = lambda: clock[0]
        with ctx.sim.ref():
            for _ in range(2):
                if sc["k"] == "default":
                    # the default seed is the clock's: whatever it is, it is reported and repeats
                    objs.append(freud.order.Cubatic(p["ti"], p["tf"], p["sc"], p["k"]))
                    seeds.append(objs[-1].seed)
                else:
                    objs.append(ad.make(p))
                    seeds.append(p["seed"])
                clock[0] += g.choice([-5, 0, 1, 1e6])
            for x, s in zip(objs, seeds):
                if x.seed != s:
                    ctx.fail("Cubatic.seed", f"the seed reported is {x.seed}, not {s}")
                    return
            ref = {}
            for s in set(seeds):
                for k, F in enumerate(frames):
                    o = ad.make(dict(p, seed=s))
                    ad.compute(o, p, F)
                    ref[s, k] = ad.outputs(o)
        with ctx.sim.world():
            for which, k, nth in sc["ops"]:
                clock[0] += g.choice([-1e5, 0, 1, 1e6])
                if nth:
                    with freud.parallel.NumThreads(nth):
                        ad.compute(objs[which], p, frames[k])
                else:
                    ad.compute(objs[which], p, frames[k])
                disturb(g)
                d = A.diff_outputs(ad.outputs(objs[which]), ref[seeds[which], k], ad.tol)
                if d:
                    ctx.fail(
                        f"Cubatic.{d[0]}",
                        f"computation on orientations {k} differs from that of a new object with the same seed {seeds[which]}: {d[1]}",
                    )
                    return
    finally:
        time.time = real
    ctx.fault("clock_jump", len(sc["ops"]))
    ctx.nontrivial = ctx.sim.stats()["switches"] > 0
