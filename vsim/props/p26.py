"""What freud allocates for a computation, a search or an object is given back when the last reference to it is gone."""

import gc
import random
import sys
import types

import numpy as np

from .. import adapters as A
from .. import faults as X
from ..worker import Ctx
from . import p06, p25
from .common import gen_case

ID = "P26"
RULE = (
    "a run counts when a scenario that took blocks through the extension modules' allocator was executed several times in "
    "one process and the blocks still in use were counted after each; two runs are the same when their scheduling "
    "decisions, accesses and scenario agree"
)
ASSUME = [
    "counted are the blocks taken by the extension modules, objects of freud's classes, what freud's modules and classes refer to, and what an object that is used again and again refers to",
    "a block that is kept once and not again (a cache) is no leak; one more per execution is",
]
SCHED_NONTRIVIAL = False
ROUNDS = 6
LONG = 40


def gen(rng, tier):
    if rng.random() < 0.3:
        c = gen_case(rng, sorted(A.ALL), kmax=2, small=True)
        c["kind"] = "again." + c["a"]
        nf = len(c["frames"])
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            u = rng.random()
            ops.append(["x", rng.randrange(nf), X.gen(rng)] if u < 0.4 else ["c", rng.randrange(nf)] if u < 0.7 else ["r"] if u < 0.85 else ["q"])
        c["cycle"] = [*ops, ["c", rng.randrange(nf)], ["r"]]
        c["shared"] = rng.random() < 0.6
        return c
    return p25.gen(rng, tier)


# ------------------------------------------------------------------ what Python holds
LEAVES = (str, bytes, int, float, complex, bool, type(None), np.generic, np.dtype)


def ours(m):
    return str(m or "").startswith("freud")


def size(roots):
    """Bytes of everything the roots lead to, not through other packages."""
    seen = set()
    todo = list(roots)
    n = 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, LEAVES) and not isinstance(o, (str, bytes)):
            continue
        if isinstance(o, types.ModuleType) and not ours(o.__name__):
            continue
        if isinstance(o, (type, types.FunctionType)) and not ours(o.__module__):
            continue
        if isinstance(o, (types.BuiltinFunctionType, types.FrameType)):
            continue
        seen.add(id(o))
        n += sys.getsizeof(o)
        todo.extend(gc.get_referents(o))
    return n


def modules():
    return [m for k, m in sorted(sys.modules.items()) if ours(k)]


def again(sc, ctx):
    """One object, and one search structure, used in the same way again and again."""
    ad, p = A.ALL[sc["a"]], sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    kept = []
    if sc["shared"]:
        for F in frames:
            p06.share(ctx, F)
            kept.append(F.system())
    with ctx.sim.world():
        o = ad.make(p)
    live, held = [], []
    kw = {"reset": True} if ad.accum else {}
    for k in range(LONG):
        for op in sc["cycle"]:
            random.seed(0)
            if op[0] == "x":
                with ctx.sim.world():
                    X.faulty(ctx, ad, p, o, frames[op[1]], op[2], **kw)
            elif op[0] == "c":
                with ctx.sim.world():
                    ad.compute(o, p, frames[op[1]], **kw)
            elif op[0] == "q":
                for nq in kept:
                    if hasattr(nq, "query"):
                        with ctx.sim.world():
                            try:
                                for _ in nq.query(nq.points, {"num_neighbors": 1}):
                                    pass
                            except ValueError:  # boxes and structures that do not answer
                                ctx.probe("query_refused")
            else:
                with ctx.sim.world():
                    try:
                        ad.outputs(o)
                    except Exception:  # noqa: BLE001  (after a failure)
                        ctx.probe("nothing_to_read")
        gc.collect()
        live.append(ctx.sim.live()[0])
        held.append(size([o, *kept]))
        # a worker that takes part for the first time gets storage of its own, which stays
        if k > 1 and not grows(live, 2) and not grows(held, 2):
            break
    ctx.nontrivial = True
    if len(live) == LONG and grows(live):
        ctx.fail("grows", f"{sc['a']}: blocks in use after each of {LONG} equal rounds: {live}")
    if len(live) == LONG and grows(held):
        ctx.fail("grows.python", f"{sc['a']}: bytes the object refers to after each of {LONG} equal rounds: {held}")


def grows(x, steps=4):
    x = x[-steps - 1 :]
    return all(b > a for a, b in zip(x, x[1:]))


class Quiet(Ctx):
    def fail(self, sig, msg):
        pass


def once(sc, sim):
    c = Quiet(sim, sc)
    try:
        if "m" in sc:
            p25.module(sc["m"]).run(sc["sub"], c)
        elif "o" in sc:
            with sim.world():
                p25.ODD[sc["o"]](sc, c)
        else:
            p25.run_odd(sc, c)
    except Exception:  # noqa: BLE001  (what it says is that property's matter)
        pass
    finally:
        sim.disarm()
    return c.faults


def run(sc, ctx):
    ctx.sim.guard()
    if "cycle" in sc:
        again(sc, ctx)
        return
    live = []
    objs = []
    held = []
    took = t = 0
    gc.collect()
    gc.freeze()  # what is there already is not looked through again and again
    for _ in range(ROUNDS):
        random.seed(0)
        g0 = ctx.sim.stats()["guarded"]
        _, t = ctx.sim.live()
        f = once(sc, ctx.sim)
        ctx.faults.update(f)
        del f
        gc.collect()
        took = ctx.sim.stats()["guarded"] - g0
        live.append(ctx.sim.live()[0])
        objs.append(sum(str(getattr(type(o), "__module__", "")).startswith("freud") for o in gc.get_objects()))
        held.append(size(modules()))
        if len(live) > 2 and live[-1] <= live[-2] and objs[-1] <= objs[-2] and held[-1] <= held[-2]:
            break
    gc.unfreeze()
    ctx.nontrivial = took > 0
    d = [b - a for a, b in zip(live, live[1:])]
    if len(live) == ROUNDS and min(d[-4:]) > 0:
        ctx.fail("leak", f"blocks in use after each of {ROUNDS} executions: {live}; taken at {places(ctx.sim.live_sites(t))}")
    if len(held) == ROUNDS and grows(held):
        ctx.fail("leak.modules", f"bytes freud's modules refer to after each of {ROUNDS} executions: {held}")
    if len(objs) == ROUNDS and grows(objs):
        ctx.fail("leak.objects", f"freud's objects after each of {ROUNDS} executions: {objs}")


def places(sites):
    """Modules and offsets of addresses."""
    maps = []
    with open("/proc/self/maps") as f:
        for line in f:
            w = line.split()
            if len(w) > 5:
                lo, hi = (int(x, 16) for x in w[0].split("-"))
                maps.append((lo, hi, int(w[2], 16), w[5]))
    out = []
    for a in sorted(set(sites))[:12]:
        for lo, hi, off, name in maps:
            if lo <= a < hi:
                out.append(f"{name}|{a - lo + off:#x}|{sites.count(a)}")
    return out
