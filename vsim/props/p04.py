"""Accumulating analyses: what is read is the sum over exactly the frames since the last reset, for any history."""

from .. import adapters as A
from .common import gen_case

ID = "P04"
RULE = (
    "a run counts when two or more frames were accumulated and at least one result was read and compared with that of a "
    "new object fed the same frames; two runs are the same when their scheduling decisions, accesses and analysis agree"
)
SCHED_NONTRIVIAL = False
# MSD and the diffraction pattern take their frames at the level of Python
NAMES = A.ACCUM


def gen(rng, tier):
    c = gen_case(rng, NAMES, kmax=3, small=rng.random() < 0.7)
    c["kind"] = c["a"]
    nf = len(c["frames"])
    ops = [["c", rng.randrange(nf), True]]
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.3:
            ops.append(["r"])
        else:
            ops.append(["c", rng.randrange(nf), rng.random() < 0.25])
    if rng.random() < 0.3:
        ops[0][2] = False  # the first call need not reset anything
    c["ops"] = ops + [["r"]]
    c["default"] = rng.random() < 0.3  # a reset asked for by leaving the argument out
    return c


def run(sc, ctx):
    ad = A.ALL[sc["a"]]
    p = sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    with ctx.sim.world():
        o = ad.make(p)
    since = []
    reads = most = 0
    for n, op in enumerate(sc["ops"]):
        if op[0] == "c":
            F = frames[op[1]]
            reset = op[2]
            kw = {} if reset and sc["default"] else {"reset": reset}
            with ctx.sim.world():
                ad.compute(o, p, F, **kw)
            since = ([] if reset else since) + [op[1]]
            most = max(most, len(since))
            continue
        if not since:
            continue
        with ctx.sim.world():
            got = ad.outputs(o)
        with ctx.sim.ref():
            x = ad.make(p)
            for k, f in enumerate(since):
                ad.compute(x, p, frames[f], reset=k == 0)
            ref = ad.outputs(x)
        d = A.diff_outputs(got, ref, ad.tol)
        if d:
            ctx.fail(f"{sc['a']}.{d[0]}", f"operation {n}, frames since the last reset {since}: {d[1]} in a new object")
            return
        d = A.check_model(ad, p, [frames[f] for f in since], got)
        if d:
            ctx.fail(f"{sc['a']}.{d[0]}.definition", f"operation {n}, frames since the last reset {since}: {d[1]}")
            return
        reads += 1
    ctx.nontrivial = reads > 0 and most > 1
