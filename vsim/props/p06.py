"""A failed computation does not spoil the next one on the same object."""

from .. import adapters as A
from .. import faults as X
from .common import gen_case

ID = "P06"
RULE = (
    "a run counts when at least one compute call failed through an injected fault and a later call on the same object "
    "succeeded and was compared with a new object; two runs are the same when their scheduling decisions, accesses and "
    "analysis agree"
)
ASSUME = ["what a resetting analysis has to read between a failed call and the next successful one is left open"]
SCHED_NONTRIVIAL = False
NAMES = [n for n in A.ALL if n not in ("QueryList", "AllPairs")]


def gen(rng, tier):
    c = gen_case(rng, NAMES, kmax=3, same=rng.random() < 0.3, small=rng.random() < 0.8)
    c["kind"] = c["a"]
    nf = len(c["frames"])
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.6:
            ops.append(["x", rng.randrange(nf), X.gen(rng)])
            if rng.random() < 0.7:
                ops.append(["r"])
        else:
            ops.append(["c", rng.randrange(nf)])
    if rng.random() < 0.7:
        ops.insert(0, ["c", rng.randrange(nf)])
    c["ops"] = [*ops, ["c", rng.randrange(nf)]]
    c["shared"] = rng.random() < 0.4
    return c


def share(ctx, F):
    """The same search structure for every call, the failing ones too."""
    with ctx.sim.world():
        s = F.system()
    F.system = lambda: s


def run(sc, ctx):
    ad = A.ALL[sc["a"]]
    p = sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    if sc["shared"]:
        for F in frames:
            share(ctx, F)
    with ctx.sim.world():
        o = ad.make(p)
    failed = None
    for n, op in enumerate(sc["ops"]):
        if op[0] == "x":
            F = frames[op[1]]
            with ctx.sim.world():
                r = X.faulty(ctx, ad, p, o, F, op[2])
            if r.exc is None:
                if r.fired:
                    return  # accepted after all
                continue
            failed = r
            continue
        if op[0] == "r":  # what it says is left open; it must not do harm
            if failed is not None:
                with ctx.sim.world():
                    try:
                        ad.outputs(o)
                    except Exception:  # noqa: BLE001
                        ctx.probe("nothing_to_read")
            continue
        F = frames[op[1]]
        with ctx.sim.world():
            ad.compute(o, p, F)
            got = ad.outputs(o)
        with ctx.sim.ref():
            x = ad.make(p)
            ad.compute(x, p, F)
            ref = ad.outputs(x)
        d = A.diff_outputs(got, ref, ad.tol)
        if d:
            ctx.fail(
                f"{sc['a']}.after-{failed.kind if failed else 'success'}.{d[0]}",
                f"operation {n}: last failure {failed and (failed.kind, failed.where, repr(failed.exc)[:150])}; {d[1]} of a new object",
            )
            return
        if failed:
            ctx.nontrivial = True
        failed = None
