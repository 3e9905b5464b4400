"""Schedule and thread-count independence: under any schedule the result is that of one worker."""

from .. import adapters as A
from .common import feed, frames_of, gen_case

ID = "P01"
RULE = (
    "a run counts when at least one parallel region had two or more workers and the scheduler switched between them; "
    "two runs are the same when their scheduling decisions, accesses and scenario kind agree"
)
ASSUME = ["floating-point sums whose grouping follows the split into chunks are compared with a stated relative tolerance"]
NAMES = A.PARALLEL


def gen(rng, tier):
    c = gen_case(rng, NAMES)
    c["kind"] = c["a"]
    c["again"] = rng.random() < 0.3
    return c


def run(sc, ctx):
    ad, p, frames = frames_of(sc)
    with ctx.sim.ref():
        ref = [o for _, o in feed(ad, p, ad.make(p), frames)]
    for rep in range(2 if sc["again"] else 1):
        with ctx.sim.world():
            got = [o for _, o in feed(ad, p, ad.make(p), frames)]
        for k, (g, r) in enumerate(zip(got, ref)):
            d = A.diff_outputs(g, r, ad.tol)
            if d:
                ctx.fail(f"{sc['a']}.{d[0]}", f"frame {k}: under this schedule differs from the one-worker result: {d[1]}")
                return
