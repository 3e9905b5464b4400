"""No data races: unordered conflicting accesses of two workers of one parallel region, and no use of freed memory."""

from .. import adapters as A
from .. import boxops as B
from ..worker import gen_sched
from .common import feed, frames_of, gen_case

ID = "P02"
RULE = (
    "a run counts when a parallel region had two or more workers, the scheduler switched between them and every load and "
    "store of the extension modules was checked against the happens-before order of the run; two runs are the same when "
    "their scheduling decisions and accesses agree"
)
ASSUME = [
    "a store of the value already present is not counted as a conflicting access (idempotent marking of grid cells)",
    "the last four accesses per eight bytes are kept, so a race whose first access was overwritten in the history may be "
    "missed in one run and found under another seed",
]
RACES = True
KINDS = {"1": "write-write", "2": "read-write", "3": "use-after-free"}


def race_sig(r):
    f = r.split("|")
    return "race." + KINDS.get(f[0], f[0])


def gen(rng, tier):
    if rng.random() < 0.12:
        c = {"box": B.gen_op(rng, hi=200), "kind": "box"}
    else:
        c = gen_case(rng, A.PARALLEL, kmax=2, small=rng.random() < 0.5)
        c["kind"] = c["a"]
    c["sched"] = gen_sched(rng, detect=1)
    return c


def run(sc, ctx):
    if "box" in sc:
        op = B.Op(sc["box"])
        with ctx.sim.world():
            op.real()
        return
    ad, p, frames = frames_of(sc)
    with ctx.sim.world():
        for _ in feed(ad, p, ad.make(p), frames):
            pass
