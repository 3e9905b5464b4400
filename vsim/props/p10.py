"""What was read from an analysis or a list keeps its values and stays valid."""

import gc
import weakref

import numpy as np

import freud

from .. import adapters as A
from .. import faults as X
from .common import gen_case

ID = "P10"
RULE = (
    "a run counts when arrays read from an object were compared with copies made when they were read after at least one "
    "later computation, failure, list operation or disposal; two runs are the same when their operations, scheduling "
    "decisions and analysis agree"
)
ASSUME = ["blocks given back to the allocator are overwritten by the simulator, so a stale reader shows"]
SCHED_NONTRIVIAL = False
NL = freud.locality.NeighborList
SKIP = ("default_query_args",)  # an option; not implemented by all
LIST = ("query_point_indices", "point_indices", "weights", "distances", "vectors", "segments", "neighbor_counts")


def gen(rng, tier):
    c = gen_case(rng, list(A.ALL), kmax=3, same=rng.random() < 0.6, small=rng.random() < 0.8)
    c["kind"] = c["a"]
    nf = len(c["frames"])
    ops = [["c", rng.randrange(nf)], ["r"]]
    for _ in range(rng.choice([1, 2, 3, 5, 7])):
        x = rng.random()
        if x < 0.4:
            ops.append(["c", rng.randrange(nf)])
        elif x < 0.6:
            ops.append(["r"])
        elif x < 0.75:
            ops.append(["x", rng.randrange(nf), X.gen(rng)])
        elif x < 0.9:
            ops.append(["l", rng.randrange(3), rng.randrange(1 << 16), rng.getrandbits(32)])
        else:
            ops.append(["d"])
    c["ops"] = ops
    c["shared"] = rng.random() < 0.4
    return c


def properties(o):
    return sorted(
        n for n in dir(type(o)) if not n.startswith("_") and isinstance(getattr(type(o), n, None), property)
    )


def arrays(v, name, out, lists):
    if isinstance(v, np.ndarray):
        out.append((name, v))
    elif isinstance(v, NL):
        lists.append((name, v))
        out.extend((f"{name}.{k}", getattr(v, k)) for k in LIST)
        out.append((f"{name}[:]", v[:]))
    elif isinstance(v, freud.box.Box):
        out.append((name, A.box_arr(v)))
    elif isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            arrays(x, f"{name}[{k}]", out, lists)


def everything(o, lists):
    """All arrays the object has to show, as it hands them out."""
    out = []
    names = [n for n in vars(o) if not n.startswith("_")] if not type(o).__module__.startswith("freud") else properties(o)
    for n in names:
        if n not in SKIP:
            arrays(getattr(o, n), n, out, lists)
    return out


def dump(a):
    return (a.shape, a.dtype.str, a.tobytes() if a.dtype != object else repr(a.tolist()))


class Holds:
    def __init__(self):
        self.a = []  # (name, array, what it was)
        self.l = []  # (name, list, what it was)

    def take(self, o):
        lists = []
        for n, x in everything(o, lists):
            self.a.append((n, x, dump(x)))
        for n, x in lists:
            self.l.append((n, x, self.state(x)))

    @staticmethod
    def state(nl):
        return [dump(getattr(nl, k)) for k in LIST] + [nl.num_query_points, nl.num_points]

    def check(self):
        for n, x, d in self.a:
            if dump(x) != d:
                return n, f"array {n} read earlier has changed: shape {x.shape}, now {np.asarray(x).reshape(-1)[:8]}"
        for n, x, d in self.l:
            if self.state(x) != d:
                return n, f"neighbor list {n} read earlier has changed"
        return None


def on_list(h, op, g):
    n, nl, _ = h.l[op[2] % len(h.l)]
    if op[1] == 0:
        nl.filter(g.random(len(nl)) < 0.6)
    elif op[1] == 1:
        nl.filter_r(float(g.random() * 4 + 0.01))
    else:
        h.l[int(g.integers(len(h.l)))][1].copy(nl)
    h.l = []  # lists may be shared; their arrays that were read may not change
    return ("filter", "filter_r", "copy_to")[op[1]]


def run(sc, ctx):
    ad = A.ALL[sc["a"]]
    p = sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    if sc["shared"]:
        from .p06 import share

        for F in frames:
            share(ctx, F)
    with ctx.sim.world():
        o = ad.make(p)
    h = Holds()
    done = False
    later = 0
    last = "nothing"
    for n, op in enumerate([*sc["ops"], ["d"]]):
        with ctx.sim.world():
            if op[0] == "c":
                ad.compute(o, p, frames[op[1]])
                done = True
                last = "compute"
            elif op[0] == "x":
                r = X.faulty(ctx, ad, p, o, frames[op[1]], op[2])
                if r.exc is None:
                    done = True
                last = "failed-compute"
                done = done and r.exc is None
                r = None  # its traceback keeps the object
            elif op[0] == "r":
                if done:
                    h.take(o)
                last = "read"
            elif op[0] == "l":
                if not h.l:
                    continue
                last = on_list(h, op, np.random.default_rng(op[3]))
            else:
                ref = weakref.ref(o) if hasattr(o, "__weakref__") else None
                o = None
                gc.collect()
                if ref is not None and ref() is not None:
                    ctx.probe("not_disposed")
                o = ad.make(p)
                done = False
                last = "disposal"
        if h.a and op[0] != "r":
            later += 1
        bad = h.check()
        if bad:
            ctx.fail(f"{sc['a']}.{bad[0].split('[')[0]}.after-{last}", f"operation {n} {op}: {bad[1]}")
            return
    ctx.nontrivial = later >= 1 and bool(h.a)
