"""Objects and calling threads leave each other alone."""

import random

import numpy as np

import freud

from .. import adapters as A
from .. import faults as X
from .. import query as Q
from .. import systems as S
from ..simctl import CallerThreads
from ..systems import Frame

ID = "P15"
RULE = (
    "a run counts when at least two simulated callers ran and control passed between them inside freud at least once; two "
    "runs are the same when callers, switches and scheduling decisions agree"
)
ASSUME = [
    "a call into the extension modules holds the interpreter's lock from beginning to end, so callers alternate at lines "
    "of freud's Python code",
    "no two callers use the same analysis object, or change a list that another one uses",
]
SCHED_NONTRIVIAL = False
NAMES = [n for n in A.ALL if n not in ("MSD",)]


def gen_ops(rng, nf, accum):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        x = rng.random()
        if x < 0.55:
            ops.append(["c", rng.randrange(nf), rng.random() < 0.4])
        elif x < 0.8:
            ops.append(["r"])
        else:
            ops.append(["x", rng.randrange(nf), X.gen(rng, ("reject",))])
    if ops[0][0] != "c":
        ops.insert(0, ["c", rng.randrange(nf), True])
    ops[0][2:] = [True]
    return [*ops, ["c", rng.randrange(nf), True], ["r"]]


def gen(rng, tier):
    d2 = rng.random() < 0.4
    cubic = not d2 and rng.random() < 0.2
    base = S.gen_sys(rng, lo=2, hi=25, big=False, d2=d2, cubic=cubic)
    names = [n for n in NAMES if A.ALL[n].takes(base["box"])]
    nq = S.gen_nq(rng, cell=False)
    callers = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        x = rng.random()
        if callers and x < 0.3:
            k = rng.randrange(len(callers))
            c = dict(callers[k])  # the same frames and lists, an object of its own
            c.setdefault("like", k)
            if c["t"] == "case":
                c["ops"] = gen_ops(rng, len(c["frames"]), A.ALL[c["a"]].accum)
        elif x < 0.8:
            n = rng.choice(names)
            old = [c["a"] for c in callers if c["t"] == "case"]
            if old and rng.random() < 0.4:
                n = rng.choice(old)  # another object of the same class
            ad = A.ALL[n]
            p, fr = ad.gen(rng, rng.choice([1, 1, 2]), True, True, base)
            for f in fr:
                if n not in ("QueryList", "AllPairs"):
                    f["nq"] = nq
            c = {"t": "case", "a": n, "p": p, "frames": fr, "ops": gen_ops(rng, len(fr), ad.accum)}
        elif x < 0.88:
            c = {"t": "iter", "q": Q.gen_query(rng, False, 10)}
        elif x < 0.94:
            c = {"t": "box", "s": rng.getrandbits(32)}
        else:
            c = {"t": "list", "s": rng.getrandbits(32), "f": round(rng.uniform(0.2, 0.95), 3)}
        callers.append(c)
    return {
        "base": base, "nq": nq, "callers": callers, "order": rng.getrandbits(32), "burst": rng.choice([0, 0, 4, 30]),
        "share": rng.random() < 0.8, "kind": "+".join(sorted({c.get("a", c["t"]) for c in callers})),
    }


class World:
    """What the callers share, or have for themselves."""

    def __init__(self, sc):
        self.sc = sc
        self.F = Frame({"sys": sc["base"], "nq": sc["nq"], "no_pairs": True})
        self.box = self.F.geo.box()
        self.sys = self.F.system()
        s = self.sys
        self.nq = S.as_nq(s, freud.locality.AABBQuery)
        self.frames = {}
        self.nl = {}

    def frames_of(self, k):
        c = self.sc["callers"][k]
        key = c.get("like", k)
        if key not in self.frames:
            ad = A.ALL[c["a"]]
            fr = [ad.frame(c["p"], f) for f in c["frames"]]
            for F in fr:
                if c["a"] in ("QueryList", "AllPairs"):
                    s = F.system()
                    F.system = lambda s=s: s
                else:
                    F.system = lambda: self.sys
            self.frames[key] = fr
        return self.frames[key]

    def list(self, f):
        if f not in self.nl:
            q = {"r_max": f * self.F.geo.rcut * 0.99, "exclude_ii": True}
            self.nl[f] = self.nq.query(self.F.pts, q).toNeighborList()
        return self.nl[f]


def caller(w, k, ctx, since=None):
    """A function that does what caller k does and returns what it saw.
    since: gets, for each reading, the frames it is to be about."""
    c = w.sc["callers"][k]
    out = []
    since = [] if since is None else since
    if c["t"] == "case":
        ad, p, fr = A.ALL[c["a"]], c["p"], w.frames_of(k)

        def f():
            o = ad.make(p)
            ok = False
            cur = []
            for op in c["ops"]:
                if op[0] == "c":
                    reset = not ad.accum or op[2] or not ok
                    ad.compute(o, p, fr[op[1]], **({"reset": reset} if ad.accum else {}))
                    cur = ([] if reset else cur) + [fr[op[1]]]
                    ok = True
                elif op[0] == "r":
                    if ok:
                        out.append(ad.outputs(o))
                        since.append(cur)
                else:
                    F = fr[op[1]]
                    r = X.faulty(ctx, ad, p, o, F, op[2], **({"reset": False} if ad.accum else {}))
                    if r.exc is None:
                        return out  # accepted: what follows is its meaning
                    if not ad.accum:
                        ok = False
            return out

        return f
    if c["t"] == "iter":
        q = Q.Query(w.F, c["q"])

        def f():
            b = list(w.nq.query(q.P.copy(), dict(q.args)))
            out.append({"bonds": np.array(b, float).reshape(-1, 3)})
            return out

        return f
    if c["t"] == "box":

        def f():
            g = np.random.default_rng(c["s"])
            b = w.box
            v = g.normal(size=(int(g.integers(1, 40)), 3)).astype(np.float32) * 8
            if b.is2D:
                v[:, 2] = 0
            im = b.get_images(v)
            u = b.wrap(v)
            out.append({
                "wrap": u, "images": im, "unwrap": b.unwrap(u, im), "frac": b.make_fractional(u), "abs": b.make_absolute(b.make_fractional(u)),
                "d": b.compute_all_distances(u[:5], u), "com": b.center_of_mass(u), "con": b.contains(v),
            })
            return out

        return f

    def f():
        g = np.random.default_rng(c["s"])
        l = w.list(c["f"]).copy()
        l.filter(g.random(len(l)) < 0.7)
        l.sort(by_distance=bool(g.integers(2)))
        out.append(A.nl_out(l, "copy"))
        out.append({"n": np.array(l.neighbor_counts), "s": np.array(l.segments)})
        return out

    return f


def run(sc, ctx):
    n = len(sc["callers"])
    with ctx.sim.ref():
        ref = [caller(World(sc), k, ctx)() for k in range(n)]
    ctx.faults.clear()
    with ctx.sim.world():
        w = World(sc)
        for c in sc["callers"]:
            if c["t"] == "list":
                w.list(c["f"])
        since = [[] for _ in range(n)]
        if sc["share"]:
            fns = [caller(w, k, ctx, since[k]) for k in range(n)]
        else:
            fns = [caller(World(sc), k, ctx, since[k]) for k in range(n)]
        ct = CallerThreads(random.Random(sc["order"]), burst=sc["burst"])
        res, exc = ct.run(fns)
    for k in range(n):
        c = sc["callers"][k]
        name = c.get("a", c["t"])
        if exc[k] is not None:
            ctx.fail(f"{name}.exception", f"caller {k}: {exc[k]!r} which did not come when it ran alone")
            return
        tol = A.ALL[c["a"]].tol if c["t"] == "case" else {}
        if len(res[k]) != len(ref[k]):
            ctx.fail(f"{name}.accepted", f"caller {k}: a refused call was accepted, or the other way round")
            return
        for m, (x, y) in enumerate(zip(res[k], ref[k])):
            d = A.diff_outputs(x, y, tol)
            if d:
                ctx.fail(f"{name}.{d[0]}", f"caller {k}, reading {m}: {d[1]} of the same caller alone")
                return
        # what all callers share would spoil the lone one just as well: the definition settles it
        # (cluster properties: the model is about points of its own, which all callers' points replace)
        for m, (x, fr) in enumerate(zip(res[k], since[k] if name != "ClusterProperties" else [])):
            d = A.check_model(A.ALL[name], c["p"], fr, x)
            if d:
                ctx.fail(f"{name}.{d[0]}.definition", f"caller {k}, reading {m}: {d[1]}")
                return
    ctx.probe("caller_switches", ct.switches)
    ctx.nontrivial = ct.switches > 1
