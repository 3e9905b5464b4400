"""Every access of the extension modules is to memory that is in use, within its bounds."""

import importlib
import random

import numpy as np

import freud

from .. import adapters as A
from .. import faults as X
from .. import systems as S
from ..simctl import CallerThreads  # noqa: F401
from ..worker import Ctx

ID = "P25"
RULE = (
    "a run counts when accesses of the extension modules to blocks of the guarded heap were looked up while a scenario of "
    "another property, or one with unfit arguments, was executed; two runs are the same when their scheduling decisions, "
    "accesses and scenario agree"
)
ASSUME = [
    "blocks taken before the first run of a worker process, stacks and static data are not watched",
    "an access so far outside of its block that it meets another block in use is not seen",
]
SCHED_NONTRIVIAL = False
USES = ("p01", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p20", "p21", "p23", "p24", "p27")
KINDS = {"4": "out-of-bounds", "5": "use-after-free"}


def gen(rng, tier):
    x = rng.random()
    if x < 0.18:
        k = rng.choice(sorted(ODD))
        small = rng.random() < 0.9
        sy = S.gen_sys(rng, lo=1, hi=12 if small else 60, big=False)
        return {"kind": "odd." + k, "o": k, "sys": sy, "ops": [rng.getrandbits(32) for _ in range(rng.choice([1, 2, 4, 8]))]}
    if x < 0.5:
        n = rng.choice(sorted(A.ALL))
        p, fr = A.ALL[n].gen(rng, rng.choice([1, 2]), rng.random() < 0.5, True)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            ops.append([rng.choice(["odd", "odd", "odd", "reject", "good"]), rng.randrange(len(fr)), rng.getrandbits(32)])
        return {"kind": "odd." + n, "a": n, "p": p, "frames": fr, "ops": ops}
    m = rng.choice(USES)
    sub = module(m).gen(rng, tier)
    sc = {"kind": m, "m": m, "sub": sub}
    if "sched" in sub:
        sc["sched"] = sub["sched"]
    return sc


def module(m):
    return importlib.import_module("vsim.props." + m)


def odd(g, ad, p, F):
    """Arguments that do not go together."""
    a, k = ad.args(p, F)
    a, k = list(a), dict(k)
    slots = [(i, x) for i, x in enumerate(a)] + list(k.items())
    names = [s for s, x in slots if isinstance(x, np.ndarray) and x.ndim >= 1]

    def put(s, v):
        if isinstance(s, int):
            a[s] = v
        else:
            k[s] = v

    for _ in range(g.choice([1, 1, 2])):
        what = g.choice(["array", "array", "system", "nlist", "nlist", "index"])
        if what == "array" and names:
            s = g.choice(names)
            x = a[s] if isinstance(s, int) else k[s]
            n = len(x)
            m = g.choice([0, 1, max(n - 1, 0), n // 2, n + 1, 2 * n])
            put(s, np.concatenate([x, x, x])[:m] if n else x)
        elif what == "index" and names:
            s = g.choice(names)
            x = np.array(a[s] if isinstance(s, int) else k[s])
            if len(x):
                y = x.reshape(len(x), -1)
                y[g.randrange(len(x)), g.randrange(y.shape[1])] = g.choice([0, 3, 1000, 2**31 - 1]) if x.dtype.kind in "iu" else g.choice(
                    [np.nan, np.inf, -np.inf, 1e30, -1e30, 1e-40, 0, 37.5]
                )
            put(s, x)
        elif what == "system":
            box = F.geo.box()
            n = g.choice([1, 2, F.n // 2 + 1, F.n + 1, 2 * F.n + 3])
            P = S.make_points(dict(F.f["sys"], n=n), F.geo, n=n)
            if g.random() < 0.3:
                P[g.randrange(n)] = g.choice([np.nan, 1e30, 40.0, -40.0, np.inf])
            if isinstance(a[0], (tuple, freud.locality.NeighborQuery)):
                # far points would take very long to look for
                a[0] = (box, P) if not np.isfinite(P).all() or g.random() < 0.7 else freud.locality.AABBQuery(box, P)
        elif what == "nlist" and ad.pair:
            nq, n = g.choice([F.nQ, F.nQ + 2, max(F.nQ - 1, 1)]), g.choice([F.n, F.n + 3, max(F.n - 1, 1)])
            m = g.choice([0, 1, 5, 40])
            i = np.sort(np.array([g.randrange(nq) for _ in range(m)], np.uint32))
            j = np.array([g.randrange(n) for _ in range(m)], np.uint32)
            v = np.array([[g.uniform(-1, 1) for _ in range(3)] for _ in range(m)], np.float32).reshape(-1, 3)
            k["neighbors"] = freud.locality.NeighborList.from_arrays(nq, n, i, j, v)
    return tuple(a), k


def run(sc, ctx):
    ctx.sim.guard()
    sub = Ctx(ctx.sim, sc)
    try:
        if "m" in sc:
            try:
                module(sc["m"]).run(sc["sub"], sub)
            except Exception:  # noqa: BLE001  (what it says is that property's matter)
                ctx.probe("ended_early")
            ctx.faults.update(sub.faults)
        elif "o" in sc:
            with ctx.sim.world():
                ODD[sc["o"]](sc, ctx)
        else:
            run_odd(sc, ctx)
    finally:
        ctx.sim.disarm()
    ctx.nontrivial = ctx.sim.stats()["looked"] > 0
    for r in ctx.sim.races():
        f = r.split("|")
        if f[0] in KINDS:
            w = int(f[5])
            ctx.fail("memory." + KINDS[f[0]], f"{'write' if w < 0 else 'read'} of {abs(w)} bytes, {f[6]} bytes or so past a block|{r}")


REFUSALS = (
    ValueError, RuntimeError, TypeError, IndexError, OverflowError, AttributeError, AssertionError, MemoryError, NotImplementedError,
    StopIteration, KeyError,
)


def attempt(ctx, f):
    try:
        r = f()
        ctx.probe("accepted")
        return r
    except REFUSALS as e:
        ctx.fault("refused_" + type(e).__name__)
        return None


def numbers(g, n, hi):
    """n indices, mostly below hi."""
    return np.array([g.randrange(max(hi, 1)) if g.random() < 0.97 else g.choice([hi, hi + 1, 2**31, 2**32 - 1]) for _ in range(n)], np.uint32)


def vectors(g, n, span=2.0):
    r = np.random.default_rng(g.getrandbits(32))
    v = (r.random((n, 3)) * 2 - 1) * span
    if n and g.random() < 0.2:
        v[g.randrange(n), g.randrange(3)] = g.choice([np.nan, np.inf, 1e30, 0, 1e-40, -37.5])
    return v.astype(np.float32)


def look(ctx, nl):
    for k in ("query_point_indices", "point_indices", "weights", "distances", "vectors", "segments", "neighbor_counts"):
        float(np.nansum(getattr(nl, k)))


def odd_lists(sc, ctx):
    """Neighbor lists made, filtered, sorted and searched with fit and unfit arguments."""
    nl = None
    for seed in sc["ops"]:
        g = random.Random(seed)
        x = g.random()
        if nl is None or x < 0.3:
            m = g.choice([0, 1, 2, 7, 30])
            nq, n = g.choice([0, 1, 5, 20]), g.choice([0, 1, 5, 20])
            i = numbers(g, m, nq)
            if g.random() < 0.7:
                i.sort()
            a = [i, numbers(g, g.choice([m, m, m, m, max(m - 1, 0), m + 1]), n), vectors(g, g.choice([m, m, m, m, m + 1, m // 2]))]
            w = None if g.random() < 0.5 else np.ones(g.choice([m, m, m, m + 1, m // 2]))
            made = attempt(ctx, lambda a=a, w=w, nq=nq, n=n: freud.locality.NeighborList.from_arrays(nq, n, *a, w))
            nl = made or nl or freud.locality.NeighborList()
        elif x < 0.4:
            geo = S.Geo(sc["sys"]["box"])
            box = geo.box()
            q = vectors(g, g.choice([0, 1, 4]), 3.0)
            nl = attempt(ctx, lambda box=box, q=q, geo=geo: freud.locality.NeighborList.all_pairs((box, S.make_points(sc["sys"], geo)), q if seed & 1 else None, bool(seed & 2))) or nl
        elif x < 0.55:
            k = max(0, len(nl) + g.choice([0, 0, 0, -1, 1, 5]))
            attempt(ctx, lambda k=k, g=g: nl.filter(np.array([g.random() < 0.7 for _ in range(k)], bool)))
        elif x < 0.65:
            attempt(ctx, lambda g=g: nl.filter_r(g.choice([1.0, 2.0, 0.0, -1.0, np.nan, np.inf]), g.choice([0, 0, 0.5, 3.0, np.nan])))
        elif x < 0.8:
            attempt(ctx, lambda g=g: nl.sort(g.random() < 0.5))
        elif x < 0.9:
            attempt(ctx, lambda g=g: nl.find_first_index(g.choice([0, 1, nl.num_query_points - 1, nl.num_query_points, nl.num_query_points + 1, 10**6, 2**31, -1])))
        else:
            nl = nl.copy()
        look(ctx, nl)


def odd_query(sc, ctx):
    """Searches for unusual points with unusual options."""
    geo = S.Geo(sc["sys"]["box"])
    P = S.make_points(sc["sys"], geo)
    g = random.Random(sc["ops"][0] ^ 1)
    if g.random() < 0.5:
        for _ in range(g.choice([1, 2])):
            P[g.randrange(len(P)), g.randrange(3)] = g.choice([np.nan, np.inf, -np.inf, 1e30, 25.0, -25.0, 0.0])
    if g.random() < 0.1:
        P = P[:0]
    box = geo.box()
    half = geo.half() if hasattr(geo, "half") else 0.5 * min(float(x) for x in sc["sys"]["box"]["L"][: 2 if sc["sys"]["box"]["d2"] else 3])
    fin = bool(np.isfinite(P).all() and (np.abs(P) < 1e3).all())

    def make():
        t = g.choice(["aabb", "aabb", "link", "link", "cell", "raw"])
        if t == "raw" or not fin and t != "link":
            return freud.locality._RawPoints(box, P)
        if t == "aabb":
            return freud.locality.AABBQuery(box, P)
        if t == "cell":
            return freud.locality.CellQuery(box, P)
        return freud.locality.LinkCell(box, P, g.choice([0, half * 0.3, half * 0.7, half, half * 0.99]))

    o = attempt(ctx, make)
    if o is None:
        return
    for seed in sc["ops"]:
        g = random.Random(seed)
        q = vectors(g, g.choice([0, 1, 3, 9]), half * g.choice([0.5, 1.0, 1.9]))
        if g.random() < 0.3:
            q = P
        if not (np.isfinite(q).all() and (np.abs(q) < 1e3).all()) and not g.random() < 0.15:
            q = np.nan_to_num(np.clip(q, -30, 30), nan=0.0, posinf=1.0, neginf=-1.0)
        args = {}
        if g.random() < 0.6:
            args["r_max"] = g.choice([half * 0.3, half * 0.8, half * 0.99, half, half * 1.3, 0.0, -1.0, 1e-6])
        if g.random() < 0.5 or not args:
            args["num_neighbors"] = g.choice([0, 1, 2, 5, len(P) - 1, len(P), len(P) + 3])
        if g.random() < 0.2:
            args["mode"] = g.choice(["ball", "nearest", "nearest", "none", "other"])
        if g.random() < 0.2:
            args["r_min"] = g.choice([0, 0.1, half, half * 2, -1.0])
        if g.random() < 0.2:
            args["exclude_ii"] = g.random() < 0.7
        if g.random() < 0.2:
            args["r_guess"] = g.choice([half * 0.1, half, half * 0.01, half * 3])
        if g.random() < 0.1:
            args["scale"] = g.choice([1.1, 2.0, 5.0])
        r = attempt(ctx, lambda q=q, args=args: o.query(q, args))
        if r is None:
            continue
        if g.random() < 0.6:
            nl = attempt(ctx, r.toNeighborList)
            if nl is not None:
                look(ctx, nl)
        else:
            attempt(ctx, lambda r=r: sum(b[2] for b in r))


def odd_vectors(sc, ctx):
    """Functions of two or more arrays that may not go together."""
    geo = S.Geo(sc["sys"]["box"])
    box = geo.box()
    env = freud.environment
    for seed in sc["ops"]:
        g = random.Random(seed)
        n = g.choice([0, 1, 2, 5, 9])
        m = g.choice([n, n, n, max(n - 1, 0), n + 1, 2 * n])
        a, b = vectors(g, n, 3.0), vectors(g, m, 3.0)
        im = np.array([[g.randrange(-3, 4) for _ in range(3)] for _ in range(m)], np.int32).reshape(-1, 3)
        out = np.zeros((m, 3), np.float32)
        f = g.choice(
            [
                lambda: box.wrap(a, out=out),
                lambda: box.unwrap(a, im),
                lambda: box.unwrap(a, im, out=out),
                lambda: box.make_fractional(a, out=out),
                lambda: box.make_absolute(a, out=out),
                lambda: box.get_images(a),
                lambda: box.center_of_mass(a, np.ones(m)),
                lambda: box.center(a, np.ones(m)),
                lambda: box.compute_distances(a, b),
                lambda: box.compute_all_distances(a, b),
                lambda: box.contains(a),
                lambda: env._minimize_RMSD(box, a, b, bool(seed & 1)) if n < 5 else None,
                lambda: env._is_similar_motif(box, a, b, 0.5, bool(seed & 1)) if n < 5 else None,
                lambda: env.AngularSeparationGlobal().compute(quat(g, n), quat(g, m), quat(g, g.choice([0, 1, 3]))).angles,
                lambda: freud.order.RotationalAutocorrelation(g.choice([2, 4])).compute(quat(g, n), quat(g, m)).particle_order,
                lambda: freud.order.Nematic(np.array([1.0, 0, 0])).compute(quat(g, n)).order,
                lambda: freud.order.Cubatic(3.0, 0.01, 0.9, 2, 1).compute(quat(g, n)).order if n else None,
                lambda: freud.msd.MSD(box if seed & 1 else None, g.choice(["window", "direct"])).compute(
                    vectors(g, 3 * n).reshape(3, n, 3), im if seed & 2 else None
                ).msd,
                lambda: freud.locality.PeriodicBuffer().compute((box, a), g.choice([0.0, 0.5, 3.0, -1.0, [0.5, 1, 2]]), bool(seed & 2)).buffer_points,
                lambda: freud.data.UnitCell(box, a).generate_system(g.choice([1, 2, (2, 1, 3)]), seed=1),
            ]
        )
        attempt(ctx, f)


def quat(g, n):
    q = S.quats(g.getrandbits(30), n).astype(np.float32) if n else np.zeros((0, 4), np.float32)
    return q


ODD = {"lists": odd_lists, "query": odd_query, "vectors": odd_vectors}


def run_odd(sc, ctx):
    ad = A.ALL[sc["a"]]
    p = sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    with ctx.sim.world():
        o = ad.make(p)
        for op in sc["ops"]:
            F = frames[op[1]]
            g = random.Random(op[2])
            try:
                if op[0] == "good":
                    ad.compute(o, p, F)
                else:
                    if op[0] == "odd":
                        a, k = odd(g, ad, p, F)
                    else:
                        a, k, _ = X.rejected(ad, p, F, op[2] & 0xFFFFFFFF, o)
                    o.compute(*a, **k)
                ctx.probe("accepted")
            except REFUSALS as e:
                ctx.fault("refused_" + type(e).__name__)
            try:
                ad.outputs(o)
            except Exception:  # noqa: BLE001
                ctx.probe("nothing_to_read")
