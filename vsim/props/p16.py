"""Inputs are taken when given, and never modified."""

import random

import numpy as np

import freud

from .. import adapters as A
from .. import forms
from .. import query as Q
from .. import systems as S
from ..simctl import LineFault
from ..systems import Frame

ID = "P16"
RULE = (
    "a run counts when the caller's data was changed after it had been given and results that depend on it were compared "
    "afterwards; two runs are the same when their scheduling decisions, accesses and scenario agree"
)
ASSUME = [
    "a list of neighbors that a class documents to hand out again (filters, angular separation, bond projection) is the "
    "caller's own; so are the arrays read from an object",
]
SCHED_NONTRIVIAL = False
NAMES = [n for n in A.ALL]
OWN_LIST = ("FilterSANN", "FilterRAD", "AngularSeparationNeighbor", "LocalBondProjection", "LocalDescriptors", "SolidLiquid")


# ------------------------------------------------------------------ the caller's things
def dress(g, x, lists=False, swapped=True):
    """x as a caller may happen to hold it, and the memory behind it."""
    x = np.array(x)
    k = g.choice(["plain", "plain", "wide", "strided", "fortran", "readonly", "swapped", "reversed"] + ["list"] * lists)
    if k == "swapped" and not swapped:
        k = "strided"
    if x.ndim == 0:
        return x, x
    if k == "list":
        l = x.tolist()
        return l, l
    if k == "wide":
        t = {"f": np.float64, "u": np.int64, "i": np.int64, "c": np.complex128}.get(x.dtype.kind)
        y = x.astype(t) if t else x.copy()
        return y, y
    if k == "strided":
        b = np.zeros((*x.shape, 2), x.dtype)
        b[..., 0] = x
        return b[..., 0], b
    if k == "fortran":
        y = np.asfortranarray(x)
        y = y if y is not x else x.copy()
        return y, y
    if k == "readonly":
        b = x.copy()
        v = b[:]
        v.flags.writeable = False
        return v, b
    if k == "swapped":
        y = x.astype(x.dtype.newbyteorder(">"))
        return y, y
    if k == "reversed":
        b = x[::-1].copy()
        return b[::-1], b
    y = x.copy()
    return y, y


def look(o):
    """What a thing says, to be compared later."""
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, o.strides, bool(o.flags.writeable), np.ascontiguousarray(o).tobytes())
    if isinstance(o, freud.box.Box):
        return tuple(float(x) for x in A.box_arr(o)) + tuple(bool(x) for x in o.periodic)
    if isinstance(o, freud.locality.NeighborList):
        return {k: v.tobytes() for k, v in A.nl_out(o, "").items()}
    if isinstance(o, dict):
        return {k: look(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [look(x) for x in o]
    if forms.ours(o):
        return {k: look(v) for k, v in vars(o).items()}
    return repr(o)


def scribble(o):
    """The caller uses its memory for something else."""
    if isinstance(o, np.ndarray):
        if o.dtype.kind in "fc":
            o[...] = -3 * o[::-1] + 1.25
        elif o.dtype.kind == "b":
            o[...] = ~o
        elif o.dtype.kind in "iu":
            o[...] = o[::-1] // 2
    elif isinstance(o, freud.box.Box):
        o.Lx = o.Lx * 0.37
        o.Ly = o.Ly * 1.9
        o.xy = 0.45
        o.periodic = False
    elif isinstance(o, freud.locality.NeighborList):
        o.filter(np.arange(len(o)) % 3 == 1)
    elif isinstance(o, dict):
        o.clear()
        o["bogus"] = 1
    elif forms.ours(o):
        for k, x in vars(o).items():
            if isinstance(x, (int, float)):
                setattr(o, k, 3)
            else:
                scribble(x)
    elif isinstance(o, tuple):
        for x in o:
            scribble(x)
    elif isinstance(o, list):
        for i, x in enumerate(o):
            if isinstance(x, (list, tuple, dict, np.ndarray)) or forms.ours(x):
                scribble(x)
            elif isinstance(x, (int, float, complex)):
                o[i] = x * 0 + 2


class Things:
    def __init__(self, seed):
        self.g = random.Random(seed)
        self.kept = []  # (name, what was passed, what is behind it, what it said)

    def keep(self, name, o, behind=None):
        self.kept.append((name, o, o if behind is None else behind, look(o)))
        return o

    def array(self, name, x, lists=False, swapped=True):
        o, b = dress(self.g, x, lists, swapped)
        return self.keep(name, o, b)

    def box(self, geo, objects=False):
        """The box in one of the forms that are accepted."""
        k = "object" if objects else self.g.choice(["object", "object", "object", "matrix", "list", "dict"])
        b = geo.box()
        if k == "matrix":
            return self.array("box", b.to_matrix())
        if k == "list":
            return self.keep("box", [b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz])
        if k == "dict":
            return self.keep("box", b.to_dict())
        return self.keep("box", b)

    def changed(self):
        for name, o, _, said in self.kept:
            if look(o) != said:
                return name
        return None

    def scribble(self, but=()):
        done = set()
        for name, _, b, _ in self.kept:
            if name not in but and id(b) not in done:
                done.add(id(b))
                scribble(b)


def system(t, F):
    """The frame's system, made of the caller's things."""
    nq = F.f.get("nq") or {"t": "tuple"}
    k = nq["t"]
    if k == "form":
        return t.keep("system", forms.make(nq["form"], F.geo, F.pts.copy()))
    box = t.box(F.geo)
    pts = t.array("points", F.pts, k in ("tuple", "raw"))
    L = freud.locality
    if k == "tuple":
        return (box, pts)
    if k == "raw":
        return L.NeighborQuery.from_system((box, pts))
    if k == "aabb":
        return L.AABBQuery(box, pts)
    if k == "cell":
        return L.CellQuery(box, pts)
    # the width only depends on the frame: as a frame makes it itself
    w = F.system().cell_width
    return L.LinkCell(box, pts, cell_width=w)


def given(ad, p, F, t):
    """The arguments of compute, made of the caller's things."""
    orig = F.system
    F.system = lambda: ("SYSTEM",)
    try:
        a, k = ad.args(p, F)
    finally:
        F.system = orig

    def one(name, x):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "SYSTEM":
            return system(t, F)
        if isinstance(x, np.ndarray):
            return t.array(name, x, swapped=ad.name != "RotationalAutocorrelation")
        if isinstance(x, freud.box.Box):
            return t.keep("box", x)
        if isinstance(x, (list, dict, freud.locality.NeighborList)):
            return t.keep(name, x)
        return x

    return tuple(one(f"argument {i}", x) for i, x in enumerate(a)), {n: one(n, x) for n, x in k.items()}


# ------------------------------------------------------------------ scenarios
def gen(rng, tier):
    x = rng.random()
    sc = {"s": rng.getrandbits(32)}
    if x < 0.62:
        n = rng.choice(NAMES)
        p, fr = A.ALL[n].gen(rng, rng.choice([1, 1, 2, 3]), rng.random() < 0.6, True)
        sc.update(
            kind=n, a=n, p=p, frames=fr,
            ops=[
                [rng.randrange(len(fr)), rng.random() < 0.7, rng.choice([None] * 5 + ["bad", "interrupt", "alloc"]), round(0.9999 * rng.random(), 4)]
                for _ in range(rng.choice([1, 1, 2, 3]))
            ],
        )
    elif x < 0.86:
        f = Q.gen_system(rng, hi=40)
        cell = f["nq"]["t"] == "cell"
        sc.update(
            kind="query." + f["nq"]["t"], frame=f,
            calls=[[Q.gen_query(rng, cell, 20), rng.random() < 0.7, rng.choice(["list", "nlist", "iter"])] for _ in range(rng.choice([1, 2, 3]))],
        )
    elif x < 0.92:
        sc.update(kind="box", box=S.gen_box(rng), n=rng.randint(1, 30))
    elif x < 0.96:
        sc.update(kind="nlist", frame={"sys": S.gen_sys(rng, hi=30), "no_pairs": True}, n=rng.randint(1, 60))
    else:
        sc.update(kind="unitcell", box=S.gen_box(rng), n=rng.randint(1, 5))
    return sc


def run(sc, ctx):
    k = sc["kind"].split(".")[0]
    if "a" in sc:
        case(sc, ctx)
    else:
        {"query": query, "box": box, "nlist": nlist, "unitcell": unitcell}[k](sc, ctx)


def make(ad, p, t):
    if ad.name == "MSD":
        b = t.box(S.Geo(p["box"])) if p["box"] else None
        return freud.msd.MSD(b, mode=p["mode"])
    return ad.make(p)


def case(sc, ctx):
    ad, p = A.ALL[sc["a"]], sc["p"]
    g = random.Random(sc["s"])
    mk = g.getrandbits(32)
    with ctx.sim.world():
        t0 = Things(mk)
        o = make(ad, p, t0)
        if g.random() < 0.7:
            t0.scribble()
    with ctx.sim.ref():
        x = make(ad, p, Things(mk))
    but = ("neighbors",) if ad.name in OWN_LIST else ()
    n = 0
    for k, (fi, scr, fault, u) in enumerate(sc["ops"]):
        s = g.getrandbits(32)
        kw = {"reset": n == 0} if ad.accum else {}
        F = ad.frame(p, sc["frames"][fi])
        with ctx.sim.world():
            t = Things(s)
            a, kk = given(ad, p, F, t)
            kk.update(kw)
            failed = None
            if fault == "bad" and ad.pair and "neighbors" in kk:
                kk["neighbors"] = t.keep("neighbors", {"mode": "bogus", "r_max": 1.0})
            if fault == "bad" and ad.pair and sc["a"] == "QueryList":
                a = (*a[:2], t.keep("neighbors", {"mode": "bogus", "r_max": 1.0}))
            try:
                if fault == "interrupt":
                    with LineFault(1 + int(u * 30), KeyboardInterrupt) as lf:
                        o.compute(*a, **kk)
                elif fault == "alloc":
                    ctx.sim.arm(1 + int(u * 40), 1, 0)
                    try:
                        o.compute(*a, **kk)
                    finally:
                        ctx.sim.disarm()
                else:
                    o.compute(*a, **kk)
            except (KeyboardInterrupt, MemoryError) as e:
                if fault not in ("interrupt", "alloc"):
                    raise
                failed = e
            except Exception as e:  # noqa: BLE001
                if fault != "bad":
                    raise
                failed = e
            c = t.changed()
        if c:
            ctx.fail(f"{sc['a']}.modified", f"compute {k}{' (failed)' if failed else ''} changed the caller's {c}")
            return
        if failed:
            ctx.fault(fault)
            return  # what is left then is the subject of other properties
        if scr:
            t.scribble(but)
        n += 1
        with ctx.sim.ref():
            F = ad.frame(p, sc["frames"][fi])
            t2 = Things(s)
            a, kk = given(ad, p, F, t2)
            kk.update(kw)
            x.compute(*a, **kk)
            ref = ad.outputs(x)
        with ctx.sim.world():
            got = ad.outputs(o)
        d = A.diff_outputs(got, ref, ad.tol)
        if d:
            ctx.fail(f"{sc['a']}.{d[0]}", f"compute {k}, then the caller {'changed' if scr else 'kept'} its data: {d[1]}")
            return
        ctx.nontrivial |= scr
        if not ad.accum:
            n = 0
    # and the lone object has not changed its things, either


def query(sc, ctx):
    F = Frame(sc["frame"])
    g = random.Random(sc["s"])
    with ctx.sim.world():
        t = Things(g.getrandbits(32))
        nq = system(t, F)
        nq = S.as_nq(nq)
        c = t.changed()
        if c:
            ctx.fail(f"{sc['kind']}.modified", f"the constructor changed the caller's {c}")
            return
        t.scribble()
        held = nq.box
        for k, (qd, scr, how) in enumerate(sc["calls"]):
            q = Q.Query(F, dict(qd, pts="arr"))
            t = Things(g.getrandbits(32))
            P = t.array("query points", q.P, len(q.P) > 0)
            a = t.keep("query arguments", dict(q.args))
            res = nq.query(P, a)
            it = None
            first = []
            if how == "iter":
                it = iter(res)
                for b in it:
                    first.append(b)
                    break
            if t.changed():
                ctx.fail(f"{sc['kind']}.modified", f"query {k} changed the caller's {t.changed()}")
                return
            if scr:
                t.scribble()
                scribble(held)
                held = nq.box
            said = [x[3] for x in t.kept]
            t.kept = [(x[0], x[1], x[2], look(x[1])) for x in t.kept]
            if how == "nlist":
                r = q.check_nlist(res.toNeighborList())
            else:
                b = np.array(first + list(it if it is not None else res), float).reshape(-1, 3)
                r = q.check(b[:, 0], b[:, 1], b[:, 2])
            if r:
                ctx.fail(f"{sc['kind']}.{r[0]}", f"query {k}, then the caller {'changed' if scr else 'kept'} its data: {r[1]}")
                return
            if t.changed():
                ctx.fail(f"{sc['kind']}.modified", f"taking the results of query {k} changed the caller's {t.changed()}")
                return
            if not np.array_equal(nq.points, F.pts):
                ctx.fail(f"{sc['kind']}.points", f"after query {k} the structure's points are not those it was given")
                return
            ctx.nontrivial = True


def box(sc, ctx):
    geo = S.Geo(sc["box"])
    g = random.Random(sc["s"])
    r = np.random.default_rng(sc["s"])
    with ctx.sim.world():
        for form in ("matrix", "list", "dict", "object", "array"):
            t = Things(g.getrandbits(32))
            b0 = geo.box()
            src = {
                "matrix": lambda: t.array("matrix", b0.to_matrix()), "list": lambda: t.keep("list", [b0.Lx, b0.Ly, b0.Lz, b0.xy, b0.xz, b0.yz]),
                "dict": lambda: t.keep("dict", b0.to_dict()), "object": lambda: t.keep("object", b0),
                "array": lambda: t.array("array", np.array([b0.Lx, b0.Ly, b0.Lz, b0.xy, b0.xz, b0.yz])),
            }[form]()
            b = freud.box.Box.from_box(src)
            want = look(b)
            if t.changed():
                ctx.fail("box.modified", f"from_box changed the caller's {t.changed()}")
                return
            t.scribble()
            # what the box hands out is the caller's to change
            m = b.to_matrix()
            m *= 3
            d = b.to_dict()
            d.clear()
            if isinstance(b.L, np.ndarray):
                b.L[:] = 1
            v = b.v1 if hasattr(b, "v1") else None
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[:] = 7
            pb = b.periodic
            if isinstance(pb, (list, np.ndarray)):
                pb[:] = [False] * len(pb)
            if look(b) != want:
                ctx.fail("box.from_box", f"a box made from a {form} changed with it: {look(b)} instead of {want}")
                return
        b = geo.box()
        want = look(b)
        x = r.normal(size=(sc["n"], 3)).astype(np.float32) * 9
        if geo.d2:
            x[:, 2] = 0
        im = r.integers(-2, 3, (sc["n"], 3)).astype(np.int32)
        if geo.d2:
            im[:, 2] = 0
        mass = (0.5 + r.random(sc["n"])).astype(np.float32)
        fr = b.make_fractional(b.wrap(x))
        calls = {
            "wrap": (x,), "unwrap": (x, im), "get_images": (x,), "make_fractional": (x,), "make_absolute": (fr,), "contains": (x,),
            "center_of_mass": (x,), "center": (x,), "compute_distances": (x, x[::-1].copy()), "compute_all_distances": (x, x[:3]),
        }
        for name, a in calls.items():
            t = Things(g.getrandbits(32))
            y = [t.array(f"argument {i}", v) for i, v in enumerate(a)]
            kw = {}
            if name in ("center_of_mass", "center"):
                kw["masses"] = t.array("masses", mass)
            got = np.array(getattr(b, name)(*y, **kw))
            if t.changed():
                ctx.fail("box.modified", f"{name} changed the caller's {t.changed()}")
                return
            t.scribble()
            if "masses" in kw:
                kw = {"masses": mass.copy()}
            with ctx.sim.ref():
                ref = np.array(getattr(geo.box(), name)(*[v.copy() for v in a], **kw))
            m = A.same_value(got, ref, 1e-5 if name in ("center_of_mass", "center") else 0)
            if m:
                ctx.fail(f"box.{name}", m)
                return
        if look(b) != want:
            ctx.fail("box.changed", f"{look(b)} instead of {want}")
            return
    ctx.nontrivial = True


def nlist(sc, ctx):
    F = Frame(sc["frame"])
    g = random.Random(sc["s"])
    r = np.random.default_rng(sc["s"])
    n = sc["n"]
    i = np.sort(r.integers(0, F.n, n)).astype(np.uint32)
    j = r.integers(0, F.n, n).astype(np.uint32)
    o = np.lexsort((j, i))
    i, j = i[o], j[o]
    v = r.normal(size=(n, 3)).astype(np.float32)
    w = r.random(n).astype(np.float32)
    with ctx.sim.world():
        t = Things(g.getrandbits(32))
        a = [t.array("query point indices", i, True), t.array("point indices", j, True), t.array("vectors", v, True), t.array("weights", w, True)]
        l = freud.locality.NeighborList.from_arrays(F.n, F.n, *a)
        if t.changed():
            ctx.fail("nlist.modified", f"from_arrays changed the caller's {t.changed()}")
            return
        t.scribble()
        p = np.array(l[:])
        for name, x, y in (("pairs", p, np.stack([i, j], 1)), ("vectors", l.vectors, v), ("weights", l.weights, w)):
            if not np.array_equal(x, y):
                ctx.fail("nlist." + name, f"{name} of a list changed with the arrays it was made from")
                return
        c = l.copy()
        m = t.array("filter", r.random(n) < 0.6, True)
        t.kept = t.kept[-1:]
        l.filter(m)
        if t.changed():
            ctx.fail("nlist.modified", "filter changed the caller's filter")
            return
        l.filter_r(1.5)
        l.sort(by_distance=True)
        if not np.array_equal(np.array(c[:]), p) or not np.array_equal(c.vectors, v) or not np.array_equal(c.weights, w):
            ctx.fail("nlist.copy", "a copy changed with the list it was made from")
            return
        t = Things(g.getrandbits(32))
        pts, q = t.array("points", F.pts), t.array("query points", F.pts[: 1 + F.n // 2])
        l = freud.locality.NeighborList.all_pairs((t.box(F.geo), pts), q, exclude_ii=False)
        if t.changed():
            ctx.fail("nlist.modified", f"all_pairs changed the caller's {t.changed()}")
            return
        d = np.array(l.distances)
        t.scribble()
        if len(l) != F.n * len(F.pts[: 1 + F.n // 2]) or not np.array_equal(l.distances, d):
            ctx.fail("nlist.all_pairs", "a list of all pairs changed with the points")
            return
    ctx.nontrivial = True


def unitcell(sc, ctx):
    geo = S.Geo(sc["box"])
    g = random.Random(sc["s"])
    r = np.random.default_rng(sc["s"])
    basis = r.random((sc["n"], 3)) * 0.98
    if geo.d2:
        basis[:, 2] = 0
    reps = [2, 1, 1 if geo.d2 else 2]
    with ctx.sim.world():
        s = g.getrandbits(32)
        t = Things(s)
        b = t.box(geo)
        u = freud.data.UnitCell(b, t.array("basis", basis))
        if t.changed():
            ctx.fail("unitcell.modified", f"the constructor changed the caller's {t.changed()}")
            return
        t.scribble()
        reps_given = list(reps)
        got = [u.generate_system(reps_given, scale=1.3, sigma_noise=0.05, seed=5) for _ in range(2)]
        if reps_given != reps:
            ctx.fail("unitcell.modified", "generate_system changed the caller's list of replicas")
            return
        said = {"a1": u.a1, "a2": u.a2, "a3": u.a3, "basis": u.basis_positions, "box": A.box_arr(u.box)}
    with ctx.sim.ref():
        t = Things(s)
        x = freud.data.UnitCell(t.box(geo), t.array("basis", basis))
        ref = x.generate_system(reps, scale=1.3, sigma_noise=0.05, seed=5)
        exp = {"a1": x.a1, "a2": x.a2, "a3": x.a3, "basis": x.basis_positions, "box": A.box_arr(x.box)}
    for k in exp:
        if not np.array_equal(np.asarray(said[k]), np.asarray(exp[k])):
            ctx.fail(f"unitcell.{k}", f"{k} changed with the caller's data")
            return
    for k, (bb, pp) in enumerate(got):
        if not np.array_equal(pp, ref[1]) or look(bb) != look(ref[0]):
            ctx.fail("unitcell.system", f"system {k} of a unit cell whose caller changed its own data is another")
            return
    ctx.nontrivial = True
