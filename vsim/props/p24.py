"""A system given in any documented form is the box and the points it stands for, when it is given."""

import random

import numpy as np

import freud

from .. import adapters as A
from .. import forms
from .. import query as Q
from .. import systems as S
from ..systems import Frame

forms.load_real()

ID = "P24"
RULE = (
    "a run counts when results of frames that a trajectory had moved on from, or that followed a failed reading, were "
    "compared; two runs are the same when their scheduling decisions, accesses and scenario agree"
)
ASSUME = [
    "frame objects of MDAnalysis and GSD are those libraries' own in part of the runs, elsewhere stand-ins with the "
    "attributes those libraries document; garnett, OVITO and HOOMD-blue are stand-ins only",
    "a box given as a matrix is the same box but for rounding",
]
SCHED_NONTRIVIAL = False
NAMES = [n for n in A.ALL if n not in ("QueryList", "MSD", "RotationalAutocorrelation", "AllPairs", "ClusterProperties", "Nematic", "Cubatic",
                                      "AngularSeparationGlobal")]
ERRORS = {"OSError": OSError, "EOFError": EOFError, "ValueError": ValueError, "RuntimeError": RuntimeError,
          "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


def gen(rng, tier):
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2]))]
    ads = [A.ALL[n] for n in names]
    while True:
        kw = dict(ads[0].box_kw)
        base = S.gen_sys(rng, lo=max(a.lo for a in ads), hi=25, big=False, d2=ads[0].d2, **kw)
        if not all(a.takes(base["box"]) for a in ads):
            names, ads = names[:1], ads[:1]
            continue
        break
    nf = rng.choice([1, 2, 2, 3])
    traj = []
    for k in range(nf):
        b = base["box"]
        if k and not any(a.box_kw or a.dim_fixed for a in ads) and rng.random() < 0.6:
            sc = rng.uniform(1.0, 1.2)
            b = dict(b, L=[round(x * sc, 3) for x in b["L"]])
        traj.append(dict(base, box=b, ps=rng.getrandbits(32)))
    objs = []
    for n, ad in zip(names, ads):
        fr = []
        p = None
        for t in traj:
            p1, f1 = ad.gen(rng, 1, True, True, t)
            if p is None:
                p = p1
            f = f1[0]
            f["nq"] = {"t": "tuple", "w": 0}
            fr.append(f)
        if p.get("reg") and base["n"] > 14:
            p["reg"] = False  # matching many large environments by brute force takes minutes
        objs.append({"a": n, "p": p, "frames": fr})
    form = forms.gen(rng)
    if form["f"] == "pair" and rng.random() < 0.5:
        form["f"] = rng.choice(["realmda", "realgsd"])
    ops = []
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        i = rng.randrange(nf)
        if x < 0.4:
            ops.append(["c", rng.randrange(len(objs)), i, rng.random() < 0.5])
        elif x < 0.62:
            how = rng.choice(["access", "access", "access", "shape"])
            ops.append(["x", rng.randrange(len(objs)), i, rng.random() < 0.5, how, round(0.9999 * rng.random(), 5), rng.choice(sorted(ERRORS))])
        elif x < 0.72:
            ops.append(["xs", i, rng.choice(["raw", "aabb"]), round(0.9999 * rng.random(), 5), rng.choice(sorted(ERRORS))])
        elif x < 0.87:
            ops.append(["s", rng.choice(["raw", "aabb", "pairs"]), i, Q.gen_query(rng, hi=12), rng.choice(["now", "later", "iter"])])
        elif x < 0.94:
            ops.append(["q", rng.randrange(8), Q.gen_query(rng, hi=12)])
        else:
            ops.append(["r", rng.randrange(len(objs))])
    ops.append(["c", rng.randrange(len(objs)), rng.randrange(nf), rng.random() < 0.6])
    return {"kind": form["f"] + "." + names[0], "form": form, "traj": traj, "objs": objs, "ops": ops, "s": rng.getrandbits(32)}


def same_box(b, geo, form):
    L, t = forms.box_numbers(geo)
    want = np.array(L + t, np.float32).astype(float)
    got = np.array([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz], float)
    if bool(b.is2D) != geo.d2:
        return f"a box of {2 if b.is2D else 3} dimensions"
    # a matrix of 32-bit numbers, squared and subtracted; degrees in between make it no better
    tol = 1e-4 if form["f"] == "realmda" else 1e-5 if forms.inexact(form, geo) else 0
    if (np.abs(got - want) > tol * np.array([*[max(1, max(L))] * 3, 1, 1, 1])).any():
        return f"box {got.tolist()} instead of {want.tolist()}"
    return None


class Obj:
    def __init__(self, d, ctx, src, pboxes):
        self.ad = A.ALL[d["a"]]
        self.a, self.p = d["a"], d["p"]
        self.frames = [self.ad.frame(self.p, f) for f in d["frames"]]
        self.live = [self.ad.frame(self.p, f) for f in d["frames"]]
        for k, F in enumerate(self.live):
            F.system = lambda k=k: src.seek(k)
        for k, F in enumerate(self.frames):
            F.system = lambda k=k: (pboxes[k], src.pts[k].copy())
        self.o = self.ad.make(self.p)
        self.since = []  # frames its results are about; None: left open

    def expect(self, ctx):
        with ctx.sim.ref():
            x = self.ad.make(self.p)
            for n, k in enumerate(self.since):
                self.ad.compute(x, self.p, self.frames[k], **({"reset": n == 0} if self.ad.accum else {}))
            return self.ad.outputs(x)


def run(sc, ctx):
    form = sc["form"]
    g = np.random.default_rng(sc["s"])
    geos = [S.Geo(t["box"]) for t in sc["traj"]]
    pts = [S.make_points(t, geo) for t, geo in zip(sc["traj"], geos)]
    src = forms.source(form, geos, pts)
    form = src.form
    kind = form["f"]
    FNS = {"raw": freud.locality.NeighborQuery.from_system, "aabb": freud.locality.AABBQuery.from_system}
    pboxes = []
    for k, geo in enumerate(geos):
        with ctx.sim.ref():
            nq = freud.locality.NeighborQuery.from_system(src.plain(k))
        b = nq.box
        pboxes.append(b)
        e = same_box(b, geo, form)
        if e:
            ctx.fail(f"{kind}.box", f"frame {k}, box as {form['b']}: {e}")
            return
        if not np.array_equal(np.asarray(nq.points), pts[k]):
            ctx.fail(f"{kind}.points", f"frame {k}, points as {form['p']}: other points")
            return
    with ctx.sim.world():
        objs = [Obj(d, ctx, src, pboxes) for d in sc["objs"]]
    kept = []
    moved = False

    def readings(n, only=None):
        for m, x in enumerate(objs):
            if not x.since or only is not None and m != only:
                continue
            with ctx.sim.world():
                got = x.ad.outputs(x.o)
            d = A.diff_outputs(got, x.expect(ctx), x.ad.tol)
            if not d and form["f"] != "realmda" and not (x.a == "PeriodicBuffer" and forms.inexact(form, geos[0])):
                if "box" in got and forms.inexact(form, geos[0]):  # compared already
                    got["box"] = A.box_arr(geos[x.since[-1]].box())
                d = A.check_model(x.ad, x.p, [x.frames[k] for k in x.since][0 if x.ad.accum else -1 :], got)
            if d:
                ctx.fail(f"{kind}.{x.a}.{d[0]}", f"operation {n}, frames {x.since}: {d[1]}")
                return False
        return True

    for n, op in enumerate(sc["ops"]):
        if op[0] == "c":
            x = objs[op[1]]
            kw = {}
            if x.ad.accum:
                reset = op[3] or not x.since
                kw["reset"] = reset
                x.since = ([] if reset else x.since) + [op[2]]
            else:
                x.since = [op[2]]
            with ctx.sim.world():
                x.ad.compute(x.o, x.p, x.live[op[2]], **kw)
                src.noise(g)
            moved = True
        elif op[0] == "x":
            x = objs[op[1]]
            k = op[2]
            F = x.live[k]
            kw = {"reset": op[3]} if x.ad.accum else {}
            bad = None
            with ctx.sim.world():
                a, q = x.ad.args(x.p, F)
                q.update(kw)
                src.count, src.at, src.raised = 0, None, False
                how = op[4]
                if how == "access":
                    with ctx.sim.ref():
                        freud.locality.NeighborQuery.from_system(src.held)
                    total = src.count
                    if not total:
                        how = "shape"
                    else:
                        src.count, src.exc = 0, ERRORS[op[6]]
                        src.at = 1 + int(op[5] * total)
                if how == "shape":
                    P = [pts[k][:, :2], pts[k].ravel(), np.full((len(pts[k]), 3), "x"), np.concatenate([pts[k]] * 2, 1)][int(op[5] * 4)]
                    f = dict(form, p="f32")
                    if f["f"] == "mda" and P.dtype.kind == "U" or f["f"].startswith("real"):
                        f["f"] = "gsd"
                    bad = forms.make(f, geos[k], P)
                    a = (bad, *a[1:])
                exc = None
                try:
                    x.o.compute(*a, **q)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    exc = e
                finally:
                    src.at = None
                if exc is None:
                    if src.raised or how == "shape" and x.a != "Interface":  # which may not look at it
                        ctx.fail(f"{kind}.{x.a}.swallowed", f"operation {n} {op}: a system that could not be read was accepted")
                        return
                    ctx.probe("not_reached")
                    x.since = (x.since if x.ad.accum and not op[3] and x.since else []) + [k]
                else:
                    if how == "access" and not src.raised:
                        raise exc
                    ctx.fault(f"{how}_{type(exc).__name__}")
                    exc = None
                    if x.ad.accum and op[3]:
                        x.since = None
                src.noise(g)
            moved = True
        elif op[0] == "xs":
            k = op[1]
            with ctx.sim.world():
                s = src.seek(k)
                src.count, src.at = 0, None
                with ctx.sim.ref():
                    FNS[op[2]](s)
                if src.count:
                    src.at, src.count, src.exc = 1 + int(op[3] * src.count), 0, ERRORS[op[4]]
                    src.raised = False
                    try:
                        FNS[op[2]](s)
                        ok = True
                    except ERRORS[op[4]]:
                        ok = not src.raised
                    finally:
                        src.at = None
                    if ok:
                        ctx.fail(f"{kind}.swallowed", f"operation {n} {op}: a system that could not be read was accepted")
                        return
                    ctx.fault(f"structure_{op[4]}")
        elif op[0] == "s":
            k = op[2]
            q = Q.Query(Frame({"sys": sc["traj"][k], "nq": {"t": "aabb", "w": 0}, "no_pairs": True}), dict(op[3]))
            with ctx.sim.world():
                s = src.seek(k)
                if op[1] == "pairs":
                    nl = freud.locality.NeighborList.all_pairs(s, q.P.copy(), exclude_ii=False) if len(q.P) else None
                    if nl is not None:
                        kept.append(["pairs", nl, k, q])
                else:
                    nq = FNS[op[1]](s)
                    r = nq.query(q.points(), dict(q.args))
                    if op[4] == "now":
                        kept.append(["list", r.toNeighborList(), k, q])
                    elif op[4] == "iter":
                        it = iter(r)
                        head = [x for _, x in zip(range(3), it)]
                        kept.append(["iter", (it, head), k, q])
                    else:
                        kept.append(["lazy", r, k, q])
                    kept.append(["nq", nq, k, None])
                src.noise(g)
            moved = True
        elif op[0] == "q":
            c = [y for y in kept if y[0] == "nq"]
            if c:
                _, nq, k, _ = c[op[1] % len(c)]
                q = Q.Query(Frame({"sys": sc["traj"][k], "nq": {"t": "aabb", "w": 0}, "no_pairs": True}), dict(op[2]))
                with ctx.sim.world():
                    nl = nq.query(q.points(), dict(q.args)).toNeighborList()
                kept.append(["list", nl, k, q])
        elif not readings(n, op[1]):
            return
    if not readings("end"):
        return
    for what, y, k, q in kept:
        with ctx.sim.world():
            if what == "nq":
                r = None
                if not np.array_equal(np.asarray(y.points), pts[k]):
                    r = "points", "the structure's points have changed"
                elif not np.array_equal(A.box_arr(y.box), A.box_arr(pboxes[k])):
                    r = "box", "the structure's box has changed"
            elif what == "pairs":
                r = None
                v, tie = geos[k].wrap(pts[k].astype(float)[None] - q.P.astype(float)[:, None])
                d = np.sqrt((v * v).sum(-1))
                if len(y) != d.size or not np.allclose(np.asarray(y.distances).reshape(d.shape), d, atol=1e-4 * geos[k].scale):
                    r = "pairs", "the list of all pairs is another"
            elif form["f"] == "realmda":
                r = None
            elif what == "iter":
                a = np.array(y[1] + list(y[0]), float).reshape(-1, 3)
                r = q.check(a[:, 0], a[:, 1], a[:, 2])
            else:
                r = q.check_nlist(y if what == "list" else y.toNeighborList())
        if r:
            ctx.fail(f"{kind}.{what}.{r[0]}", f"frame {k}: {r[1]}")
            return
    ctx.nontrivial = moved
