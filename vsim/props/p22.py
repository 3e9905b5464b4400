"""The cells of a Voronoi diagram fill the box, and its neighbors are those that share a face, under any schedule and after any history."""

import freud
import numpy as np
from scipy.spatial import ConvexHull, QhullError

from .. import adapters as A
from .. import faults as X
from .. import systems as S

ID = "P22"
RULE = (
    "a run counts when the cells and neighbors of at least one diagram were compared with their definition; two runs are the same when their "
    "scheduling decisions, accesses and history agree"
)
ASSUME = [
    "voro++, whose submodule is empty here, is replaced by a stand-in that computes each cell by clipping; what is judged is what freud makes of it",
    "faces smaller than single precision can resolve may be neighbors or not",
]
SCHED_NONTRIVIAL = False


class Voronoi(A.Adapter):
    OUT = ("volumes", "polytopes", "nlist")
    pair = False
    query = False
    big = False
    open_box = False
    hi = 24

    def gen_params(self, rng, geo):
        return {}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True

    def make(self, p):
        return freud.locality.Voronoi()

    def args(self, p, F):
        return (F.system(),), {}

    def outputs(self, o):
        return self.values(o.nlist, o.volumes, o.polytopes)

    def values(self, nl, volumes, poly):
        ij = A.arr(nl[:]).reshape(-1, 2)
        v = A.arr(nl.vectors).reshape(-1, 3)
        w = A.arr(nl.weights)
        # bonds of the same pair with the same weight have no order
        s = np.lexsort((v[:, 2], v[:, 1], v[:, 0], w, ij[:, 1], ij[:, 0]))
        return {
            "volumes": A.arr(volumes), "nlist.pairs": ij, "nlist.weights": w, "nlist.vectors": v[s], "nlist.distances": A.arr(nl.distances)[s],
            "nlist.counts": A.arr(nl.neighbor_counts), "nlist.n": np.array([nl.num_query_points, nl.num_points]),
            "polytopes.sizes": np.array([len(q) for q in poly]), "polytopes": np.concatenate([*poly, np.zeros((0, 3))]),
        }


AD = Voronoi()


def gen(rng, tier):
    p, frames = AD.gen(rng, rng.choice([1, 1, 2, 3]), rng.random() < 0.3)
    for f in frames:
        if rng.random() < 0.15:  # a few points, up to one
            f["sys"]["n"] = rng.choice([1, 2, 3])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        u = rng.random()
        k = rng.randrange(len(frames))
        if u < 0.5:
            ops.append(["c", k])
        elif u < 0.8:
            ops.append(["x", k, X.gen(rng)])
        else:
            ops.append(["r"])
    return {"kind": "history", "p": p, "frames": frames, "ops": [*ops, ["c", rng.randrange(len(frames))], ["r"]], "ref": rng.random() < 0.6}


def area(q):
    """Area of a polygon in a plane, by the hull of its corners."""
    if len(q) < 3:
        return 0.0
    c = q - q.mean(0)
    u, s, vt = np.linalg.svd(c, full_matrices=False)
    if s[1] < 1e-9 * max(1e-30, s[0]):
        return 0.0
    try:
        return ConvexHull(c @ vt[:2].T).volume
    except QhullError:
        return 0.0


def size(q):
    if q.shape[1] == 3:
        return area(q)
    return np.linalg.norm(q[:, None] - q[None], axis=-1).max(initial=0)


def volume(q, d2):
    if d2:
        return abs(0.5 * np.sum(q[:, 0] * np.roll(q[:, 1], -1) - q[:, 1] * np.roll(q[:, 0], -1)))
    try:
        return ConvexHull(q).volume
    except QhullError:
        return 0.0


def wrong(F, o):
    """What contradicts the definition: the cell of a point is what is at least as near to it as to any other, image or point."""
    geo, n = F.geo, F.n
    P = F.pts.astype(float)
    nd = 2 if geo.d2 else 3
    H = geo.H[:nd, :nd]
    sc = geo.scale
    ij, v, w, d = o["nlist.pairs"].astype(int), o["nlist.vectors"].astype(float), o["nlist.weights"].astype(float), o["nlist.distances"].astype(float)
    if o["nlist.n"].tolist() != [n, n] or len(o["volumes"]) != n or len(o["polytopes.sizes"]) != n:
        return "form", f"{n} points; {o['nlist.n'].tolist()} in the list, {len(o['volumes'])} volumes, {len(o['polytopes.sizes'])} polytopes"
    if len(ij) and (ij.min() < 0 or ij.max() >= n):
        return "nlist.pairs", "an index that is no point"
    if not np.array_equal(np.bincount(ij[:, 0], minlength=n), o["nlist.counts"]):
        return "nlist.counts", "the neighbor counts are not those of the list"
    key = list(zip(ij[:, 0].tolist(), ij[:, 1].tolist(), o["nlist.weights"].tolist()))
    if any(a > b for a, b in zip(key, key[1:])):
        return "nlist.order", "the bonds are not ordered by query point, point and weight"
    total = abs(np.linalg.det(H))
    if abs(o["volumes"].sum() - total) > 2e-6 * total or (o["volumes"] <= 0).any():
        return "volumes", f"they add up to {o['volumes'].sum()}, the box has {total}"
    if len(v) and (np.abs(np.linalg.norm(v, axis=1) - d).max() > 1e-5 * sc or d.min() <= 0):
        return "nlist.distances", "not the lengths of the vectors"
    # every vector leads to an image of the neighbor
    e = v[:, :nd] - (P[ij[:, 1]] - P[ij[:, 0]])[:, :nd]
    f = e @ np.linalg.inv(H).T
    r = np.abs(((f - np.rint(f)) @ H.T)).max(initial=0)
    if r > 3e-5 * sc or (geo.d2 and np.abs(v[:, 2]).max(initial=0) > 1e-6):
        return "nlist.vectors", f"a vector misses all images of its neighbor by {r}"
    R = 2.02 * 0.5 * np.linalg.norm(geo.H[:nd, :nd], axis=0).sum()
    tops = np.ceil(R / np.array([1 / np.linalg.norm(x) for x in np.linalg.inv(H)])).astype(int) + 1
    grid = np.stack(np.meshgrid(*[np.arange(-t, t + 1) for t in tops], indexing="ij"), -1).reshape(-1, nd) @ H.T
    at = np.concatenate([[0], np.cumsum(o["polytopes.sizes"])])
    tol = 2e-5 * sc
    small = 3e-4 * sc ** (nd - 1)
    for i in range(n):
        q = o["polytopes"][at[i] : at[i + 1]].astype(float)
        if geo.d2 and np.abs(q[:, 2]).max(initial=0) > 1e-6:
            return "polytopes", f"the cell of point {i} leaves the plane"
        q = q[:, :nd] - P[i, :nd]
        if len(q) < nd + 1:
            return "polytopes", f"the cell of point {i} has {len(q)} corners"
        if abs(volume(q, geo.d2) - o["volumes"][i]) > 1e-5 * total:
            return "polytopes", f"the cell of point {i} has the volume {volume(q, geo.d2)}, reported is {o['volumes'][i]}"
        far = 2 * np.linalg.norm(q, axis=1).max() + tol
        D = ((P - P[i])[:, None, :nd] + grid[None]).reshape(-1, nd)
        jd = np.repeat(np.arange(n), len(grid))
        L = np.linalg.norm(D, axis=1)
        m = (L > 1e-9) & (L < far)
        D, jd, L = D[m], jd[m], L[m]
        over = q @ (D / L[:, None]).T - L / 2
        if over.max() > tol * 3:
            a, b = np.unravel_index(over.argmax(), over.shape)
            return "polytopes", f"a corner of the cell of point {i} is nearer to an image of {jd[b]} by {over[a, b]}"
        mine = np.flatnonzero(ij[:, 0] == i)
        if geo.d2 and len(q) >= max(2 * len(mine), 2 * nd + 2):
            return "polytopes", f"the cell of point {i} has {len(q)} corners and {len(mine)} sides"
        used = set()
        for b in np.flatnonzero((np.abs(over) < tol * 3).sum(0) >= nd):
            s, least = (size(q[np.abs(over[:, b]) < t]) for t in (tol * 3, tol / 20))
            hit = [x for x in mine if ij[x, 1] == jd[b] and np.abs(v[x, :nd] - D[b]).max() < 1e-4 * sc]
            if len(hit) > 1:
                return "nlist.pairs", f"the face of {i} towards {jd[b]} {D[b].tolist()} is listed {len(hit)} times"
            if not hit:
                if s > small:
                    return "nlist.missing", f"the face of {i} towards {jd[b]} {D[b].tolist()} of size {s} is not listed"
                continue
            used.add(hit[0])
            if not least - small < w[hit[0]] < s + small:
                return "nlist.weights", f"the face of {i} towards {jd[b]} {D[b].tolist()} has the size {s}, not {w[hit[0]]}"
        for x in mine:
            if x not in used and w[x] > small:
                return "nlist.extra", f"{i} and {ij[x, 1]} {v[x].tolist()} share no face"
    return None


def run(sc, ctx):
    frames = [AD.frame(sc["p"], f) for f in sc["frames"]]
    for F, f in zip(frames, sc["frames"]):
        v, d, _ = F.all_pairs()
        d = d + np.diag(np.full(F.n, np.inf))
        F.close = F.n > 1 and d.min() < 2e-3 * F.geo.scale  # cells that single precision does not resolve
    with ctx.sim.world():
        o = AD.make(sc["p"])
    since = []  # the frames whose diagram the object may hold
    failed = False
    refs = {}
    kept = []  # results and what they were when they were read

    def reference(k):
        if k not in refs:
            with ctx.sim.ref():
                o2 = AD.make(sc["p"])
                AD.compute(o2, sc["p"], frames[k])
                refs[k] = AD.outputs(o2)
        return refs[k]

    for n, op in enumerate(sc["ops"]):
        if op[0] == "x":
            with ctx.sim.world():
                r = X.faulty(ctx, AD, sc["p"], o, frames[op[1]], op[2])
            if r.exc is None:
                since, failed = [] if r.fired else [op[1]], False
            elif op[2]["f"] == "interrupt":
                since = []  # between two statements of Python
            elif op[2]["f"] != "reject":
                # all of the old diagram or, if only what comes after it failed, all of the new one
                since, failed = since and [*since, op[1]], True
            continue
        if op[0] == "c":
            with ctx.sim.world():
                AD.compute(o, sc["p"], frames[op[1]])
            since, failed = [op[1]], False
            continue
        if not since:
            continue
        with ctx.sim.world():
            held = o.nlist, o.volumes, o.polytopes
            got = AD.values(*held)
        kept.append((n, held, got))
        k = since[-1]
        if sc["ref"] or failed:
            d = [A.diff_outputs(got, reference(k), {}) for k in since]
            if all(d):
                what = "failed" if failed else "new"
                return ctx.fail(f"Voronoi.{what}.{d[0][0]}", f"operation {n}: not what a new object gives with one worker for frame {since}: {d[0][1]}")
            k = since[d.index(None)]
        F = frames[k]
        if F.close:
            ctx.probe("close")
            continue
        d = wrong(F, got)
        if d:
            return ctx.fail(f"Voronoi.{d[0]}", f"operation {n}, frame {k}: {d[1]}")
        ctx.nontrivial = True
    for n, held, was in kept:
        with ctx.sim.world():
            now = AD.values(*held)
        d = A.diff_outputs(now, was, {})
        if d:
            return ctx.fail(f"Voronoi.kept.{d[0]}", f"what was read in operation {n} has changed: {d[1]}")
