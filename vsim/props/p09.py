"""Neighbor lists hold exactly the bonds a sequence of operations keeps, whatever was refused or failed on the way."""

import numpy as np

import freud

from .. import query as Q
from .. import systems as S
from ..systems import Frame

ID = "P09"
RULE = (
    "a run counts when at least two operations changed a list that held bonds and its whole state was compared with the "
    "model after each; two runs are the same when operations and scheduling decisions agree"
)
ASSUME = ["bonds that the documented order leaves equal may come in any order"]
SCHED_NONTRIVIAL = False
NL = freud.locality.NeighborList

MAKE = ["arrays", "arrays", "arrays", "query", "query", "pairs", "empty"]


def gen_make(rng):
    k = rng.choice(MAKE)
    d = {"k": k, "s": rng.getrandbits(32)}
    if k == "arrays":
        d.update(nq=rng.choice([1, 2, 3, 5, 8, 20, 60]), n=rng.choice([1, 2, 4, 9, 40]), b=rng.choice([0, 1, 2, 5, 12, 30, 80, 300]),
                 dup=rng.random() < 0.3, w=rng.random() < 0.6, ty=rng.choice(["np", "list", "i64", "strided", "f64"]))
    elif k in ("query", "pairs"):
        d["frame"] = Q.gen_system(rng, hi=25)
        d["q"] = Q.gen_query(rng, d["frame"]["nq"]["t"] == "cell", hi=12)
        d["bd"] = rng.random() < 0.5
        d["ii"] = rng.random() < 0.5
    return d


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 9])):
        r = rng.random()
        w = rng.randrange(1 << 16)
        s = rng.getrandbits(32)
        if r < 0.22:
            ops.append(["filter", w, s, rng.choice([0.0, 0.3, 0.6, 0.9, 1.0]), rng.choice(["np", "list", "int", "strided"])])
        elif r < 0.36:
            ops.append(["filter_r", w, s, rng.random() < 0.5])
        elif r < 0.54:
            ops.append(["sort", w, rng.random() < 0.5, rng.random() < 0.5])
        elif r < 0.64:
            ops.append(["copy", w])
        elif r < 0.72:
            ops.append(["copy_to", w, rng.randrange(1 << 16)])
        elif r < 0.76:
            ops.append(["del", w])
        elif r < 0.8:
            ops.append(["read", w])
        elif r < 0.9:
            ops.append(["refuse", w, s, rng.randrange(9)])
        else:
            ops.append(["new", gen_make(rng)])
        if rng.random() < 0.25:
            ops[-1] = ["fault", round(0.9999 * rng.random(), 4), ops[-1]]
    return {"first": gen_make(rng), "ops": ops, "kind": "nlist", "lazy": rng.random() < 0.3}


ROW = np.dtype([("i", "u4"), ("j", "u4"), ("d", "f4"), ("w", "f4"), ("x", "f4"), ("y", "f4"), ("z", "f4")])


def rows(i, j, d, w, v):
    r = np.zeros(len(i), ROW)
    r["i"], r["j"], r["d"], r["w"] = i, j, d, w
    r["x"], r["y"], r["z"] = np.asarray(v, np.float32).reshape(-1, 3).T
    return r


def bag(r):
    return sorted(x.tobytes() for x in r)


def read(nl):
    return rows(nl.query_point_indices, nl.point_indices, nl.distances, nl.weights, nl.vectors)


class M:
    """The bonds in their order, and the sizes."""

    def __init__(self, r, nq, n):
        self.r, self.nq, self.n = r, nq, n

    def copy(self):
        return M(self.r.copy(), self.nq, self.n)


def check(nl, m, g):
    if (nl.num_query_points, nl.num_points) != (m.nq, m.n):
        return "sizes", f"{(nl.num_query_points, nl.num_points)} instead of {(m.nq, m.n)}"
    b = len(m.r)
    if len(nl) != b:
        return "length", f"{len(nl)} bonds instead of {b}"
    p = nl[:]
    shapes = [p.shape, nl.distances.shape, nl.weights.shape, nl.vectors.shape, nl.neighbor_counts.shape, nl.segments.shape]
    if shapes != [(b, 2), (b,), (b,), (b, 3), (m.nq,), (m.nq,)]:
        return "shapes", str(shapes)
    got = read(nl)
    for f in ROW.names:
        if got[f].tobytes() != m.r[f].tobytes():
            k = int(np.nonzero(got[f] != m.r[f])[0][0]) if (got[f] != m.r[f]).any() else -1
            return "bonds", f"{f}: bond {k} is {got[k]} instead of {m.r[k]}"
    if not (np.array_equal(p[:, 0], m.r["i"]) and np.array_equal(p[:, 1], m.r["j"])):
        return "bonds", "index pairs differ from the index arrays"
    cnt = np.bincount(m.r["i"], minlength=m.nq)
    if not np.array_equal(nl.neighbor_counts, cnt):
        return "counts", f"{nl.neighbor_counts[:8]} instead of {cnt[:8]}"
    seg = np.searchsorted(m.r["i"], np.arange(m.nq), "left")
    has = cnt > 0
    if not np.array_equal(nl.segments[has], seg[has]):
        return "segments", f"{nl.segments[:8]} instead of {seg[:8]}"
    ask = {0, m.nq, m.nq + 3, *(int(x) for x in g.integers(0, m.nq + 1, 4))}
    for i in sorted(ask):
        e = int(np.searchsorted(m.r["i"], i, "left"))
        if nl.find_first_index(i) != e:
            return "find", f"find_first_index({i}) is {nl.find_first_index(i)} instead of {e}"
    return None


def typed(x, ty, f=np.float32):
    if ty == "list":
        return x.tolist()
    if ty == "i64":
        return x.astype(np.int64) if x.dtype.kind in "ui" else x
    if ty == "f64":
        return x.astype(float) if x.dtype.kind == "f" else x
    if ty == "strided":
        return np.repeat(x, 2, axis=0)[::2]
    return x


def make(d, arm):
    """Returns (list, model) or raises."""
    g = np.random.default_rng(d["s"])
    k = d["k"]
    if k == "empty":
        with arm():
            nl = NL()
        return nl, M(np.zeros(0, ROW), 0, 0)
    if k == "arrays":
        b = d["b"]
        i = np.sort(g.integers(0, d["nq"], b)).astype(np.uint32)
        j = g.integers(0, d["n"], b).astype(np.uint32)
        v = g.normal(size=(b, 3)).astype(np.float32)
        if d["dup"]:
            v = np.round(v)
            v[(v == 0).all(1)] = 1
        w = (np.round(g.random(b) * 3) if d["dup"] else g.random(b)).astype(np.float32)
        a = [typed(x, d["ty"]) for x in (i, j, v, w)]
        if b == 0 and d["ty"] == "list":
            a[2] = v
        with arm():
            nl = NL.from_arrays(d["nq"], d["n"], a[0], a[1], a[2], a[3] if d["w"] else None)
        dist = nl.distances.copy()
        e = np.sqrt((v.astype(float) ** 2).sum(1))
        if dist.shape != e.shape or not np.allclose(dist, e, rtol=2e-6, atol=0):
            raise Wrong("distances of from_arrays", dist, e)
        return nl, M(rows(i, j, dist, w if d["w"] else np.ones(b, np.float32), v), d["nq"], d["n"])
    F = Frame(d["frame"])
    q = Q.Query(F, d["q"])
    if k == "pairs":
        with arm():
            nl = NL.all_pairs(F.system(), query_points=q.P.copy(), exclude_ii=d["ii"])
    else:
        from .p07 import make as structure

        with arm():
            nl = structure(F).query(q.P.copy(), dict(q.args)).toNeighborList(sort_by_distance=d["bd"])
    m = M(read(nl).copy(), q.nq, q.n)
    if np.any(np.diff(m.r["i"].astype(int)) < 0):
        raise Wrong("order of a new list", m.r["i"], None)
    return nl, m


class Wrong(Exception):
    pass


def refused(nl, m, d, s):
    """An operation that has to be refused. Returns its name, or None when there is no such operation here."""
    g = np.random.default_rng(s)
    b = len(m.r)
    i, j = m.r["i"].copy(), m.r["j"].copy()
    v = np.ones((b, 3), np.float32)
    name = ["filter_r_zero", "filter_r_negative", "filter_r_min", "filter_r_order", "filter_short", "filter_long",
            "unsorted", "query_range", "point_range"][d]
    try:
        if d == 0:
            nl.filter_r(0)
        elif d == 1:
            nl.filter_r(-float(g.random()))
        elif d == 2:
            nl.filter_r(1.0, -0.5)
        elif d == 3:
            nl.filter_r(0.5, float(g.choice([0.5, 0.7])))
        elif d == 4:
            if not b:
                return None
            nl.filter(np.ones(int(g.integers(b)), bool))
        elif d == 5:
            nl.filter(np.ones(b + 1 + int(g.integers(3)), bool))
        elif d == 6:
            if b < 2 or i[0] == i[-1]:
                return None
            NL.from_arrays(m.nq, m.n, i[::-1], j, v)
        elif d == 7:
            if not b:
                return None
            i[-1] = m.nq + int(g.integers(3))
            NL.from_arrays(m.nq, m.n, i, j, v)
        else:
            if not b:
                return None
            j[int(g.integers(b))] = m.n + int(g.integers(3))
            NL.from_arrays(m.nq, m.n, i, j, v)
    except (ValueError, RuntimeError, TypeError, IndexError):
        return name, True
    return name, False


class Arm:
    """Fails one allocation of the call inside it."""

    def __init__(self, ctx, u):
        self.ctx, self.u = ctx, u
        self.fired = 0

    def __call__(self):
        return self

    def __enter__(self):
        if self.u is not None:
            self.ctx.sim.arm(1 + int(self.u * 12), 1, 0)

    def __exit__(self, *a):
        if self.u is not None:
            self.fired += self.ctx.sim.disarm()[1]
        return False


def order(m, bd):
    """The documented order; what it leaves equal is compared as a set."""
    r = m.r
    k = np.lexsort((r["j"], r["d"], r["i"])) if bd else np.lexsort((r["j"], r["i"]))
    return r[k], (["i", "d", "j"] if bd else ["i", "j"])


def step(op, pool, ctx, u):
    """Does one operation on the real lists and on the models. Returns (signature, message) of a violation or None."""
    arm = Arm(ctx, u)
    k = op[0]
    if k == "new":
        nl, m = make(op[1], arm)
        pool.append([nl, m])
        return None
    if not pool:
        return None
    e = pool[op[1] % len(pool)]
    nl, m = e
    b = len(m.r)
    if k == "filter":
        mask = np.random.default_rng(op[2]).random(b) < op[3]
        a = {"np": mask, "list": mask.tolist(), "int": mask.astype(int) * 5, "strided": np.repeat(mask, 2)[::2]}[op[4]]
        with arm():
            r = nl.filter(a)
        m.r = m.r[mask]
        if r is not nl:
            return "filter.return", "does not return the list"
    elif k == "filter_r":
        g = np.random.default_rng(op[2])
        pick = np.sort(g.choice(m.r["d"], 2)) if b and g.random() < 0.7 else np.sort(g.random(2).astype(np.float32) * 4)
        lo, hi = (np.float32(pick[0]), np.float32(pick[1])) if op[3] else (np.float32(0), np.float32(pick[1]))
        if not (hi > lo >= 0 and np.isfinite(hi)):
            return None
        with arm():
            nl.filter_r(float(hi), float(lo)) if op[3] else nl.filter_r(float(hi))
        m.r = m.r[(m.r["d"] >= lo) & (m.r["d"] < hi)]
    elif k == "sort":
        with arm():
            nl.sort(by_distance=op[2])
        want, keys = order(m, op[2])
        got = read(nl)
        for f in keys:
            if not np.array_equal(got[f], want[f], equal_nan=True):
                return "sort.order", f"{f} is {got[f][:6]} instead of {want[f][:6]}"
        if bag(got) != bag(want):
            return "sort.bonds", "sorting changed the bonds"
        m.r = got.copy()
    elif k == "copy":
        with arm():
            c = nl.copy()
        pool.append([c, m.copy()])
    elif k == "copy_to":
        t = pool[op[2] % len(pool)]
        with arm():
            t[0].copy(nl)
        t[1] = m.copy()
    elif k == "read":
        with arm():
            nl.segments
            nl.neighbor_counts
    elif k == "del":
        pool.remove(e)
    elif k == "refuse":
        r = refused(nl, m, op[3], op[2])
        if r:
            ctx.fault("refused_" + r[0])
            if not r[1]:
                return "accepted." + r[0], f"{r[0]} was not refused ({b} bonds)"
    return None


def run(sc, ctx):
    pool = []
    g = np.random.default_rng(len(sc["ops"]))
    changed = 0
    for n, op in enumerate([["new", sc["first"]], *sc["ops"]]):
        u = None
        if op[0] == "fault":
            _, u, op = op
        with ctx.sim.world():
            try:
                bad = step(op, pool, ctx, u)
                if op[0] in ("filter", "filter_r", "sort", "copy_to") and pool and len(pool[0][1].r):
                    changed += 1
            except MemoryError:
                bad = None
                ctx.fault("alloc")
            except Wrong as e:
                bad = "made", str(e.args)[:500]
        if bad:
            ctx.fail(f"{op[0]}.{bad[0]}", f"operation {n} {op}: {bad[1]}")
            return
        if sc["lazy"] and n < len(sc["ops"]):
            continue
        for k, (nl, m) in enumerate(pool):
            with ctx.sim.world():
                d = check(nl, m, g)
            if d:
                ctx.fail(f"{op[0]}.{d[0]}" + (".fault" if u is not None else ""), f"operation {n} {op}, list {k}: {d[1]}")
                return
    ctx.nontrivial = changed >= 2
