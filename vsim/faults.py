"""Faults put into one compute call: arguments it must reject, an interruption, a failing allocation, values that
only turn out to be bad in the middle of the loop."""

import numpy as np

import freud

from . import systems as S
from .simctl import LineFault

KINDS = ("reject", "reject", "reject", "interrupt", "alloc_out", "alloc_in")


def gen(rng, kinds=KINDS):
    k = rng.choice(kinds)
    d = {"f": k, "u": round(0.9999 * rng.random(), 6)}
    if k == "reject":
        d["s"] = rng.getrandbits(32)
    if k.startswith("alloc"):
        d["n"] = rng.choice([1, 1, 1, 3, 1000])
    return d


def is_array(x):
    return isinstance(x, np.ndarray) and x.ndim >= 1 and len(x)


def rejected(ad, p, F, s, o=None):
    """Arguments like those of the frame but for one that is not acceptable. Returns (args, kwargs, name)."""
    g = np.random.default_rng(s)
    a, k = ad.args(p, F)
    a = list(a)
    k = dict(k)
    opts = ["system"]
    arrs = [(i, x) for i, x in enumerate(a) if i and is_array(x)] + [(n, x) for n, x in k.items() if is_array(x)]
    if arrs:
        opts += ["array"] * 3
    if ad.pair:
        opts += ["neighbors"] * 3
    if ad.d2 is not None and ad.name != "Cubatic" or ad.dim_fixed and getattr(o, "_called_compute", False):
        opts += ["dimension"]
    if ad.name == "MSD":
        opts += ["length"] * 2
    what = opts[int(g.integers(len(opts)))]
    box = F.geo.box()
    if what == "system":
        a[0] = [
            (box, F.pts[:, :2].copy()), (box, F.pts.reshape(-1).copy()), (box,), ("nonsense", F.pts.copy()), None,
            ([1, 2, 3, 4, 5, 6, 7, 8], F.pts.copy()), (box, [["a", "b", "c"]]),
        ][int(g.integers(7))]
    elif what == "dimension":
        spec = {"L": [9, 8, 0 if not F.geo.d2 else 9], "tilt": [0, 0, 0], "d2": not F.geo.d2}
        geo = S.Geo(spec)
        a[0] = (geo.box(), S.make_points({"n": F.n, "ps": 1, "pk": "uni"}, geo))
        if "neighbors" not in k and "r_max" not in p:
            k.setdefault("neighbors", {"r_max": 0.5})
    elif what == "length":
        # one time step more than the frames it is to be added to
        a[0] = np.concatenate([a[0], a[0][:1]])
        if "images" in k:
            k["images"] = np.concatenate([k["images"], k["images"][:1]])
    elif what == "array":
        key, x = arrs[int(g.integers(len(arrs)))]
        bad = [x[..., None], x[None], np.concatenate([x, x[:1]]), x[:-1], np.full(x.shape, "x"), x[..., :0]][int(g.integers(6))]
        if isinstance(key, int):
            a[key] = bad
        else:
            k[key] = bad
    else:
        r = 0.3 * F.geo.rcut
        # a cell list takes any r_max, and a very long time over a large one
        big = "x" if (F.f.get("nq") or {}).get("t") == "link" else float(2 * F.geo.scale)
        nq, n = F.nQ, F.n
        vec = np.ones((3, 3), np.float32)
        i3 = np.zeros(3, np.uint32)
        k["neighbors"] = [
            lambda: {"mode": "bogus", "r_max": r}, lambda: {"r_max": r, "foo": 1}, lambda: [1, 2], lambda: {},
            lambda: {"mode": "ball"}, lambda: {"mode": "nearest"}, lambda: {"r_max": big}, lambda: {"r_max": "x"},
            lambda: {"num_neighbors": -3}, lambda: {"r_max": r, "r_min": 2 * r, "mode": "ball"},
            lambda: freud.locality.NeighborList.from_arrays(nq + 3, n, i3, i3, vec),
            lambda: freud.locality.NeighborList.from_arrays(nq, n + 3, i3, i3, vec),
        ][int(g.integers(12))]()
    return tuple(a), k, what


def dry(ctx, ad, p, F, kw, kind):
    """How many places there are for a fault of this kind."""
    o = ad.make(p)
    with ctx.sim.ref():
        if kind == "interrupt":
            with LineFault(None, KeyboardInterrupt) as lf:
                ad.compute(o, p, F, **kw)
            return lf.seen
        a, k = ad.args(p, F)
        k.update(kw)
        ctx.sim.arm(1 << 60, 1, 1 if kind == "alloc_in" else 2)
        try:
            o.compute(*a, **k)
        finally:
            seen, _ = ctx.sim.disarm()
        return seen


class Outcome:
    def __init__(self):
        self.exc = None
        self.kind = None
        self.fired = False
        self.ran = False  # a parallel region had begun when it failed
        self.where = ""


def faulty(ctx, ad, p, o, F, fault, **kw):
    """One compute call with a fault in it."""
    r = Outcome()
    r.kind = k = fault["f"]
    a, kk = ad.args(p, F)
    before = None
    try:
        if k == "reject":
            a, kk, r.where = rejected(ad, p, F, fault["s"], o)
            kk.update(kw)
            r.fired = True
            o.compute(*a, **kk)
        elif k == "nan":
            # an orientation that is no number; found out bond by bond
            if ad.name == "BondOrder":
                q = S.quats(F.f["s"], 400)[: F.n]
                kk["orientations"] = q
            else:
                a = list(a)
                q = a[1] = np.array(a[1])
            q[min(int(fault["u"] * len(q)), len(q) - 1)] = np.nan
            kk.update(kw)
            r.fired = True
            before = ctx.sim.stats()["regions"]
            o.compute(*a, **kk)
        elif k == "interrupt":
            n = dry(ctx, ad, p, F, kw, k)
            kk.update(kw)
            before = ctx.sim.stats()["regions"]
            with LineFault(1 + int(fault["u"] * n), KeyboardInterrupt) as lf:
                try:
                    o.compute(*a, **kk)
                finally:
                    r.fired, r.where = bool(lf.fired), str(lf.where)
        else:
            n = dry(ctx, ad, p, F, kw, k)
            kk.update(kw)
            before = ctx.sim.stats()["regions"]
            ctx.sim.arm(1 + int(fault["u"] * n), fault["n"], 1 if k == "alloc_in" else 2)
            try:
                o.compute(*a, **kk)
            finally:
                _, f = ctx.sim.disarm()
                r.fired = f > 0
    except KeyboardInterrupt as e:
        if k != "interrupt":
            raise
        r.exc = e
    except MemoryError as e:
        if not k.startswith("alloc"):
            raise
        r.exc = e
    except Exception as e:  # noqa: BLE001
        if k not in ("reject", "nan"):  # anything else is the simulator's finding
            raise
        r.exc = e
    if before is not None:
        # a list without bonds is gone through without a region
        nl = kk.get("neighbors")
        r.ran = ctx.sim.stats()["regions"] > before or isinstance(nl, freud.locality.NeighborList) and len(nl) == 0
    if r.fired and r.exc is not None:
        ctx.fault(k if k != "reject" else "reject_" + r.where)
    elif r.fired:
        ctx.probe("accepted_" + k)
    return r
