"""Seeded systems, and an independent float64 model of who neighbours whom."""

import numpy as np

import freud

from . import forms

TAU = 2 * np.pi


# ------------------------------------------------------------------ specifications
def gen_box(rng, d2=None, ortho=None, cubic=False, big=1.0):
    if d2 is None:
        d2 = rng.random() < 0.35
    if cubic:
        a = round(rng.uniform(4, 12) * big, 3)
        return {"L": [a, a, a], "tilt": [0, 0, 0], "d2": False}
    L = [round(rng.uniform(4, 12) * big, 3) for _ in range(3)]
    if rng.random() < 0.15:  # elongated
        L[rng.randrange(2 if d2 else 3)] *= 2.5
    if ortho is None:
        ortho = rng.random() < 0.5
    tilt = [0, 0, 0] if ortho else [round(rng.uniform(-0.7, 0.7), 3) for _ in range(3)]
    if d2:
        L[2] = 0
        tilt[1] = tilt[2] = 0
    return {"L": L, "tilt": tilt, "d2": bool(d2)}


def flip(b):
    """A box of the other dimension, no smaller."""
    if b["d2"]:
        return {"L": [b["L"][0], b["L"][1], max(b["L"])], "tilt": [b["tilt"][0], 0, 0], "d2": False}
    return {"L": [b["L"][0], b["L"][1], 0], "tilt": [b["tilt"][0], 0, 0], "d2": True}


BIG = 0.01


def gen_n(rng, lo=1, hi=70, big=True):
    r = rng.random()
    if big and r < BIG:  # what only many points reach: thresholds, full buffers, deep trees
        return int(2 * hi * 10 ** rng.random())
    if r < 0.08:
        return max(lo, rng.randint(1, 4))
    if r < 0.9:
        return rng.randint(max(lo, 5), hi)
    return rng.randint(hi, 2 * hi)


def gen_sys(rng, n=None, lo=1, hi=70, kinds=("uni", "uni", "uni", "blob", "jit"), big=True, **kw):
    return {
        "box": gen_box(rng, **kw),
        "n": n if n is not None else gen_n(rng, lo, hi, big),
        "ps": rng.getrandbits(32),
        "pk": rng.choice(kinds),
    }


# ------------------------------------------------------------------ geometry (float64)
class Geo:
    """Float64 geometry of a periodic box, written from the lattice vectors."""

    def __init__(self, spec, periodic=None):
        periodic = periodic or spec.get("per") or (True, True, True)
        L = [float(np.float32(x)) for x in spec["L"]]
        xy, xz, yz = [float(np.float32(x)) for x in spec["tilt"]]
        self.d2 = spec["d2"]
        self.spec = spec
        self.Lz = L[2] if not self.d2 else 1.0
        self.H = np.array([[L[0], xy * L[1], xz * self.Lz], [0, L[1], yz * self.Lz], [0, 0, self.Lz]])
        self.Hi = np.linalg.inv(self.H)
        d = 1 / np.linalg.norm(self.Hi, axis=1)
        self.planes = d[:2] if self.d2 else d
        self.rcut = float(self.planes.min() / 2)
        self.volume = float(np.linalg.det(self.H[:2, :2]) if self.d2 else np.linalg.det(self.H))
        self.periodic = np.array(periodic, bool)
        if self.d2:
            self.periodic = np.array([periodic[0], periodic[1], False])
        self.scale = float(max(L))

    def frac(self, v):
        return np.asarray(v, float) @ self.Hi.T

    def wrap(self, v):
        """Minimum image along the lattice vectors; also returns how close to a tie it was."""
        f = self.frac(v)
        s = np.where(self.periodic, np.rint(f), 0.0)
        g = f - s
        tie = np.where(self.periodic, 0.5 - np.abs(g), 1.0).min(axis=-1)
        out = g @ self.H.T
        if self.d2:
            out[..., 2] = 0
        return out, tie

    def box(self):
        s = self.spec
        if self.d2:
            b = freud.box.Box(s["L"][0], s["L"][1], 0, s["tilt"][0], 0, 0, is2D=True)
        else:
            b = freud.box.Box(*s["L"], *s["tilt"])
        if s.get("per"):
            b.periodic = s["per"]
        return b


def make_points(spec, geo, n=None, ps=None, pk=None):
    n = spec["n"] if n is None else n
    g = np.random.default_rng(spec["ps"] if ps is None else ps)
    pk = spec.get("pk", "uni") if pk is None else pk
    if pk == "blob":
        c = g.random((4, 3))
        which = g.integers(0, 4, 4096)
        f = g.normal(size=(max(n, 1), 3)) * 0.06
        f = (f + c[which[np.arange(max(n, 1)) % 4096]]) % 1.0
    elif pk in ("jit", "lat"):
        m = max(1, int(np.ceil(n ** (1 / (2 if geo.d2 else 3)))))
        i = np.arange(max(n, 1))
        f = np.stack([i % m, (i // m) % m, i // (m * m) if not geo.d2 else 0 * i], axis=1) / m
        f = f + 0.5 / m
        if pk == "jit":
            f = f + (g.random((max(n, 1), 3)) - 0.5) * 0.3 / m
    elif pk == "grid":
        m = np.diag(geo.H) / spec["grid"]
        f = np.floor(g.random((max(n, 1), 3)) * m) / m
        f[(f == 0) & (g.random(f.shape) < 0.3)] = 1  # the other face
        p = (f[:n] - 0.5) @ geo.H.T
        if geo.d2:
            p[:, 2] = 0
        return np.ascontiguousarray(p, dtype=np.float32)
    else:
        f = g.random((max(n, 1), 3))
    f = np.clip(f[:n], 0.0005, 0.9995) - 0.5
    p = f @ geo.H.T
    if geo.d2:
        p[:, 2] = 0
    return np.ascontiguousarray(p, dtype=np.float32)


def quats(seed, n):
    g = np.random.default_rng(seed)
    q = g.normal(size=(n, 4))
    q /= np.linalg.norm(q, axis=1)[:, None]
    return np.ascontiguousarray(q, dtype=np.float32)


def qrot(q, v):
    q = np.asarray(q, float)
    v = np.asarray(v, float)
    s, u = q[..., :1], q[..., 1:]
    return (s * s - (u * u).sum(-1, keepdims=True)) * v + 2 * s * np.cross(u, v) + 2 * (u * v).sum(-1, keepdims=True) * u


def qmul(a, b):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    s = a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(-1)
    v = a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([s[..., None], v], -1)


def qconj(q):
    return np.asarray(q, float) * np.array([1, -1, -1, -1.0])


# ------------------------------------------------------------------ neighbours
def gen_neigh(rng, kinds=("ball", "ball", "nearest", "nlist"), kmax=12, default_ok=False, weights=True):
    if default_ok and rng.random() < 0.35:
        return None
    k = rng.choice(kinds)
    if k == "ball":
        d = {"t": "ball", "f": round(rng.uniform(0.15, 0.97), 3)}
        if rng.random() < 0.3:
            d["fmin"] = round(rng.uniform(0.05, 0.9), 3)
        if rng.random() < 0.3:
            d["ii"] = rng.random() < 0.5
        if rng.random() < 0.3:
            d["mode"] = True
        return d
    if k == "nearest":
        d = {"t": "nearest", "k": rng.randint(1, kmax)}
        if rng.random() < 0.25:
            d["ii"] = rng.random() < 0.5
        if rng.random() < 0.3:
            d["mode"] = True
        if rng.random() < 0.25:
            d["rg"] = round(rng.uniform(0.05, 0.9), 3)
        if rng.random() < 0.2:
            d["scale"] = round(rng.uniform(1.01, 1.8), 3)
        return d
    return {
        "t": "nlist", "f": round(rng.uniform(0.2, 0.95), 3), "keep": round(rng.uniform(0.2, 1), 2),
        "w": bool(weights and rng.random() < 0.5), "s": rng.getrandbits(32), "shuf": rng.random() < 0.5,
    }


NQ_KINDS = ("tuple", "tuple", "aabb", "link", "link", "raw")


def gen_nq(rng, cell=False):
    if rng.random() < 0.06:
        return {"t": "form", "form": forms.gen(rng), "w": 0}
    k = rng.choice(NQ_KINDS + (("cell",) if cell else ()))
    return {"t": k, "w": round(rng.uniform(0.33, 0.95), 3) if k == "link" and rng.random() < 0.6 else 0}


def gen_query(rng, p=0.35, hi=50, lo=1, big=True):
    if rng.random() < p:
        return {"n": gen_n(rng, lo, hi, big), "ps": rng.getrandbits(32)}
    return None


def graph_edges(kind, nq, n, m, g):
    """Edges (query point, point) without repetition."""
    if kind == "path":
        o = g.permutation(n)
        i, j = o[:-1], o[1:]
    elif kind == "paths":
        o = g.permutation(n)
        cut = g.random(max(n - 1, 0)) < 0.85
        i, j = o[:-1][cut], o[1:][cut]
    elif kind == "star":
        c = int(g.integers(n))
        i = np.array([x for x in range(n) if x != c], int)
        j = np.full(len(i), c)
    elif kind == "tree":
        o = g.permutation(n)
        i = o[1:]
        j = o[(g.random(max(n - 1, 0)) * np.arange(1, n)).astype(int)]
    elif kind == "pairs":
        o = g.permutation(n)
        h = n // 2
        i, j = o[:h], o[h : 2 * h]
    else:
        i, j = g.integers(0, nq, m), g.integers(0, n, m)
    flip = g.random(len(i)) < 0.5
    i, j = np.where(flip, j, i), np.where(flip, i, j)
    if len(i):
        e = np.unique(np.stack([i, j], 1), axis=0)
        i, j = e[:, 0], e[:, 1]
    return i.astype(int), j.astype(int)


class Frame:
    """Arrays of one frame, built from its JSON specification."""

    def __init__(self, f, r_default=None):
        self.f = f
        self.geo = Geo(f["sys"]["box"])
        self.pts = make_points(f["sys"], self.geo)
        self.n = len(self.pts)
        q = f.get("q")
        if q:
            self.qpts = make_points(f["sys"], self.geo, n=q["n"], ps=q["ps"], pk="grid" if f["sys"].get("pk") == "grid" else "uni")
        else:
            self.qpts = None
        self.Q = self.pts if self.qpts is None else self.qpts
        self.nQ = len(self.Q)
        self.amb = False  # which pairs are neighbours is not determined by the definition
        self._pairs = None
        self.r_default = r_default
        self._prep()

    # every pair (query i, point j): float64
    def all_pairs(self):
        v, tie = self.geo.wrap(self.pts.astype(float)[None, :, :] - self.Q.astype(float)[:, None, :])
        return v, np.sqrt((v * v).sum(-1)), tie

    def _safe_r(self, r, d, lim):
        """A radius near r that no pair distance is close to."""
        eps = 1e-5 * self.geo.scale + 1e-6
        d = d[d < 2 * lim]
        for k in range(400):
            x = float(np.float32(r + (k // 2 + k % 2) * (1 if k % 2 else -1) * eps))
            if x <= 0 or x >= lim:
                continue
            if not (np.abs(d - x) < eps).any():
                return x, True
        return float(np.float32(r)), False

    def _prep(self):
        f = self.f
        nb = f.get("nb")
        lim = self.geo.rcut * 0.995
        self.neighbors = None
        self.qargs = None
        self.nl = None
        if f.get("no_pairs"):
            return
        v, d, tie = self.all_pairs()
        ii_default = self.qpts is None
        n = self.n
        if nb is None:
            if self.r_default is None:
                self.mask = None
                return
            if self.r_default == "nearest":
                nb = {"t": "nearest", "k": f["k_default"], "hidden": True}
            else:
                nb = {"t": "ball", "r": self.r_default, "hidden": True}
        eye = np.zeros(d.shape, bool)
        m = min(d.shape)
        eye[np.arange(m), np.arange(m)] = True
        if nb["t"] == "ball":
            if "r" in nb:
                r, ok = nb["r"], f["sys"].get("pk") == "grid" or not (np.abs(d - nb["r"]) < 1e-5 * self.geo.scale).any()
                if r >= self.geo.rcut:
                    self.too_large = True
            else:
                r, ok = self._safe_r(nb["f"] * lim, d, lim)
            self.amb |= not ok
            rmin = 0.0
            if nb.get("fmin"):
                rmin, ok = self._safe_r(nb["fmin"] * r, d, lim)
                self.amb |= not ok
            ii = nb.get("ii", ii_default)
            mask = (d < r) & (d >= rmin)
            if ii:
                mask &= ~eye
            self.r = r
            self.mask = mask
            self.qargs = {"r_max": r}
            if rmin:
                self.qargs["r_min"] = rmin
            if "ii" in nb:
                self.qargs["exclude_ii"] = ii
            if nb.get("mode"):
                self.qargs["mode"] = "ball"
        elif nb["t"] == "nearest":
            ii = nb.get("ii", ii_default)
            k = nb["k"]
            dd = np.where(eye, np.inf, d) if ii else d
            order = np.argsort(dd, axis=1, kind="stable")
            ds = np.take_along_axis(dd, order, 1)
            kk = min(k, ds.shape[1])
            mask = np.zeros(d.shape, bool)
            eps = 2e-5 * self.geo.scale
            if kk < k or (ds.shape[1] and not np.isfinite(ds[:, kk - 1]).all()) or (ds[:, kk - 1] > lim).any():
                self.amb = True
            if ds.shape[1] > kk and (ds[:, kk] - ds[:, kk - 1] < eps).any():
                self.amb = True
            np.put_along_axis(mask, order[:, :kk], True, 1)
            self.mask = mask
            self.qargs = {"num_neighbors": k}
            if "ii" in nb:
                self.qargs["exclude_ii"] = ii
            if nb.get("mode"):
                self.qargs["mode"] = "nearest"
            if nb.get("rg"):
                self.qargs["r_guess"] = nb["rg"] * lim
            if nb.get("scale"):
                self.qargs["scale"] = nb["scale"]
        elif nb["t"] == "graph":
            # bonds that are any graph, regardless of where the points are
            g = np.random.default_rng(nb["s"])
            i, j = graph_edges(nb["g"], self.nQ, n, nb.get("m", n), g)
            o = np.lexsort((g.random(len(i)) if nb.get("shuf") else j, i))
            i, j = i[o], j[o]
            vec = v[i, j].astype(np.float32).reshape(-1, 3)
            self.nl = (i.astype(np.uint32), j.astype(np.uint32), vec, np.ones(len(i), np.float32))
            self.nlist = freud.locality.NeighborList.from_arrays(self.nQ, n, *self.nl)
            mask = np.zeros(d.shape, bool)
        else:
            r, _ = self._safe_r(nb["f"] * lim, d, lim)
            mask = d < r
            if ii_default:
                mask &= ~eye
            g = np.random.default_rng(nb["s"])
            i, j = np.nonzero(mask)
            keep = g.random(d.shape)[i, j] < nb["keep"]
            i, j = i[keep], j[keep]
            if nb.get("shuf"):  # any order of the bonds of one query point is a valid list
                key = g.random(len(i))
                o = np.lexsort((key, i))
                i, j = i[o], j[o]
            w = (0.1 + g.random(len(i))).astype(np.float32) if nb["w"] else np.ones(len(i), np.float32)
            vec = v[i, j].astype(np.float32)
            self.nl = (i.astype(np.uint32), j.astype(np.uint32), vec, w)
            self.nlist = freud.locality.NeighborList.from_arrays(self.nQ, self.n, *self.nl)
        if nb.get("hidden"):
            self.hidden = True
        self.d, self.v = d, v

    def pairs(self):
        """(i query, j point, vector from i to j, distance, weight) of the neighbours."""
        if self._pairs is None:
            if self.nl is not None:
                i, j, vec, w = self.nl
                vec = vec.astype(float)
                self._pairs = (i.astype(int), j.astype(int), vec, np.sqrt((vec**2).sum(1)), w.astype(float))
            else:
                i, j = np.nonzero(self.mask)
                self._pairs = (i, j, self.v[i, j], self.d[i, j], np.ones(len(i)))
        return self._pairs

    def system(self):
        """A new system argument; what owns it is the caller."""
        nq = self.f.get("nq") or {"t": "tuple"}
        box = self.geo.box()
        pts = self.pts.copy()
        t = nq["t"]
        if t == "tuple":
            return (box, pts)
        if t == "form":
            return forms.make(nq["form"], self.geo, pts)
        if t == "raw":
            return freud.locality.NeighborQuery.from_system((box, pts))
        if t == "aabb":
            return freud.locality.AABBQuery(box, pts)
        if t == "cell":
            return freud.locality.CellQuery(box, pts)
        if nq.get("w"):
            return freud.locality.LinkCell(box, pts, cell_width=nq["w"] * self.geo.rcut)
        # the default width is an estimate that small or elongated boxes do not admit
        w = np.cbrt(self.geo.volume / max(self.n // 10, 1))
        if 2 * w > 0.999 * self.geo.planes.min():
            return freud.locality.LinkCell(box, pts, cell_width=0.5 * self.geo.rcut)
        return freud.locality.LinkCell(box, pts)

    def neigh_arg(self):
        if self.f.get("nb") is None:
            return None
        if self.nl is not None:
            return self.nlist
        return dict(self.qargs)


def as_nq(s, cls=freud.locality.NeighborQuery):
    return s if isinstance(s, freud.locality.NeighborQuery) else cls.from_system(s)


# ------------------------------------------------------------------ histograms with undecidable edges
def hist_bounds(coords, tols, axes):
    """coords: list of arrays; axes: (lo, hi, bins, periodic). Returns (certain, possible) counts."""
    shape = tuple(a[2] for a in axes)
    lo = np.zeros(shape, int)
    hi = np.zeros(shape, int)
    if len(coords[0]) == 0:
        return lo, hi
    cand = []
    certain = np.ones(len(coords[0]), bool)
    inside = np.ones(len(coords[0]), bool)
    for x, t, (a, b, m, per) in zip(coords, tols, axes):
        w = (b - a) / m

        def binof(y):
            if per:
                y = a + np.mod(y - a, b - a)
            k = np.floor((y - a) / w).astype(int)
            if per:
                k = np.clip(k, 0, m - 1)
            return np.where((k < 0) | (k >= m), -1, k)

        k0, k1, k2 = binof(x - t), binof(x), binof(x + t)
        bad = ~np.isfinite(x)
        same = (k0 == k1) & (k1 == k2) & ~bad
        certain &= same
        inside &= k1 >= 0
        wide = per & (2 * t > 0.9 * (b - a)) & np.ones(len(x), bool)  # any angle at all
        certain &= ~wide
        cand.append((k0, k1, k2, wide, m))
    sel = certain & inside
    idx = tuple(c[1][sel] for c in cand)
    np.add.at(lo, idx, 1)
    np.add.at(hi, idx, 1)
    for p in np.nonzero(~certain)[0]:
        opts = [list(range(c[4])) if c[3][p] else sorted({int(c[k][p]) for k in range(3)}) for c in cand]
        cells = [()]
        for o in opts:
            cells = [(*c, k) for c in cells for k in o if k >= 0]
        for c in cells:
            hi[c] += 1
    return lo, hi
