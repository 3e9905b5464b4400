"""The forms in which a system may be given: a box and points in any of the ways freud documents."""

import numpy as np


def _cls(path):
    mod, name = path.rsplit(".", 1)
    return type(name, (), {"__module__": mod})


TIMESTEP = [_cls("MDAnalysis.coordinates.timestep.Timestep"), _cls("MDAnalysis.coordinates.base.Timestep")]
# a reader's own frames are subclasses
TIMESTEP.append(type("XTCTimestep", (TIMESTEP[0],), {"__module__": "MDAnalysis.coordinates.XTC"}))
GSD = [_cls("gsd.hoomd.Frame"), _cls("gsd.hoomd.Snapshot"), _cls("hoomd.snapshot.Snapshot")]
GARNETT = _cls("garnett.trajectory.Frame")
OVITO = [_cls("ovito.data.DataCollection"), _cls("PyScript.DataCollection"), _cls("ovito.plugins.PyScript.DataCollection")]


class Thing:
    """Attributes."""

    def __init__(self, **k):
        self.__dict__.update(k)


def ours(o):
    return isinstance(o, Thing) or type(o) in (*TIMESTEP, *GSD, GARNETT, *OVITO)


def fill(cls, **k):
    o = cls()
    o.__dict__.update(k)
    return o


FORMS = ("pair", "pair", "pair", "duck", "mda", "gsd", "garnett", "ovito", "hoomd2")
BOXES = ("list6", "array6", "list3", "list2", "dict", "dict0", "attrs", "matrix", "freud")
POINTS = ("f32", "f64", "list", "fortran", "strided", "tuples")


def gen(rng):
    return {"f": rng.choice(FORMS), "b": rng.choice(BOXES), "p": rng.choice(POINTS), "v": rng.randrange(6)}


def points(style, pts):
    if style == "f64":
        return pts.astype(np.float64)
    if style == "list":
        return pts.tolist()
    if style == "tuples":
        return tuple(tuple(float(x) for x in p) for p in pts)
    if style == "fortran":
        return np.asfortranarray(pts)
    if style == "strided":
        b = np.full((2 * len(pts), 4), 7.7, np.float32)
        b[::2, 1:] = pts
        return b[::2, 1:]
    return pts


def box_numbers(geo):
    s = geo.spec
    L = [float(x) for x in s["L"]]
    t = [float(x) for x in s["tilt"]]
    if geo.d2:
        L[2] = t[1] = t[2] = 0.0
    return L, t


def box(style, geo, v=0):
    L, t = box_numbers(geo)
    if style == "freud":
        return geo.box()
    if style in ("list3", "list2") and any(t):
        style = "list6"
    if style == "list2" and not geo.d2:
        style = "list3"
    if style == "list2":
        return L[:2]
    if style == "list3":
        return tuple(L) if v % 2 else L
    if style == "list6":
        return L + t
    if style == "array6":
        return np.array(L + t, [np.float32, np.float64][v % 2])
    d = dict(zip(("Lx", "Ly", "Lz", "xy", "xz", "yz"), L + t))
    if style == "dict":
        return dict(d, dimensions=2 if geo.d2 else 3) if v % 2 else d
    if style == "dict0":  # what is zero may be left out
        return {k: x for k, x in d.items() if x or k in ("Lx", "Ly")}
    if style == "attrs":
        d = Thing(**d)
        if v % 2:
            d.dimensions = 2 if geo.d2 else 3
        return d
    H = geo.H.copy()
    if geo.d2:
        H[:, 2] = 0
    return H if v % 2 else H.tolist()


def cell(geo):
    """Lengths and angles (degrees)."""
    a = geo.H.T
    n = np.linalg.norm(a, axis=1)
    c = [a[i] @ a[j] / n[i] / n[j] for i, j in ((1, 2), (0, 2), (0, 1))]
    return np.array([*n, *np.degrees(np.arccos(c))], np.float32)


def inexact(form, geo):
    """Whether the box is given as a matrix: then its numbers come out but for rounding."""
    f = form["f"]
    return f in ("ovito", "mda", "realmda") or f in ("pair", "duck", "garnett") and form["b"] == "matrix"


def make(form, geo, pts):
    """The system, and the arrays that it is made of."""
    f, v = form["f"], form["v"]
    P = points(form["p"], pts)
    L, t = box_numbers(geo)
    if f == "mda" and geo.d2:  # it knows no plane
        f = "gsd"
    if f == "pair":
        b = box(form["b"], geo, v)
        return (b, P) if v % 3 else [b, P]
    if f == "duck":
        return Thing(box=box(form["b"], geo, v), points=P)
    if f == "mda":
        # 32-bit numbers there; the lattice vectors are the rows
        H = np.ascontiguousarray(geo.H.T, dtype=np.float32)
        return fill(TIMESTEP[v % 3], triclinic_dimensions=H, positions=np.array(P, np.float32), dimensions=cell(geo))
    if f == "gsd":
        b = np.array(L + t, np.float32)
        if geo.d2:
            b[2] = [1, 0, 3.5][v % 3]
        if geo.d2 and v % 2:
            b = b.tolist()
        return fill(GSD[v % 3], configuration=Thing(box=b, dimensions=2 if geo.d2 else 3, step=7), particles=Thing(position=P, N=len(pts)))
    if f == "garnett":
        b = box(form["b"], geo, v)
        return fill(GARNETT, box=b, **{"positions" if v % 2 else "position": P})
    if f == "ovito":
        H = geo.H.copy()
        if geo.d2:
            H[:, 2] = [0, 0, [1, 0, 5][v % 3]]
        H = np.concatenate([H, np.full((3, 1), -1.5)], 1)
        return fill(OVITO[v % 3], cell=Thing(matrix=H, is2D=geo.d2), particles=Thing(positions=P))
    d = dict(zip(("Lx", "Ly", "Lz", "xy", "xz", "yz"), L + t), dimensions=2 if geo.d2 else 3)
    if geo.d2:
        d["Lz"] = [1.0, 0.0, 4.0][v % 3]
    return Thing(box=Thing(**d), particles=Thing(position=P, N=len(pts)))


# ------------------------------------------------------------------ a frame object that is filled again for each step
class Live:
    """Attributes whose reading is counted, and may fail."""

    def __getattribute__(self, name):
        if not name.startswith("_"):
            d = object.__getattribute__(self, "__dict__")
            if name in d:
                d["_source"].touch(name)
        return object.__getattribute__(self, name)


def enliven(o, src):
    if not ours(o):
        return o
    t = type(o)
    x = type(t.__name__, (Live, t), {"__module__": t.__module__})()
    x.__dict__.update({k: enliven(v, src) for k, v in vars(o).items()}, _source=src)
    return x


def refill(old, new):
    """What the frame object holds afterwards: its own memory with the new contents, where that is possible."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    if isinstance(old, list) and isinstance(new, list):
        old[:] = [refill(a, b) if isinstance(a, (list, np.ndarray)) else b for a, b in zip(old, new)] + new[len(old):]
        return old
    if isinstance(old, dict) and isinstance(new, dict):
        old.clear()
        old.update(new)
        return old
    if isinstance(old, Live):
        d = object.__getattribute__(old, "__dict__")
        for k, v in vars(new).items():
            d[k] = refill(d.get(k), v)
        return old
    if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == 2 == len(new):
        return tuple(refill(a, b) for a, b in zip(old, new))
    return new


class Source:
    """A trajectory whose frames all appear in one and the same object."""

    def __init__(self, form, geos, pts):
        self.form, self.geos, self.pts = form, geos, pts
        self.now = None
        self.held = None
        self.count = 0
        self.at = None  # which reading fails
        self.exc = None
        self.raised = False

    def touch(self, name):
        self.count += 1
        if self.count == self.at:
            self.raised = True
            raise self.exc(f"cannot read {name}")

    def plain(self, k):
        return make(self.form, self.geos[k], self.pts[k].copy())

    def seek(self, k):
        new = self.plain(k)
        self.held = enliven(new, self) if self.held is None else refill(self.held, new)
        self.now = k
        return self.held

    def noise(self, g):
        """The object is being filled with something else."""
        k = int(g.integers(len(self.pts)))
        p = (self.pts[k] * g.uniform(-0.9, 0.9, (len(self.pts[k]), 1))).astype(np.float32)
        self.held = refill(self.held, make(self.form, self.geos[k], p))
        self.now = None


REAL = {}


def load_real():
    """The frame classes of the libraries that are installed."""
    try:
        from MDAnalysis.coordinates.timestep import Timestep

        REAL["realmda"] = Timestep
    except ImportError:
        pass
    try:
        import gsd.hoomd

        REAL["realgsd"] = gsd.hoomd.Frame
    except ImportError:
        pass


class RealSource(Source):
    def seek(self, k):
        self.put(self.geos[k], self.pts[k])
        self.now = k
        return self.held

    def put(self, geo, pts):
        if self.form["f"] == "realmda":
            if self.held is None or self.held.n_atoms != len(pts):
                self.held = REAL["realmda"](len(pts))
            self.held.positions = pts
            self.held.dimensions = cell(geo)
            return
        if self.held is None:
            self.held = REAL["realgsd"]()
        h = self.held
        L, t = box_numbers(geo)
        if geo.d2:
            L[2] = [1, 0, 3.5][self.form["v"] % 3]
        h.configuration.box = refill(h.configuration.box, np.array(L + t, np.float32))
        h.configuration.dimensions = 2 if geo.d2 else 3
        h.particles.N = len(pts)
        h.particles.position = refill(h.particles.position, pts.copy())

    def plain(self, k):
        x = RealSource(self.form, self.geos, self.pts)
        return x.seek(k)

    def noise(self, g):
        k = int(g.integers(len(self.pts)))
        self.put(self.geos[k], (self.pts[k] * g.uniform(-0.9, 0.9, (len(self.pts[k]), 1))).astype(np.float32))
        self.now = None


def source(form, geos, pts):
    if form["f"] in ("realmda", "realgsd"):
        if form["f"] in REAL and not (form["f"] == "realmda" and geos[0].d2):
            return RealSource(form, geos, pts)
        form = dict(form, f="gsd")
    return Source(form, geos, pts)
