"""Bulk box operations, their per-vector definition in float64, and seeded calls of them."""

import numpy as np

from . import systems as S
from .systems import Geo

OPS = (
    "make_absolute make_fractional get_images wrap unwrap center_of_mass center compute_distances "
    "compute_all_distances contains"
).split()
OUT_OPS = ("make_absolute", "make_fractional", "wrap", "unwrap")


def gen_op(rng, hi=120):
    op = rng.choice(OPS)
    n = 1 if rng.random() < 0.06 else rng.randint(1, hi) if rng.random() < 0.9 else rng.randint(hi, 4 * hi)
    if op == "compute_all_distances":
        n = min(n, 40)
    d = {
        "op": op, "box": S.gen_box(rng), "n": n, "s": rng.getrandbits(32), "per": 7 if rng.random() < 0.6 else rng.randrange(8),
        "form": rng.choice(["f32", "f32", "f64", "list", "strided", "ro"]), "far": rng.choice([0.4, 1, 3, 8]),
    }
    if rng.random() < 0.08:
        d["lin"] = True  # a single vector instead of an array of them
        d["n"] = 1
    if op in OUT_OPS:
        d["out"] = rng.choice(["none", "none", "new", "same"])
    if op == "compute_all_distances":
        d["nq"] = rng.randint(1, 40)
    if op in ("center", "center_of_mass"):
        d["m"] = rng.random() < 0.5
        d["far"] = 0.4
    if op == "unwrap":
        d["img1"] = rng.random() < 0.2
    return d


def on_grid(rng, d):
    """Vectors that single precision gives exactly, on the faces of the box and its images, too."""
    b = d["box"]
    b["L"] = [rng.choice([4, 8, 16]) for _ in range(3)]
    b["tilt"] = [0, 0, 0]
    if b["d2"]:
        b["L"][2] = 0
    d["grid"] = rng.choice([2, 4, 8])


class Op:
    def __init__(self, d):
        self.d = d
        self.per = [bool(d["per"] & (1 << k)) for k in range(3)]
        self.geo = Geo(d["box"], self.per)
        g = np.random.default_rng(d["s"])
        n = d["n"]
        f = (g.random((n, 3)) - 0.5) * 2 * d["far"]
        if d.get("grid"):
            f = np.rint(f * d["grid"]) / d["grid"]
        if d["op"] == "make_absolute":
            self.v = (f + 0.5).astype(np.float32)
        else:
            p = f @ self.geo.H.T
            if self.geo.d2:
                p[:, 2] = 0
            self.v = p.astype(np.float32)
        m = d.get("nq", n)
        q = ((g.random((m, 3)) - 0.5) * 2 * d["far"]) @ self.geo.H.T
        if self.geo.d2:
            q[:, 2] = 0
        self.q = q.astype(np.float32)
        self.img = g.integers(-3, 4, (1 if d.get("img1") else n, 3)).astype(np.int32)
        self.mass = (0.2 + g.random(n)).astype(np.float32)

    def box(self):
        b = self.geo.box()
        b.periodic = self.per
        return b

    def form(self, a):
        f = self.d["form"]
        if self.d.get("lin"):
            a = a[0]
        if f == "list":
            return a.tolist()
        if f == "f64":
            return a.astype(np.float64)
        if f == "strided":
            b = np.full((*a.shape, 2), 3e7, a.dtype)
            b[..., 0] = a
            return b[..., 0]
        c = a.copy()
        if f == "ro":
            c.flags.writeable = False
        return c

    def one(self, k, k2=None):
        """The operation on one vector, called alone."""
        b, op, v = self.box(), self.d["op"], self.v[k : k + 1].copy()
        if op == "unwrap":
            return b.unwrap(v, self.img[k if len(self.img) > 1 else 0].reshape(1, 3).copy())[0]
        if op == "compute_distances":
            return b.compute_distances(self.q[k : k + 1].copy(), v)[0]
        if op == "compute_all_distances":
            return b.compute_all_distances(self.q[k2 : k2 + 1].copy(), v)[0, 0]
        return getattr(b, op)(v)[0]

    def real(self):
        """Runs it; returns (result, what the caller's arrays hold afterwards differs from before)."""
        b, d = self.box(), self.d
        op = d["op"]
        v = self.form(self.v)
        args, kw = [v], {}
        if op == "unwrap":
            args.append(self.img[0].copy() if d.get("lin") else self.img.copy())
        if op.startswith("compute_"):
            args = [self.form(self.q), v]
        if op in ("center", "center_of_mass") and d["m"]:
            kw["masses"] = self.mass.copy()
        out = d.get("out", "none")
        same = False
        if op in ("center", "center_of_mass"):
            args[0] = v = np.atleast_2d(np.asarray(v, np.float32)) if d.get("lin") else v
        o = None
        if out == "new" or (out == "same" and not (isinstance(v, np.ndarray) and v.dtype == np.float32 and d["form"] == "f32" and not d.get("lin"))):
            o = kw["out"] = np.full((d["n"], 3), 9e9, np.float32)
        elif out == "same":
            o = kw["out"] = v
            same = True
        keep = [np.array(a, copy=True) for a in args]
        r = getattr(b, op)(*args, **kw)
        msg = None
        for k, (a, c) in enumerate(zip(args, keep)):
            if same and k == 0:
                continue
            if not np.array_equal(np.asarray(a), c):
                msg = f"argument {k} was changed by the call"
        r = np.asarray(r)
        if o is not None:
            if not np.array_equal(np.atleast_2d(o), np.atleast_2d(r), equal_nan=True):
                msg = "the array given as out does not hold what was returned"
            if not np.shares_memory(o, r):
                msg = "the result is not in the array given as out"
        return np.array(r, copy=True), msg

    def expect_shape(self):
        d, n = self.d, self.d["n"]
        op = d["op"]
        if op == "center_of_mass":
            return (3,)
        if op == "compute_distances":
            return (n,)
        if op == "contains":
            return (n,)
        if op == "compute_all_distances":
            return (d.get("nq", n) if not d.get("lin") else 1, n)
        if d.get("lin") and op != "center":
            return (3,)
        return (n, 3)

    def model(self, r):
        """None, or what is wrong with the result r, from the definition in float64."""
        geo, d = self.geo, self.d
        op = d["op"]
        v = self.v.astype(float)
        if d.get("lin"):
            v = v[:1]
        r = r.reshape(-1, 3) if r.shape and r.shape[-1] == 3 and op not in ("compute_all_distances", "compute_distances", "contains") else r
        far = np.abs(v).max(initial=0) + geo.scale
        tol = 6e-6 * far + 1e-6
        z2 = np.array([1, 1, 0]) if geo.d2 else np.ones(3)
        if op == "make_absolute":
            e = (v - 0.5 * z2) @ geo.H.T
            if geo.d2:
                e[:, 2] = 0
            return near(r, e, 4e-6 * (np.abs(v).max(initial=0) + 1) * geo.scale * 4)
        if op == "make_fractional":
            e = geo.frac(v) + 0.5
            e[:, 2] *= z2[2]
            return near(r, e, tol / min(geo.planes) * 4)
        if op == "unwrap":
            im = self.img.astype(float) * z2
            return near(r, v + im @ geo.H.T, tol * 8)
        f = geo.frac(v)
        if d.get("grid") and op in ("get_images", "contains", "wrap"):
            return self.exact(r, v, f)
        ef = tol / min(geo.planes) * 4
        if op in ("get_images", "contains"):
            lo, hi = np.rint(f - ef), np.rint(f + ef)
            if geo.d2:
                lo[:, 2] = hi[:, 2] = 0
            if op == "get_images":
                bad = (r < lo) | (r > hi)
                if bad.any():
                    k = tuple(np.argwhere(bad)[0].tolist())
                    return f"vector {k[0]}: image {r[k[0]]}, fractional position {f[k[0]] + 0.5}"
                return None
            must = (lo == 0).all(1) & (hi == 0).all(1)
            may = ((lo <= 0) & (hi >= 0)).all(1)
            bad = (must & ~r.astype(bool)) | (~may & r.astype(bool))
            if bad.any():
                k = int(np.argwhere(bad)[0][0])
                return f"vector {k}: contained {bool(r[k])}, fractional position {f[k] + 0.5}"
            return None
        if op == "wrap":
            return self.wrapped(r, v, tol)
        if op in ("compute_distances", "compute_all_distances"):
            q = self.q.astype(float)
            if d.get("lin"):
                q = q[:1]
            if op == "compute_distances":
                w = v - q
            else:
                w = v[None, :, :] - q[:, None, :]
            x, tie = geo.wrap(w)
            if not any(self.per):
                x = w
            e = np.sqrt((x * x).sum(-1))
            ok = np.where(tie > 4 * ef, np.abs(r - e) <= 8 * tol, True)
            if not ok.all():
                k = tuple(np.argwhere(~ok)[0].tolist())
                return f"distance {k}: {r[k]} instead of {e[k]}"
            return None
        m = self.mass.astype(float)[: len(v)] if d["m"] else np.ones(len(v))
        z = (np.exp(2j * np.pi * (f + 0.5)) * m[:, None]).sum(0) / m.sum()
        if (np.abs(z[: 2 if geo.d2 else 3]) < 0.02).any():
            return None
        com = (np.angle(z) / (2 * np.pi)) % 1.0
        com = (com - 0.5) @ geo.H.T
        ct = 2e-4 * geo.scale
        full = Geo(d["box"])
        if op == "center_of_mass":
            w, _ = full.wrap(r.reshape(3) - com)
            if geo.d2:
                w[2] = 0
            if np.abs(w).max() > ct:
                return f"centre of mass {r} instead of {com} (up to lattice vectors)"
            return None
        # centred vectors: each is the vector minus one centre, up to a lattice vector
        x, _ = full.wrap(r - (v - com))
        if geo.d2:
            x[:, 2] = 0
        if np.abs(x).max(initial=0) > 4 * ct:
            k = int(np.abs(x).max(1).argmax())
            return f"vector {k}: {r[k]} is not {v[k]} minus the centre of mass {com}, up to lattice vectors"
        f = geo.frac(r)
        dims = 2 if geo.d2 else 3
        for a in range(dims):
            if self.per[a] and (np.abs(f[:, a]) > 0.5 + 1e-5).any():
                return f"a centred vector lies outside of the box along periodic direction {a}"
        return None

    def exact(self, r, v, f):
        """The lower faces belong to the box and, for images, the upper ones to the next; both are contained."""
        op = self.d["op"]
        im = np.floor(f + 0.5)
        if self.geo.d2:
            im[:, 2] = 0
        if op == "contains":
            e = (np.abs(f[:, : 2 if self.geo.d2 else 3]) <= 0.5).all(1)
        elif op == "get_images":
            e = im
        else:
            e = v - (im * self.per) @ self.geo.H.T
        r = r.reshape(e.shape)
        bad = (r != e).reshape(len(v), -1).any(1)
        if bad.any():
            k = int(np.argmax(bad))
            return f"vector {k} {v[k].tolist()}: {r[k]} instead of {e[k]}"
        return None

    def wrapped(self, r, v, tol):
        geo = self.geo
        if not any(self.per):
            return near(r, v, 0)
        fr, fv = geo.frac(r), geo.frac(v)
        e = tol / min(geo.planes) * 8
        for a in range(2 if geo.d2 else 3):
            d = fr[:, a] - fv[:, a]
            if self.per[a]:
                if (np.abs(d - np.rint(d)) > e).any():
                    return f"a wrapped vector is not shifted by a whole number of lattice vectors along {a}"
                if (np.abs(fr[:, a]) > 0.5 + e).any():
                    return f"a wrapped vector lies outside of the box along {a}"
            elif (np.abs(d) > e).any():
                return f"a vector was moved along {a}, in which the box is not periodic"
        if geo.d2 and np.abs(r[:, 2]).max(initial=0) > 0:
            return "a wrapped vector of a two-dimensional box left the plane"
        return None


def near(a, b, tol):
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    ok = np.abs(a - b) <= tol
    if not ok.all():
        k = tuple(np.argwhere(~ok)[0].tolist())
        return f"value {k}: {a[k]} instead of {b[k]}"
    return None
