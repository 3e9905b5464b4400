"""One adapter per analysis: how to make it, feed it, read it, and what it should say.

An adapter generates (params, frames) as JSON, calls the real class, reads its results as
arrays, and has an independent float64 model written from the documented definition.
model() returns {output: check}; a check is
  ("eq", array)                      equal
  ("close", array, rtol, atol)       equal up to rounding
  ("range", lo, hi)                  integer array between two bounds
  ("fn", f)                          f(outputs) -> None or a message
"""

import numpy as np

import freud

from . import forms
from . import systems as S
from .systems import Frame, Geo, TAU


def arr(x):
    return np.array(x, copy=True)


def box_arr(b):
    return np.array([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, float(b.is2D)])


def nl_out(nl, pre):
    return {
        pre + ".pairs": arr(nl[:]).reshape(-1, 2),
        pre + ".distances": arr(nl.distances),
        pre + ".vectors": arr(nl.vectors).reshape(-1, 3),
        pre + ".weights": arr(nl.weights),
        pre + ".n": np.array([nl.num_query_points, nl.num_points]),
    }


class Adapter:
    accum = False
    pair = True  # takes a system and neighbours
    nkw = dict()
    tol = {}  # outputs whose floating-point sum depends on the grouping: name -> rtol
    box_kw = {}
    d2 = None
    dim_fixed = False  # an object takes boxes of one dimension only, that of the first
    lo = 1
    hi = 60
    big = True  # now and then many more points
    open_box = True  # takes boxes that are not periodic in every direction, if it need not search
    query = True
    default_ok = True
    r_default = True

    name = property(lambda self: type(self).__name__)

    # ---- generation
    def takes(self, spec):
        """Can it be given a system in this box?"""
        return (
            (self.d2 is None or self.d2 == spec["d2"])
            and not (self.box_kw.get("ortho") and any(spec["tilt"]))
            and not (self.box_kw.get("cubic") and (any(spec["tilt"]) or len(set(spec["L"])) > 1))
        )

    def gen(self, rng, k=1, same=True, small=False, base=None):
        """params and k frames. same: all frames share box and particle counts. base: the system to use."""
        frames = []
        hi = 25 if small else self.hi
        given = base
        big = self.big and not small
        base = base or S.gen_sys(rng, lo=self.lo, hi=hi, big=big, d2=self.d2, **self.box_kw)
        q0 = S.gen_query(rng, hi=min(hi, 50), big=big) if self.query else None
        for _ in range(k):
            sysd = dict(base, ps=rng.getrandbits(32), pk=rng.choice(["uni", "uni", "blob", "jit"])) if not given else dict(base)
            q = dict(q0, ps=rng.getrandbits(32)) if q0 else None
            if not same:
                sysd["n"] = S.gen_n(rng, self.lo, hi, big)
                if rng.random() < 0.6:
                    sc = rng.uniform(1.0, 1.3)
                    b = base["box"]
                    sysd["box"] = dict(b, L=[round(x * sc, 3) for x in b["L"]])
                if self.d2 is None and not self.dim_fixed and not self.box_kw and not given and rng.random() < 0.25:
                    sysd["box"] = S.flip(sysd["box"])
                if self.query and rng.random() < 0.5:
                    q = S.gen_query(rng, p=0.5, hi=min(hi, 50), big=big)
            f = {"sys": sysd, "q": q, "s": rng.getrandbits(32)}
            if self.pair:
                f["nb"] = S.gen_neigh(rng, default_ok=self.default_ok, **self.nkw)
                f["nq"] = S.gen_nq(rng)
            self.gen_frame(rng, f)
            if self.open_box and not given and rng.random() < 0.15 and self.searches_not(f):
                f["sys"] = dict(f["sys"], box=dict(f["sys"]["box"], per=[rng.random() < 0.5 for _ in range(3)]))
            frames.append(f)
        return self.gen_params(rng, Geo(base["box"])), frames

    def searches_not(self, f):
        if (f.get("nq") or {}).get("t", "tuple") not in ("tuple", "raw"):
            return False
        return not self.pair or bool(f.get("nb") and f["nb"]["t"] in ("nlist", "graph")) or bool(f.get("no_pairs"))

    def gen_frame(self, rng, f):
        pass

    def gen_params(self, rng, geo):
        return {}

    def frame(self, p, f):
        return Frame(f, self.rdef(p, f))

    def rdef(self, p, f):
        return p.get("r_max") if self.r_default else None

    # ---- the real thing
    def make(self, p):
        raise NotImplementedError

    def args(self, p, F):
        """args, kwargs of compute; new arrays every time."""
        raise NotImplementedError

    def compute(self, o, p, F, **kw):
        a, k = self.args(p, F)
        k.update(kw)
        return o.compute(*a, **k)

    def pair_kw(self, F, query=True):
        kw = {}
        if query and F.qpts is not None:
            kw["query_points"] = F.qpts.copy()
        nb = F.neigh_arg()
        if nb is not None:
            kw["neighbors"] = nb
        return kw

    OUT = ()

    def read(self, o, name):
        return box_arr(o.box) if name == "box" else arr(getattr(o, name))

    def outputs(self, o):
        return {k: self.read(o, k) for k in self.OUT}

    def model(self, p, frames):
        return {}


def dist_tol(F):
    if F.f["sys"].get("pk") == "grid":
        return 0.0  # small multiples of a power of two: exact
    return 4e-6 * F.geo.scale + 2e-6


# ------------------------------------------------------------------ pair histograms
class Hist(Adapter):
    accum = True

    def axes(self, p):
        raise NotImplementedError

    def coords(self, p, F):
        """(list of coordinate arrays, list of tolerances)"""
        raise NotImplementedError

    def count_bounds(self, p, frames):
        lo = hi = 0
        for F in frames:
            if F.amb:
                return None
            c, t = self.coords(p, F)
            a, b = S.hist_bounds(c, t, self.axes(p))
            lo, hi = lo + a, hi + b
        return lo, hi

    def model(self, p, frames):
        m = {}
        b = self.count_bounds(p, frames)
        if b is not None:
            m["bin_counts"] = ("range", *b)
        if "box" in self.OUT:
            F = frames[-1]
            nq = F.f.get("nq") or {}
            e = 1e-5 if nq.get("form") and forms.inexact(nq["form"], F.geo) else 0  # given as a matrix
            m["box"] = ("close", box_arr(F.geo.box()), e, e) if e else ("eq", box_arr(F.geo.box()))
        m.update(self.derived(p, frames))
        return m

    def derived(self, p, frames):
        return {}


def same_frames(frames):
    a = frames[0]
    return all(F.n == a.n and F.nQ == a.nQ and F.f["sys"]["box"] == a.f["sys"]["box"] for F in frames)


class RDF(Hist):
    OUT = ("bin_counts", "rdf", "n_r", "box")

    def gen_params(self, rng, geo):
        r = round(geo.rcut * rng.uniform(0.4, 0.98), 4)
        return {
            "bins": rng.randint(1, 40), "r_max": r, "r_min": round(r * rng.uniform(0, 0.5), 4) if rng.random() < 0.3 else 0,
            "mode": rng.choice(["exact", "exact", "finite_size"]),
        }

    def make(self, p):
        return freud.density.RDF(p["bins"], p["r_max"], r_min=p["r_min"], normalization_mode=p["mode"])

    def args(self, p, F):
        return (F.system(),), self.pair_kw(F)

    def axes(self, p):
        return [(p["r_min"], p["r_max"], p["bins"], False)]

    def coords(self, p, F):
        d = F.pairs()[3]
        return [d], [np.full(len(d), dist_tol(F))]

    def derived(self, p, frames):
        if not same_frames(frames):
            return {}
        F = frames[-1]
        nf = len(frames)

        def rdf(o):
            c = o["bin_counts"].astype(float)
            e = np.linspace(p["r_min"], p["r_max"], p["bins"] + 1)
            vol = np.pi * np.diff(e**2) if F.geo.d2 else 4 / 3 * np.pi * np.diff(e**3)
            dens = F.nQ / F.geo.volume
            if p["mode"] == "finite_size":
                dens *= (F.nQ - 1) / F.nQ
            if dens == 0:
                return None
            return cmp_close(o["rdf"], c / (F.n * nf * dens * vol), 2e-3, 1e-6)

        def nr(o):
            c = o["bin_counts"].astype(float)
            return cmp_close(o["n_r"], np.cumsum(c) / (F.nQ * nf), 1e-4, 1e-6)

        return {"rdf": ("fn", rdf), "n_r": ("fn", nr)}


class CorrelationFunction(Hist):
    OUT = ("bin_counts", "correlation", "box")
    tol = {"correlation": 1e-9}

    def gen_params(self, rng, geo):
        return {"bins": rng.randint(1, 30), "r_max": round(geo.rcut * rng.uniform(0.4, 0.98), 4)}

    def gen_frame(self, rng, f):
        f["cplx"] = rng.random() < 0.6
        f["qv"] = bool(f["q"]) or rng.random() < 0.4

    def make(self, p):
        return freud.density.CorrelationFunction(p["bins"], p["r_max"])

    def values(self, F):
        g = np.random.default_rng(F.f["s"])
        v = g.normal(size=(max(400, F.n, F.nQ),)) + (1j * g.normal(size=max(400, F.n, F.nQ)) if F.f["cplx"] else 0)
        q = g.normal(size=(max(400, F.n, F.nQ),)) + (1j * g.normal(size=max(400, F.n, F.nQ)) if F.f["cplx"] else 0)
        v, q = v[: F.n], q[: F.nQ]
        if not F.f["qv"] and F.qpts is None:
            q = None
        return v, q

    def args(self, p, F):
        v, q = self.values(F)
        kw = self.pair_kw(F)
        if q is not None:
            kw["query_values"] = q.copy()
        return (F.system(), v.copy()), kw

    def axes(self, p):
        return [(0, p["r_max"], p["bins"], False)]

    coords = RDF.coords

    def derived(self, p, frames):
        if any(F.amb for F in frames):
            return {}
        B = p["bins"]
        tot = np.zeros(B, complex)
        mag = np.zeros(B)
        cnt = np.zeros(B, int)
        skip = np.zeros(B, bool)
        cplx = False
        for F in frames:
            v, q = self.values(F)
            cplx |= bool(np.iscomplex(v).any() or (q is not None and np.iscomplex(q).any()))
            if q is None:
                q = v
            i, j, _, d, _ = F.pairs()
            w = p["r_max"] / B
            k = np.floor(d / w).astype(int)
            t = dist_tol(F)
            near = (np.floor((d - t) / w) != k) | (np.floor((d + t) / w) != k)
            for kk in np.concatenate([k[near] - 1, k[near], k[near] + 1]):
                if 0 <= kk < B:
                    skip[kk] = True
            ok = (k >= 0) & (k < B)
            pr = np.conj(v[j]) * q[i]
            np.add.at(tot, k[ok], pr[ok])
            np.add.at(mag, k[ok], np.abs(pr[ok]))
            np.add.at(cnt, k[ok], 1)
        exp = np.where(cnt > 0, tot / np.maximum(cnt, 1), 0)
        mag = mag / np.maximum(cnt, 1)

        def f(o):
            c = o["correlation"]
            if c.shape != (B,):
                return f"shape {c.shape}"
            if np.iscomplexobj(c) != cplx:
                return f"complex results: {np.iscomplexobj(c)}, complex values: {cplx}"
            e = exp if cplx else exp.real
            bad = ~skip & ~(np.abs(c - e) <= 1e-7 * (1 + mag))
            if bad.any():
                b = int(np.nonzero(bad)[0][0])
                return f"bin {b}: {c[b]} instead of {e[b]} ({cnt[b]} pairs)"

        return {"correlation": ("fn", f)}


class BondOrder(Hist):
    OUT = ("bin_counts", "bond_order", "box")
    r_default = False
    default_ok = False

    def gen_params(self, rng, geo):
        b = [rng.randint(2, 12), rng.randint(2, 8)] if rng.random() < 0.7 else rng.randint(2, 9)
        return {"bins2": b, "mode": rng.choice(["bod", "lbod", "obcd", "oocd"])}

    def gen_frame(self, rng, f):
        f["ori"] = rng.choice([0, 1, 2]) if not f["q"] else 2
        if not f["q"]:
            f["nb"].pop("ii", None)  # a bond of no length has no direction

    def make(self, p):
        return freud.environment.BondOrder(p["bins2"], mode=p["mode"])

    def oris(self, F):
        o = S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n]
        q = S.quats(F.f["s"] + 1, max(400, F.n, F.nQ))[: F.nQ]
        if F.f["ori"] == 0:
            return None, None
        if F.f["ori"] == 1:
            return o, None
        return o, q

    def args(self, p, F):
        o, q = self.oris(F)
        kw = self.pair_kw(F)
        if o is not None:
            kw["orientations"] = o.copy()
        if q is not None:
            kw["query_orientations"] = q.copy()
        return (F.system(),), kw

    def nb2(self, p):
        b = p["bins2"]
        return (b, b) if isinstance(b, int) else tuple(b)

    def axes(self, p):
        t, f = self.nb2(p)
        return [(0, TAU, t, True), (0, np.pi, f, False)]

    def coords(self, p, F):
        i, j, v, d, _ = F.pairs()
        o, q = self.oris(F)
        if o is None:
            o = np.tile([1.0, 0, 0, 0], (F.n, 1))
        if q is None:
            q = o
        oj, qi = np.asarray(o, float)[j], np.asarray(q, float)[i]
        m = p["mode"]
        if m == "obcd":
            v = S.qrot(qi, S.qrot(S.qconj(oj), v))
        elif m == "lbod":
            v = S.qrot(S.qconj(oj), v)
        elif m == "oocd":
            v = S.qrot(S.qconj(oj), S.qrot(qi, np.tile([0, 0, 1.0], (len(i), 1))))
        nrm = np.sqrt((v**2).sum(-1))
        with np.errstate(all="ignore"):
            th = np.arctan2(v[:, 1], v[:, 0])
            ph = np.arccos(np.clip(v[:, 2] / nrm, -1, 1))
            rel = 4e-6 if m == "oocd" else (dist_tol(F) / np.maximum(nrm, 1e-12) + 4e-6)
            sn = np.maximum(np.sin(ph), 1e-9)
            tt = np.minimum(rel / sn, np.pi)
            tp = np.minimum(rel / np.maximum(sn, np.sqrt(rel)) + 1e-6, np.pi)
        if F.geo.d2 and m == "bod":
            # exactly in the plane: phi is pi/2 to rounding
            tp = np.full(len(i), 1e-6)
        # phi = pi has no bin; phi=0.. fine
        return [th, ph], [tt, tp]

    def derived(self, p, frames):
        t, f = self.nb2(p)
        nf = len(frames)

        def bo(o):
            e = np.linspace(0, np.pi, f + 1)
            sa = (TAU / t) * (np.cos(e[:-1]) - np.cos(e[1:]))
            return cmp_close(o["bond_order"], o["bin_counts"].astype(float) / sa[None, :] / nf, 1e-3, 1e-6)

        return {"bond_order": ("fn", bo)}


class _PMFT(Hist):
    OUT = ("bin_counts", "_pcf", "pmft", "box")
    nkw = dict(kinds=("ball", "nearest", "nlist"))

    def angle(self, F, which, n):
        g = np.random.default_rng(F.f["s"] + which)
        a = g.uniform(-4, 7, size=max(400, n)).astype(np.float32)[:n]
        a[g.random(n) < 0.03] = 0
        if F.f["sys"].get("pk") == "grid" and not isinstance(self, PMFTR12):
            a[:] = 0
        return a

    def given(self, F, which, n):
        """The angles as they are given: numbers, or rotations about z, of which each is two quaternions."""
        a = self.angle(F, which, n)
        if not F.f.get("quat"):
            return a
        g = np.random.default_rng(F.f["s"] + 77 + which)
        h = a.astype(float) / 2
        q = np.stack([np.cos(h), 0 * h, 0 * h, np.sin(h)], 1)
        return q * np.where(g.random(n) < 0.5, 1, -1)[:, None]

    def gen_frame(self, rng, f):
        f["qo"] = bool(f["q"]) or rng.random() < 0.4
        if self.d2 and rng.random() < 0.2:
            f["quat"] = 1

    def derived(self, p, frames):
        d = {}

        def pm(o):
            with np.errstate(divide="ignore"):
                return cmp_close(o["pmft"], -np.log(o["_pcf"].astype(float)), 1e-4, 1e-5)

        d["pmft"] = ("fn", pm)
        if same_frames(frames):
            F = frames[-1]

            def pcf(o):
                pre = F.geo.volume / F.nQ / (len(frames) * F.n * self.neq(p, F))
                c = o["bin_counts"].astype(float).reshape(o["_pcf"].shape)
                return cmp_close(o["_pcf"], c * pre / self.jac(p), 1e-3, 1e-7)

            d["_pcf"] = ("fn", pcf)
        return d

    def neq(self, p, F):
        return 1


class PMFTR12(_PMFT):
    d2 = True

    def gen_params(self, rng, geo):
        b = [rng.randint(1, 8) for _ in range(3)] if rng.random() < 0.7 else rng.randint(1, 6)
        return {"r_max": round(geo.rcut * rng.uniform(0.4, 0.97), 4), "bins3": b}

    def b3(self, p):
        b = p["bins3"]
        return (b,) * 3 if isinstance(b, int) else tuple(b)

    def make(self, p):
        return freud.pmft.PMFTR12(p["r_max"], p["bins3"])

    def args(self, p, F):
        kw = self.pair_kw(F)
        if F.f["qo"]:
            kw["query_orientations"] = self.given(F, 1, F.nQ)
        return (F.system(), self.given(F, 0, F.n)), kw

    def axes(self, p):
        b = self.b3(p)
        return [(0, p["r_max"], b[0], False), (0, TAU, b[1], True), (0, TAU, b[2], True)]

    def coords(self, p, F):
        i, j, v, d, _ = F.pairs()
        a = self.angle(F, 0, F.n).astype(float)
        q = self.angle(F, 1, F.nQ).astype(float) if F.f["qo"] else a
        t = np.full(len(i), dist_tol(F))
        ta = np.where(d < 1e-9, np.pi, np.minimum(t / np.maximum(d, 1e-9) + 4e-6, np.pi))
        t1 = np.mod(a[j] - np.arctan2(v[:, 1], v[:, 0]), TAU)
        t2 = np.mod(q[i] - np.arctan2(-v[:, 1], -v[:, 0]), TAU)
        return [d, t1, t2], [t, ta, ta]

    def jac(self, p):
        b = self.b3(p)
        dr = p["r_max"] / b[0]
        r = (np.arange(b[0]) + 0.5) * dr
        return (r * dr * (TAU / b[1]) * (1 / b[2]))[:, None, None] * np.ones((1, b[1], b[2]))


class PMFTXYT(_PMFT):
    d2 = True

    def gen_params(self, rng, geo):
        b = [rng.randint(1, 8) for _ in range(3)] if rng.random() < 0.7 else rng.randint(1, 6)
        r = geo.rcut * rng.uniform(0.4, 0.97)
        a = rng.uniform(0.2, 1.3)
        return {"x_max": round(r * np.cos(a), 4), "y_max": round(r * np.sin(a), 4), "bins3": b}

    b3 = PMFTR12.b3

    def rdef(self, p, f):
        return float(np.sqrt(p["x_max"] ** 2 + p["y_max"] ** 2))

    def make(self, p):
        return freud.pmft.PMFTXYT(p["x_max"], p["y_max"], p["bins3"])

    args = PMFTR12.args

    def axes(self, p):
        b = self.b3(p)
        return [(-p["x_max"], p["x_max"], b[0], False), (-p["y_max"], p["y_max"], b[1], False), (0, TAU, b[2], True)]

    def coords(self, p, F):
        i, j, v, d, _ = F.pairs()
        a = self.angle(F, 0, F.n).astype(float)
        q = self.angle(F, 1, F.nQ).astype(float) if F.f["qo"] else a
        t = np.full(len(i), dist_tol(F))
        c, s = np.cos(-q[i]), np.sin(-q[i])
        x = c * v[:, 0] - s * v[:, 1]
        y = s * v[:, 0] + c * v[:, 1]
        th = np.mod(a[j] - np.arctan2(-v[:, 1], -v[:, 0]), TAU)
        ta = np.where(d < 1e-9, np.pi, np.minimum(t / np.maximum(d, 1e-9) + 4e-6, np.pi))
        return [x, y, th], [t, t, ta]

    def jac(self, p):
        b = self.b3(p)
        return (2 * p["x_max"] / b[0]) * (2 * p["y_max"] / b[1]) * (1 / b[2]) * np.ones(b)


class PMFTXY(_PMFT):
    d2 = True

    def gen_params(self, rng, geo):
        b = [rng.randint(1, 9) for _ in range(2)] if rng.random() < 0.7 else rng.randint(1, 9)
        r = geo.rcut * rng.uniform(0.4, 0.97)
        a = rng.uniform(0.2, 1.3)
        return {"x_max": round(r * np.cos(a), 4), "y_max": round(r * np.sin(a), 4), "bins2": b}

    nb2 = BondOrder.nb2
    rdef = PMFTXYT.rdef

    def make(self, p):
        return freud.pmft.PMFTXY(p["x_max"], p["y_max"], p["bins2"])

    def args(self, p, F):
        return (F.system(), self.given(F, 1, F.nQ)), self.pair_kw(F)

    def axes(self, p):
        b = self.nb2(p)
        return [(-p["x_max"], p["x_max"], b[0], False), (-p["y_max"], p["y_max"], b[1], False)]

    def coords(self, p, F):
        i, j, v, d, _ = F.pairs()
        q = self.angle(F, 1, F.nQ).astype(float)
        t = np.full(len(i), dist_tol(F))
        c, s = np.cos(-q[i]), np.sin(-q[i])
        return [c * v[:, 0] - s * v[:, 1], s * v[:, 0] + c * v[:, 1]], [t, t]

    def jac(self, p):
        b = self.nb2(p)
        return (2 * p["x_max"] / b[0]) * (2 * p["y_max"] / b[1]) * np.ones(b)

    def count_bounds(self, p, frames):
        b = super().count_bounds(p, frames)
        # documented squeezed result of bin_counts
        return None if b is None else (np.squeeze(b[0]), np.squeeze(b[1]))


class PMFTXYZ(_PMFT):
    d2 = False
    hi = 45

    def gen_params(self, rng, geo):
        b = [rng.randint(1, 6) for _ in range(3)] if rng.random() < 0.7 else rng.randint(1, 5)
        r = geo.rcut * rng.uniform(0.4, 0.95)
        u = np.abs([rng.uniform(0.3, 1), rng.uniform(0.3, 1), rng.uniform(0.3, 1)])
        u = u / np.linalg.norm(u) * r
        p = {"m": [round(float(x), 4) for x in u], "bins3": b, "neq": rng.choice([0, 0, 1, 2, 4])}
        if rng.random() < 0.2:
            p["shift"] = [round(rng.uniform(-0.3, 0.3), 3) for _ in range(3)]
        return p

    def gen_frame(self, rng, f):
        if f.get("nb") and f["nb"]["t"] == "nearest":
            f["nb"] = {"t": "ball", "f": 0.7}

    b3 = PMFTR12.b3

    def rdef(self, p, f):
        return float(np.sqrt(sum(x * x for x in p["m"])))

    def frame(self, p, f):
        if p.get("shift"):
            # the shift moves the query points; described by explicit query points
            F = ShiftedFrame(f, self.rdef(p, f), np.array(p["shift"], np.float32))
            return F
        return Frame(f, self.rdef(p, f))

    def make(self, p):
        return freud.pmft.PMFTXYZ(*p["m"], p["bins3"], shiftvec=p.get("shift"))

    def eq(self, p, F):
        return S.quats(99, 8)[: p["neq"]] if p["neq"] else None

    def neq(self, p, F):
        return max(1, p["neq"])

    def args(self, p, F):
        kw = self.pair_kw(F)
        e = self.eq(p, F)
        if e is not None:
            kw["equiv_orientations"] = e.copy()
        return (F.system(), self.turns(F)), kw

    def turns(self, F):
        if F.f["sys"].get("pk") == "grid":
            return np.tile(np.array([1, 0, 0, 0], np.float32), (F.nQ, 1))
        return S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.nQ]

    def axes(self, p):
        b = self.b3(p)
        return [(-m, m, k, False) for m, k in zip(p["m"], b)]

    def coords(self, p, F):
        i, j, v, d, _ = F.pairs()
        q = self.turns(F).astype(float)
        e = self.eq(p, F)
        if e is None:
            e = np.array([[1.0, 0, 0, 0]])
        out = [S.qrot(np.asarray(e[k], float), S.qrot(S.qconj(q[i]), v)) for k in range(len(e))]
        w = np.concatenate(out) if len(i) else np.zeros((0, 3))
        t = np.full(len(w), 2 * dist_tol(F))
        return [w[:, 0], w[:, 1], w[:, 2]], [t, t, t]

    def jac(self, p):
        b = self.b3(p)
        return np.prod([2 * m / k for m, k in zip(p["m"], b)]) * np.ones(b)


class ShiftedFrame(Frame):
    def __init__(self, f, r, shift):
        self.shift = shift
        super().__init__(f, r)

    def _prep(self):
        real = self.Q
        self.Q = (real - self.shift.reshape(1, 3)).astype(np.float32)
        super()._prep()
        self.Q = real


class StaticStructureFactorDebye(Adapter):
    accum = True
    pair = False
    OUT = ("S_k", "min_valid_k")
    tol = {"S_k": 1e-4}
    hi = 22
    r_default = False

    def gen_params(self, rng, geo):
        lo = round(rng.uniform(0, 2), 3) if rng.random() < 0.5 else 0
        return {"bins": rng.randint(2, 20), "k_max": round(lo + rng.uniform(1, 12), 3), "k_min": lo}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True
        f["ntot"] = rng.randint(1, 60)

    def make(self, p):
        return freud.diffraction.StaticStructureFactorDebye(p["bins"], p["k_max"], p["k_min"])

    def args(self, p, F):
        kw = {}
        if F.qpts is not None:
            kw = {"query_points": F.qpts.copy(), "N_total": F.f["ntot"]}
        return (F.system(),), kw

    def model(self, p, frames):
        from scipy.special import j0

        k = np.linspace(p["k_min"], p["k_max"], p["bins"])
        tot = 0
        mag = 0
        kmin = np.inf
        for F in frames:
            v, d, tie = F.all_pairs()
            if (tie < 1e-6).any():
                return {}
            x = k[:, None, None] * d[None]
            if F.geo.d2:
                y = j0(x)
            else:
                y = np.sinc(x / np.pi)
            nt = F.f["ntot"] if F.qpts is not None else F.nQ
            tot = tot + y.sum((1, 2)) / nt
            mag = mag + np.abs(y).sum((1, 2)) / nt + k * 1e-1 * d.size / nt
            L = [float(np.float32(x)) for x in F.f["sys"]["box"]["L"]]
            kmin = min(kmin, 4 * np.pi / min(L[:2] if F.geo.d2 else L))
        nf = len(frames)
        return {
            "S_k": ("close", tot / nf, 0, 1e-4 * (1 + mag / nf)),
            "min_valid_k": ("close", np.array(kmin), 1e-5, 0),
        }


# ------------------------------------------------------------------ per particle
class LocalDensity(Adapter):
    OUT = ("num_neighbors", "density", "box")
    nkw = dict(kinds=("ball", "nearest", "nlist"))

    def gen_params(self, rng, geo):
        r = geo.rcut * rng.uniform(0.3, 0.9)
        d = r * rng.uniform(0.02, 0.2)
        return {"r": round(r, 4), "d": round(d, 4)}

    def rdef(self, p, f):
        return p["r"] + 0.5 * p["d"]

    def make(self, p):
        return freud.density.LocalDensity(p["r"], p["d"])

    def args(self, p, F):
        return (F.system(),), self.pair_kw(F)

    def model(self, p, frames):
        F = frames[-1]
        if F.amb and F.f.get("nb") is not None:
            return {}
        i, j, v, d, w = F.pairs()
        c = np.where(d < p["r"] - p["d"] / 2, 1.0, 1.0 + (p["r"] - (d + p["d"] / 2)) / p["d"])
        nn = np.zeros(F.nQ)
        np.add.at(nn, i, c)
        slope = dist_tol(F) / p["d"]
        cnt = np.zeros(F.nQ)
        np.add.at(cnt, i, np.abs(c) * 1e-5 + slope + 1e-5 * p["r"] / p["d"])
        vol = np.pi * p["r"] ** 2 if F.geo.d2 else 4 / 3 * np.pi * p["r"] ** 3
        return {
            "num_neighbors": ("close", nn, 1e-5, cnt + 1e-6),
            "density": ("close", nn / vol, 1e-5, (cnt + 1e-6) / vol),
        }


class Hexatic(Adapter):
    OUT = ("particle_order",)
    d2 = True
    query = False

    def gen_params(self, rng, geo):
        return {"k": rng.choice([1, 2, 3, 4, 5, 6, 6, 6, 8]), "w": rng.random() < 0.4}

    def gen_frame(self, rng, f):
        pass

    def gen(self, rng, k=1, same=True, small=False, base=None):
        p, fr = super().gen(rng, k, same, small, base)
        for f in fr:
            f["k_default"] = p["k"]
        return p, fr

    def rdef(self, p, f):
        return "nearest"

    def frame(self, p, f):
        f = dict(f, k_default=p["k"])
        return Frame(f, "nearest")

    def make(self, p):
        return freud.order.Hexatic(k=p["k"], weighted=p["w"])

    def args(self, p, F):
        return (F.system(),), self.pair_kw(F, False)

    def model(self, p, frames):
        F = frames[-1]
        if F.amb:
            return {}
        i, j, v, d, w = F.pairs()
        if not p["w"]:
            w = np.ones(len(i))
        if F.nl is not None:  # the definition uses the positions
            v = F.v[i, j]
        e = w * np.exp(1j * p["k"] * np.arctan2(v[:, 1], v[:, 0]))
        z = np.zeros(F.n, complex)
        tw = np.zeros(F.n)
        np.add.at(z, i, e)
        np.add.at(tw, i, w)
        tol = np.zeros(F.n)
        np.add.at(tol, i, w * (p["k"] * (dist_tol(F) / np.maximum(np.sqrt((v**2).sum(1)), 1e-9) + 4e-6) + 1e-5))
        with np.errstate(all="ignore"):
            z = z / tw
            tol = np.where(tw > 0, tol / tw, 0)
        return {"particle_order": ("close", z, 0, tol + 1e-5)}


class Cluster(Adapter):
    OUT = ("num_clusters", "cluster_idx", "cluster_keys")
    query = False
    default_ok = False
    r_default = False

    def gen_frame(self, rng, f):
        f["keys"] = rng.random() < 0.4
        if f["nb"]["t"] == "ball" and rng.random() < 0.8:
            f["nb"]["f"] = round(rng.uniform(0.1, 0.6), 3)
        if f["nb"]["t"] == "nearest":
            f["nb"]["k"] = rng.randint(1, 3)

    def make(self, p):
        return freud.cluster.Cluster()

    def keys(self, F):
        return np.random.default_rng(F.f["s"]).integers(0, 1000, max(400, F.n, F.nQ)).astype(np.uint32)[: F.n] if F.f["keys"] else None

    def args(self, p, F):
        kw = self.pair_kw(F, False)
        k = self.keys(F)
        if k is not None:
            kw["keys"] = k.copy()
        return (F.system(),), kw

    def read(self, o, name):
        if name == "cluster_keys":
            ks = o.cluster_keys
            return np.array([len(ks)] + [x for k in ks for x in [len(k), *k]])
        return arr(getattr(o, name))

    def model(self, p, frames):
        F = frames[-1]
        if F.amb:
            return {}
        i, j, *_ = F.pairs()
        par = list(range(F.n))

        def find(a):
            while par[a] != a:
                par[a] = par[par[a]]
                a = par[a]
            return a

        for a, b in zip(i, j):
            ra, rb = find(int(a)), find(int(b))
            if ra != rb:
                par[max(ra, rb)] = min(ra, rb)
        groups = {}
        for a in range(F.n):
            groups.setdefault(find(a), []).append(a)
        order = sorted(groups.values(), key=lambda g: (-len(g), g[0]))
        idx = np.zeros(F.n, int)
        for c, g in enumerate(order):
            idx[g] = c
        keys = self.keys(F)
        flat = [len(order)]
        for g in order:
            flat += [len(g), *[(int(keys[a]) if keys is not None else a) for a in g]]
        return {
            "num_clusters": ("eq", np.array(len(order))), "cluster_idx": ("eq", idx), "cluster_keys": ("eq", np.array(flat)),
        }


class ClusterProperties(Adapter):
    OUT = ("centers", "centers_of_mass", "gyrations", "inertia_tensors", "sizes", "cluster_masses", "radii_of_gyration")
    pair = False
    open_box = False  # centers are circular means in every direction
    query = False
    r_default = False

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True
        f["nc"] = rng.randint(1, 6)
        f["m"] = rng.random() < 0.6
        f["sys"]["pk"] = rng.choice(["uni", "blob"])
        f["contig"] = rng.random() < 0.3

    def make(self, p):
        return freud.cluster.ClusterProperties()

    def data(self, F):
        """Clusters are compact (smaller than half the box) so the centre is well defined."""
        g = np.random.default_rng(F.f["s"])
        nc = min(F.f["nc"], F.n)
        idx = g.integers(0, nc, 4096)[: F.n]
        idx[:nc] = np.arange(nc)
        if F.f["contig"]:
            idx = np.sort(idx)
        cen = g.random((8, 3))
        off = (g.random((4096, 3))[: F.n] - 0.5) * 0.35
        f = (cen[idx] + off) % 1.0
        f = np.clip(f, 0.0005, 0.9995) - 0.5
        pos = f @ F.geo.H.T
        if F.geo.d2:
            pos[:, 2] = 0
        mass = (0.2 + g.random(4096)[: F.n]).astype(np.float32) if F.f["m"] else None
        return idx.astype(np.uint32), pos.astype(np.float32), mass, cen, off

    def args(self, p, F):
        idx, pos, mass, _, _ = self.data(F)
        F.pts = pos
        kw = {"masses": mass.copy()} if mass is not None else {}
        return (F.system(), idx.copy()), kw

    def model(self, p, frames):
        F = frames[-1]
        idx, pos, mass, cen, off = self.data(F)
        m = mass.astype(float) if mass is not None else np.ones(F.n)
        nc = int(idx.max()) + 1
        out = {k: [] for k in self.OUT}
        for c in range(nc):
            s = idx == c
            P = pos[s].astype(float)
            # unwrap around the first member: members are within a third of the box of each other
            rel, _ = F.geo.wrap(P - P[:1])
            out["sizes"].append(s.sum())
            out["cluster_masses"].append(m[s].sum())
            ref = P[0]
            com = ref + (rel * m[s][:, None]).sum(0) / m[s].sum()
            cg = ref + rel.mean(0)
            dm = ref + rel - com
            dg = ref + rel - cg
            out["centers_of_mass"].append(com)
            out["centers"].append(cg)
            I = sum(mm * ((r @ r) * np.eye(3) - np.outer(r, r)) for mm, r in zip(m[s], dm))
            out["inertia_tensors"].append(I)
            out["gyrations"].append(sum(np.outer(r, r) for r in dg) / s.sum())
        sc = F.geo.scale
        I = np.array(out["inertia_tensors"])
        M = np.array(out["cluster_masses"])
        return {
            "sizes": ("eq", np.array(out["sizes"])),
            "cluster_masses": ("close", M, 1e-4, 1e-5),
            "radii_of_gyration": ("fn", lambda o: cmp_close(
                o["radii_of_gyration"],
                np.sqrt(np.trace(o["inertia_tensors"].astype(float), axis1=-2, axis2=-1) / (2 * o["cluster_masses"].astype(float))),
                1e-3, 1e-3)),
            # periodic centres are circular means, equal to the arithmetic mean only for
            # compact clusters: checked through the definition below
            "centers_of_mass": ("fn", lambda o: self.circ(F, idx, pos, m, o["centers_of_mass"])),
            "centers": ("fn", lambda o: self.circ(F, idx, pos, np.ones(F.n), o["centers"])),
            "inertia_tensors": ("fn", lambda o: self.tensor(F, idx, pos, m, o, "inertia_tensors")),
            "gyrations": ("fn", lambda o: self.tensor(F, idx, pos, m, o, "gyrations")),
        }

    def circ(self, F, idx, pos, m, got):
        """Centre of mass in a periodic box as freud's Box documents it: the circular mean."""
        nc = int(idx.max()) + 1
        if got.shape != (nc, 3):
            return f"shape {got.shape}"
        for c in range(nc):
            s = idx == c
            fr = F.geo.frac(pos[s].astype(float))
            z = (np.exp(2j * np.pi * fr) * m[s][:, None]).sum(0) / m[s].sum()
            if (np.abs(z) < 0.05).any():
                continue
            f = np.angle(z) / (2 * np.pi)
            w, _ = F.geo.wrap((f @ F.geo.H.T) - got[c].astype(float))
            if F.geo.d2:
                w[2] = got[c][2]
            if np.abs(w).max() > 2e-4 * F.geo.scale:
                return f"cluster {c}: {got[c]} is {w} away from the periodic centre"
        return None

    def tensor(self, F, idx, pos, m, o, name):
        nc = int(idx.max()) + 1
        cen = o["centers_of_mass" if name == "inertia_tensors" else "centers"].astype(float)
        exp = np.zeros((nc, 3, 3))
        d, tie = F.geo.wrap(pos.astype(float) - cen[np.minimum(idx, len(cen) - 1)])
        bad = set(idx[tie < 1e-5].tolist())
        for k in range(F.n):
            r = d[k]
            if name == "inertia_tensors":
                exp[idx[k]] += m[k] * ((r @ r) * np.eye(3) - np.outer(r, r))
            else:
                exp[idx[k]] += np.outer(r, r) / (idx == idx[k]).sum()
        keep = [c for c in range(nc) if c not in bad]
        if o[name].shape != exp.shape:
            return f"shape {o[name].shape}"
        return cmp_close(o[name][keep], exp[keep], 2e-3, 2e-4 * F.geo.scale**2)


class Interface(Adapter):
    OUT = ("point_count", "point_ids", "query_point_count", "query_point_ids")
    default_ok = False
    r_default = False

    def gen_frame(self, rng, f):
        if not f["q"]:
            f["q"] = {"n": S.gen_n(rng, 1, 30), "ps": rng.getrandbits(32)}
        if f["nb"]["t"] == "ball":
            f["nb"]["f"] = round(rng.uniform(0.05, 0.5), 3)
            f["nb"].pop("fmin", None)

    def make(self, p):
        return freud.interface.Interface()

    def args(self, p, F):
        return (F.system(), F.qpts.copy()), {"neighbors": F.neigh_arg()}

    def model(self, p, frames):
        F = frames[-1]
        if F.amb:
            return {}
        i, j, *_ = F.pairs()
        a, b = np.unique(j), np.unique(i)
        return {
            "point_count": ("eq", np.array(len(a))), "point_ids": ("eq", a),
            "query_point_count": ("eq", np.array(len(b))), "query_point_ids": ("eq", b),
        }


class AngularSeparationNeighbor(Adapter):
    OUT = ("angles",)
    default_ok = False
    r_default = False

    def gen_params(self, rng, geo):
        return {"neq": rng.choice([0, 1, 2, 5])}

    def gen_frame(self, rng, f):
        f["qo"] = rng.random() < 0.5
        if f["q"] and not f["qo"]:  # they share the orientations
            f["q"]["n"] = f["sys"]["n"]

    def make(self, p):
        return freud.environment.AngularSeparationNeighbor()

    def ori(self, F):
        o = S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n]
        q = S.quats(F.f["s"] + 1, max(400, F.n, F.nQ))[: F.nQ] if F.f["qo"] else None
        return o, q

    def args(self, p, F):
        o, q = self.ori(F)
        kw = self.pair_kw(F)
        if q is not None:
            kw["query_orientations"] = q.copy()
        if p["neq"]:
            kw["equiv_orientations"] = S.quats(7, 8)[: p["neq"]]
        return (F.system(), o.copy()), kw

    def outputs(self, o):
        d = {"angles": arr(o.angles)}
        d.update(nl_out(o.nlist, "nlist"))
        return d

    def model(self, p, frames):
        F = frames[-1]
        m = {}
        o, q = self.ori(F)
        q = o if q is None else q
        e = S.quats(7, 8)[: p["neq"]] if p["neq"] else np.array([[1.0, 0, 0, 0]])

        def f(out):
            pr = out["nlist.pairs"].astype(int)
            return cmp_angle(out["angles"], min_angle(q[pr[:, 0]], o[pr[:, 1]], e))

        m["angles"] = ("fn", f)
        m.update(nl_model(F, "nlist"))
        return m


def min_angle(ref, q, e):
    """Smallest rotation angle between ref and q's equivalents."""

    def ang(a, b):
        r = S.qmul(b, S.qconj(a))
        return 2 * np.arccos(np.clip(r[..., 0], -1, 1))

    best = ang(ref, q)
    qt = S.qmul(q, S.qconj(np.asarray(e[0], float)))
    for x in e:
        best = np.minimum(best, ang(ref, S.qmul(qt, np.asarray(x, float))))
    return best


def cmp_angle(a, b):
    """Angles from arccos of a float32: compared through their cosine of the half angle."""
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    bad = ~(np.abs(np.cos(a.astype(float) / 2) - np.cos(b / 2)) < 5e-6)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        return f"angle {k}: {a[k]} instead of {b[k]}"
    return None


def nl_model(F, pre):
    """The neighbour list a compute reports, in (query, point) order."""
    if F.amb:
        return {}
    i, j, v, d, w = F.pairs()
    o = np.lexsort((j, i)) if F.nl is None else np.arange(len(i))
    t = dist_tol(F)
    return {
        pre + ".pairs": ("eq", np.stack([i[o], j[o]], 1).reshape(-1, 2)),
        pre + ".distances": ("close", d[o], 1e-5, t),
        pre + ".vectors": ("close", v[o].reshape(-1, 3), 1e-5, t),
        pre + ".weights": ("close", w[o], 1e-6, 1e-6),
        pre + ".n": ("eq", np.array([F.nQ, F.n])),
    }


class AngularSeparationGlobal(Adapter):
    OUT = ("angles",)
    pair = False
    r_default = False
    query = False

    def gen_params(self, rng, geo):
        return {"neq": rng.choice([0, 1, 2, 5])}

    def gen_frame(self, rng, f):
        f["no_pairs"] = True
        f["ng"] = rng.randint(1, 6)

    def make(self, p):
        return freud.environment.AngularSeparationGlobal()

    def args(self, p, F):
        kw = {"equiv_orientations": S.quats(7, 8)[: p["neq"]]} if p["neq"] else {}
        return (S.quats(F.f["s"] + 5, F.f["ng"]), S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n]), kw

    def model(self, p, frames):
        F = frames[-1]
        g, o = S.quats(F.f["s"] + 5, F.f["ng"]), S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n]
        e = S.quats(7, 8)[: p["neq"]] if p["neq"] else np.array([[1.0, 0, 0, 0]])
        exp = np.stack([min_angle(o, np.tile(x, (len(o), 1)), e) for x in g], 1) if len(g) else None
        return {"angles": ("fn", lambda out: cmp_angle(out["angles"], exp))}


class LocalBondProjection(Adapter):
    default_ok = False
    r_default = False

    def gen_params(self, rng, geo):
        return {"neq": rng.choice([0, 1, 2, 5]), "np": rng.randint(1, 4)}

    def make(self, p):
        return freud.environment.LocalBondProjection()

    def vecs(self, p):
        return np.random.default_rng(3).normal(size=(8, 3)).astype(np.float32)[: p["np"]]

    def args(self, p, F):
        kw = self.pair_kw(F)
        if p["neq"]:
            kw["equiv_orientations"] = S.quats(7, 8)[: p["neq"]]
        return (F.system(), S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n], self.vecs(p)), kw

    def outputs(self, o):
        d = {"projections": arr(o.projections), "normed_projections": arr(o.normed_projections)}
        d.update(nl_out(o.nlist, "nlist"))
        return d

    def model(self, p, frames):
        F = frames[-1]
        m = nl_model(F, "nlist")
        o = S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n].astype(float)
        e = S.quats(7, 8)[: p["neq"]] if p["neq"] else np.array([[1.0, 0, 0, 0]])
        pv = self.vecs(p).astype(float)

        def f(norm):
            def g(out):
                pr = out["nlist.pairs"].astype(int)
                v = out["nlist.vectors"].astype(float)
                lb = S.qrot(S.qconj(o[pr[:, 1]]), v)
                best = lb @ pv.T
                for x in e:
                    r = S.qmul(S.qconj(np.asarray(e[0], float)), np.asarray(x, float))
                    best = np.maximum(best, lb @ S.qrot(np.tile(r, (len(pv), 1)), pv).T)
                ln = np.sqrt((v**2).sum(1))[:, None]
                if norm:
                    with np.errstate(all="ignore"):
                        return cmp_close(out["normed_projections"], best / ln, 1e-3, 2e-4)
                return cmp_close(out["projections"], best, 1e-4, 2e-5 * F.geo.scale)

            return g

        m["projections"] = ("fn", f(False))
        m["normed_projections"] = ("fn", f(True))
        return m


class RotationalAutocorrelation(Adapter):
    OUT = ("order", "particle_order")
    pair = False
    query = False
    r_default = False

    def gen_params(self, rng, geo):
        return {"l": rng.choice([0, 2, 2, 4, 4, 6])}

    def gen_frame(self, rng, f):
        f["no_pairs"] = True
        f["small"] = rng.random() < 0.5

    def make(self, p):
        return freud.order.RotationalAutocorrelation(p["l"])

    def qs(self, F):
        a = S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n]
        b = S.quats(F.f["s"] + 1, max(400, F.n, F.nQ))[: F.n]
        if F.f["small"]:
            b = a + 0.2 * b
            b = (b / np.linalg.norm(b, axis=1)[:, None]).astype(np.float32)
        return a, b

    def args(self, p, F):
        return self.qs(F), {}

    def model(self, p, frames):
        # the inner product of hyperspherical harmonics of order l is the SU(2) character
        # sin((l+1) w)/((l+1) sin w), with cos w the scalar part of the relative rotation
        F = frames[-1]
        a, b = self.qs(F)
        c = np.clip(S.qmul(S.qconj(a), b)[:, 0], -1, 1)
        w = np.arccos(c)
        l = p["l"]
        with np.errstate(all="ignore"):
            ch = np.where(np.abs(np.sin(w)) > 1e-6, np.sin((l + 1) * w) / ((l + 1) * np.sin(w)), 1.0)
        return {
            "particle_order": ("fn", lambda o: cmp_close(o["particle_order"].real, ch, 1e-3, 2e-4 * 4 ** (l / 2))),
            "order": ("close", np.array(ch.mean()), 1e-3, 2e-4 * 4 ** (l / 2)),
        }


def tensor4(v):
    return np.einsum("i,j,k,l->ijkl", v, v, v, v)


def r4():
    I = np.eye(3)
    return 0.4 * (np.einsum("ij,kl->ijkl", I, I) + np.einsum("ik,jl->ijkl", I, I) + np.einsum("il,jk->ijkl", I, I))


class Cubatic(Adapter):
    OUT = ("order", "orientation", "particle_order", "global_tensor", "cubatic_tensor")
    pair = False
    query = False
    r_default = False
    hi = 40

    def gen_params(self, rng, geo):
        return {
            "ti": round(rng.uniform(1, 5), 3), "tf": round(rng.uniform(0.05, 0.5), 3), "sc": round(rng.uniform(0.5, 0.9), 3),
            "k": rng.choice([1, 2, 3, 5, 8, 12]), "seed": rng.getrandbits(31),
        }

    def gen_frame(self, rng, f):
        f["no_pairs"] = True

    def make(self, p):
        return freud.order.Cubatic(p["ti"], p["tf"], p["sc"], p["k"], p["seed"])

    def args(self, p, F):
        return (S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n],), {}

    def model(self, p, frames):
        F = frames[-1]
        q = S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.n].astype(float)
        E = np.eye(3)

        def ct(x):
            return 2 * sum(tensor4(S.qrot(x, E[a])) for a in range(3))

        glob = np.mean([ct(x) for x in q], 0) - r4()

        def op(t):
            return 1 - ((glob - t) ** 2).sum() / (t**2).sum()

        po = np.array([op(ct(x) - r4()) for x in q])

        def cub(o):
            return cmp_close(o["cubatic_tensor"], ct(o["orientation"].astype(float)) - r4(), 1e-3, 2e-3)

        def order(o):
            return cmp_close(np.array(o["order"]), np.array(op(o["cubatic_tensor"].astype(float))), 1e-3, 2e-3)

        return {
            "global_tensor": ("close", glob, 1e-3, 1e-4), "particle_order": ("close", po, 1e-3, 2e-3),
            "cubatic_tensor": ("fn", cub), "order": ("fn", order),
        }


# ------------------------------------------------------------------ grids
class GaussianDensity(Adapter):
    dim_fixed = True
    OUT = ("density", "box")
    pair = False
    query = False
    r_default = False
    tol = {"density": 2e-5}
    hi = 25
    box_kw = {"ortho": True}
    grid_values = True

    def gen_params(self, rng, geo):
        w = rng.randint(3, 9)
        if rng.random() < 0.5:
            w = [rng.randint(3, 9) for _ in range(2 if geo.d2 and rng.random() < 0.5 else 3)]
        ws = [w] * 3 if isinstance(w, int) else list(w) + [1] * (3 - len(w))
        L = geo.spec["L"]
        nd = 2 if geo.d2 else 3
        # the cutoff sphere, rounded up to whole cells, fits the box once
        lim = min(L[a] / 2 - L[a] / ws[a] for a in range(nd))
        return {"w": w, "r_max": round(max(lim, 0.1) * rng.uniform(0.3, 0.98), 4), "sigma": round(rng.uniform(0.1, 1.5), 3)}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True
        f["val"] = rng.random() < 0.4

    def make(self, p):
        w = p["w"] if isinstance(p["w"], int) else tuple(p["w"])
        return freud.density.GaussianDensity(w, p["r_max"], p["sigma"])

    def vals(self, F):
        g = np.random.default_rng(F.f["s"])
        return g.normal(size=max(400, F.n, F.nQ)).astype(np.float32)[: F.n] if F.f["val"] else None

    def args(self, p, F):
        v = self.vals(F)
        return (F.system(),), ({"values": v.copy()} if v is not None else {})

    def dims(self, p, F):
        w = p["w"]
        ws = [w] * 3 if isinstance(w, int) else list(w) + [1] * (3 - len(w))
        if F.geo.d2:
            ws[2] = 1
        return ws

    def dist(self, p, F):
        ws = self.dims(p, F)
        ax = [((np.arange(m) + 0.5) / m - 0.5) for m in ws]
        if F.geo.d2:
            ax[2] = np.zeros(1)
        g = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, 3) @ F.geo.H.T
        v, _ = F.geo.wrap(g[:, None, :] - F.pts.astype(float)[None])
        return np.sqrt((v**2).sum(-1)), ws

    def model(self, p, frames):
        F = frames[-1]
        d, ws = self.dist(p, F)
        dim = 2 if F.geo.d2 else 3
        norm = (2 * np.pi * p["sigma"] ** 2) ** (-dim / 2)
        v = self.vals(F)
        v = np.ones(F.n) if v is None else v.astype(float)
        g = norm * np.exp(-(d**2) / (2 * p["sigma"] ** 2))
        t = dist_tol(F)
        e = (np.where(d < p["r_max"], g, 0) * v).sum(1)
        amb = (np.where(np.abs(d - p["r_max"]) < t, g, 0) * np.abs(v)).sum(1)
        tol = (np.where(d < p["r_max"] + t, g, 0) * np.abs(v)).sum(1) * (2e-4 + 10 * t * p["r_max"] / p["sigma"] ** 2) + 1e-7
        sh = np.squeeze(np.zeros(ws)).shape if F.geo.d2 else tuple(ws)
        return {"density": ("close", e.reshape(sh), 0, (amb * 1.01 + tol).reshape(sh))}


class SphereVoxelization(GaussianDensity):
    OUT = ("voxels", "box")
    tol = {}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True

    def make(self, p):
        w = p["w"] if isinstance(p["w"], int) else tuple(p["w"])
        return freud.density.SphereVoxelization(w, p["r_max"])

    def args(self, p, F):
        return (F.system(),), {}

    def model(self, p, frames):
        F = frames[-1]
        d, ws = self.dist(p, F)
        t = dist_tol(F)
        sh = np.squeeze(np.zeros(ws)).shape if F.geo.d2 else tuple(ws)
        lo = (d < p["r_max"] - t).any(1).astype(int).reshape(sh)
        hi = (d < p["r_max"] + t).any(1).astype(int).reshape(sh)
        return {"voxels": ("range", lo, hi)}


# ------------------------------------------------------------------ neighbour filters
class FilterSANN(Adapter):
    nkw = dict(kinds=("ball", "nearest", "nlist"))
    hi = 40
    lo = 8
    r_default = False

    def gen_params(self, rng, geo):
        return {}

    def make(self, p):
        return freud.locality.FilterSANN(allow_incomplete_shell=True)

    def args(self, p, F):
        return (F.system(),), self.pair_kw(F)

    def outputs(self, o):
        d = nl_out(o.filtered_nlist, "filtered")
        u = o.unfiltered_nlist
        d["unfiltered.pairs"] = arr(u[:]).reshape(-1, 2)
        d["unfiltered.distances"] = arr(u.distances)
        d["unfiltered.vectors"] = arr(u.vectors).reshape(-1, 3)
        d["unfiltered.weights"] = arr(u.weights)
        return d

    def keep(self, p, F, pts, i, js, ds, vs):
        """Positions in the distance-sorted list of query i that the definition keeps; None: undecidable."""
        m = min(3, len(ds))
        s = ds[:m].sum()
        while m < len(ds):
            r = s / (m - 2)
            if abs(r - ds[m]) < 1e-4 * F.geo.scale:
                return None
            if not r > ds[m]:
                break
            s += ds[m]
            m += 1
        return list(range(m))

    def model(self, p, frames):
        F = frames[-1]
        return {
            "filtered.pairs": ("fn", lambda o: self.check(p, F, o)), "unfiltered.pairs": ("fn", lambda o: self.unf(F, o)),
            "filtered.n": ("eq", np.array([F.nQ, F.n])),
        }

    def unf(self, F, o):
        if F.amb:
            return None
        if F.f["nb"] is None:
            v, d, _ = F.all_pairs()
            n = min(d.shape)
            eye = np.zeros(d.shape, bool)
            if F.qpts is None:
                eye[np.arange(n), np.arange(n)] = True
            i, j = np.nonzero(~eye)
        else:
            i, j, *_ = F.pairs()
        a = sorted(map(tuple, o["unfiltered.pairs"].tolist()))
        b = sorted(zip(i.tolist(), j.tolist()))
        return None if a == b else f"unfiltered list has {len(a)} bonds, expected {len(b)}"

    def check(self, p, F, o):
        up, ud = o["unfiltered.pairs"].astype(int), o["unfiltered.distances"].astype(float)
        uv = o["unfiltered.vectors"].astype(float)
        fp, fd = o["filtered.pairs"].astype(int), o["filtered.distances"].astype(float)
        if np.any(np.diff(fp[:, 0]) < 0):
            return "filtered bonds are not ordered by query point"
        for i in range(F.nQ):
            s = np.nonzero(up[:, 0] == i)[0]
            order = np.argsort(ud[s], kind="stable")
            s = s[order]
            ds = ud[s]
            if len(ds) > 1 and np.diff(ds).min() < 1e-5 * F.geo.scale:
                continue
            k = self.keep(p, F, F.pts, i, up[s, 1], ds, uv[s])
            if k is None:
                continue
            want = up[s[k], 1].tolist()
            g = fp[:, 0] == i
            got = fp[g, 1].tolist()
            if want != got:
                return f"query point {i}: kept {got}, the definition keeps {want}"
            if not np.array_equal(fd[g], ds[k]):
                return f"query point {i}: distances changed"
            if not np.array_equal(o["filtered.weights"][g], o["unfiltered.weights"][s[k]]):
                return f"query point {i}: weights changed"
            if not np.array_equal(o["filtered.vectors"][g], o["unfiltered.vectors"][s[k]]):
                return f"query point {i}: vectors changed"
        return None


class FilterRAD(FilterSANN):
    def gen_params(self, rng, geo):
        return {"term": rng.random() < 0.6, "radii": rng.random() < 0.5, "rs": rng.getrandbits(31)}

    def make(self, p):
        return freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=p["term"])

    def radii(self, p, n):
        return (0.5 + np.random.default_rng(p["rs"]).random(max(400, n))).astype(np.float32)[:n]

    def args(self, p, F):
        kw = self.pair_kw(F)
        if p["radii"]:
            kw["points_radii"] = self.radii(p, F.n)
        return (F.system(),), kw

    def keep(self, p, F, pts, i, js, ds, vs):
        rad = self.radii(p, F.n).astype(float) if p["radii"] else np.ones(F.n)
        v, tie = F.geo.wrap(F.pts[js].astype(float) - F.Q[i].astype(float))
        if (tie < 1e-5).any() or (np.sqrt((v * v).sum(-1)) < 1e-3).any():
            return None
        if F.amb and (np.abs(np.sqrt((v * v).sum(-1)) - ds) > 1e-3).any():
            return None  # a neighbour beyond the range in which its image is the nearest one
        out = []
        for a in range(len(js)):
            blocked = False
            for b in range(a):
                # j is blocked by a nearer k when R_k^2/r_k^2 cos(theta) > R_j^2/r_j^2
                ra, rb = v[a] @ v[a], v[b] @ v[b]
                cos = (v[a] @ v[b]) / np.sqrt(ra * rb)
                lhs = rad[js[a]] ** 2 / ra
                rhs = rad[js[b]] ** 2 / rb * cos
                if abs(lhs - rhs) < 2e-4 * (abs(lhs) + abs(rhs)):
                    return None
                if lhs < rhs:
                    blocked = True
                    break
            if not blocked:
                out.append(a)
            elif p["term"]:
                break
        return out


# ------------------------------------------------------------------ lists, buffers, trajectories
class QueryList(Adapter):
    """NeighborQuery.query(...).toNeighborList()"""

    default_ok = False
    r_default = False
    nkw = dict(kinds=("ball", "nearest"))

    def gen_params(self, rng, geo):
        return {"bd": rng.random() < 0.4}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng, cell=f["nb"]["t"] == "ball")
        if f["nq"]["t"] in ("tuple", "form"):
            f["nq"] = {"t": "raw", "w": 0}

    class Obj:
        _called_compute = True

        def __init__(self, bd):
            self.bd = bd

        def compute(self, nq, q, args):
            self.nlist = nq.query(q, args).toNeighborList(sort_by_distance=self.bd)
            return self

    def make(self, p):
        return self.Obj(p["bd"])

    def args(self, p, F):
        a = F.neigh_arg()
        a.setdefault("exclude_ii", F.qpts is None)
        return (F.system(), F.Q.copy(), a), {}

    def outputs(self, o):
        return nl_out(o.nlist, "nlist")

    def model(self, p, frames):
        F = frames[-1]
        if F.amb:
            return {}
        if not p["bd"]:
            return nl_model(F, "nlist")
        i, j, v, d, w = F.pairs()

        def f(o):
            pr = o["nlist.pairs"].astype(int)
            if sorted(map(tuple, pr.tolist())) != sorted(zip(i.tolist(), j.tolist())):
                return "not the neighbours of the definition"
            dd = o["nlist.distances"]
            if np.any((np.diff(pr[:, 0]) < 0) | ((np.diff(pr[:, 0]) == 0) & (np.diff(dd) < 0))):
                return "not sorted by query point, then distance"
            return cmp_close(dd, F.d[pr[:, 0], pr[:, 1]], 1e-5, dist_tol(F))

        return {"nlist.pairs": ("fn", f)}


class AllPairs(QueryList):
    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True
        f["xii"] = rng.random() < 0.5

    class Obj:
        _called_compute = True

        def compute(self, *a, **k):
            self.nlist = freud.locality.NeighborList.all_pairs(*a, **k)
            return self

    def make(self, p):
        return self.Obj()

    def args(self, p, F):
        kw = {"exclude_ii": F.f["xii"]}
        if F.qpts is not None:
            kw["query_points"] = F.qpts.copy()
        return (F.system(),), kw

    def model(self, p, frames):
        F = frames[-1]
        v, d, tie = F.all_pairs()
        i, j = np.nonzero(np.ones(d.shape, bool))
        if F.f["xii"]:
            k = i != j
            i, j = i[k], j[k]
        m = {"nlist.pairs": ("eq", np.stack([i, j], 1)), "nlist.n": ("eq", np.array([F.nQ, F.n])),
             "nlist.weights": ("eq", np.ones(len(i)))}
        if not (tie < 1e-5).any():
            # here the vectors point from the point to the query point (pinned by the repository's test)
            m["nlist.vectors"] = ("close", -v[i, j], 1e-5, dist_tol(F))
            m["nlist.distances"] = ("close", d[i, j], 1e-5, dist_tol(F))
        return m


class PeriodicBuffer(Adapter):
    OUT = ("buffer_points", "buffer_ids")
    pair = False
    query = False
    r_default = False
    hi = 25

    def gen_params(self, rng, geo):
        img = rng.random() < 0.4
        b = [rng.choice([0, 1, 1, 2]) if img else round(rng.choice([0, 1, 1]) * rng.uniform(0.05, 1.4) * min(geo.spec["L"][:2]), 3) for _ in range(3)]
        if rng.random() < 0.3:
            b = b[0]
        return {"buf": b, "img": img, "inc": rng.random() < 0.5}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True

    def make(self, p):
        return freud.locality.PeriodicBuffer()

    def args(self, p, F):
        return (F.system(), list(p["buf"]) if isinstance(p["buf"], list) else p["buf"]), {"images": p["img"], "include_input_points": p["inc"]}

    def outputs(self, o):
        b = o.buffer_box
        return {
            "buffer_points": arr(o.buffer_points).reshape(-1, 3), "buffer_ids": arr(o.buffer_ids),
            "box": np.array([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, float(b.is2D)]),
        }

    def model(self, p, frames):
        F = frames[-1]
        geo = F.geo
        buf = [p["buf"]] * 3 if not isinstance(p["buf"], list) else p["buf"]
        L = np.array([geo.H[0, 0], geo.H[1, 1], 0 if geo.d2 else geo.H[2, 2]])
        if p["img"]:
            k = [int(np.ceil(b)) for b in buf]
            nb = L * (1 + np.array(k))
            rng = [range(0, x + 1) for x in k]
        else:
            nb = L + 2 * np.array(buf)
            rng = [range(-int(np.ceil(b / l)) if l else 0, (int(np.ceil(b / l)) if l else 0) + 1) for b, l in zip(buf, L)]
        if geo.d2:
            rng[2] = range(1)
            nb[2] = 0
        t = geo.spec["tilt"]
        big = Geo({"L": [float(x) for x in nb], "tilt": t, "d2": geo.d2})
        must, may = [], []
        for pid in range(F.n):
            for a in rng[0]:
                for b in rng[1]:
                    for c in rng[2]:
                        if not p["inc"] and a == b == c == 0:
                            continue
                        x = F.pts[pid].astype(float) + geo.H @ np.array([a, b, c], float)
                        if geo.d2:
                            x[2] = 0
                        if p["img"]:
                            must.append((pid, x))
                            continue
                        f = big.frac(x) + 0.5
                        if geo.d2:
                            f = f[:2]
                        e = 2e-6
                        if (f > e).all() and (f < 1 - e).all():
                            must.append((pid, x))
                        elif (f > -e).all() and (f < 1 + e).all():
                            may.append((pid, x))

        def f(o):
            tol = 2e-5 * big.scale
            pts, ids = o["buffer_points"].astype(float), o["buffer_ids"].astype(int)
            if len(pts) != len(ids):
                return f"{len(pts)} points, {len(ids)} ids"
            left = {}
            for q in range(len(pts)):
                left.setdefault(ids[q], []).append(pts[q])

            def take(pid, x):
                for n, y in enumerate(left.get(pid, ())):
                    dlt = y - x
                    if p["img"]:
                        dlt, _ = big.wrap(dlt)
                    if np.abs(dlt).max() < tol:
                        left[pid].pop(n)
                        return True
                return False

            for pid, x in must:
                if not take(pid, x):
                    return f"image of point {pid} at {x} is missing"
            for pid, x in may:
                take(pid, x)
            extra = sum(len(x) for x in left.values())
            if extra:
                return f"{extra} buffer points are no image inside the buffer: {[k for k in left if left[k]][:3]}"
            if p["img"]:
                fr = big.frac(pts)[:, : 2 if geo.d2 else 3]
                if (np.abs(fr) > 0.5 + 1e-5).any():
                    return "buffer point outside the buffer box"
            return None

        exp = [*nb, *[np.float32(x) for x in t], float(geo.d2)]
        return {"buffer_points": ("fn", f), "box": ("close", np.array(exp, float), 1e-5, 1e-5)}


class DiffractionPattern(Adapter):
    OUT = ("diffraction", "k_values", "k_vectors", "N_points")
    accum = True
    pair = False
    query = False
    r_default = False
    hi = 40
    box_kw = {"cubic": True}
    d2 = False
    tol = {}

    def gen_params(self, rng, geo):
        return {"g": rng.choice([8, 13, 16, 24]), "o": rng.choice([None, 8, 11, 16])}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True
        f["view"] = rng.random() < 0.5
        f["zoom"] = rng.choice([1, 2, 4])
        f["pw"] = rng.choice([1, 2])
        f["wt"] = rng.random() < 0.3

    def make(self, p):
        return freud.diffraction.DiffractionPattern(grid_size=p["g"], output_size=p["o"])

    def args(self, p, F):
        kw = {"zoom": F.f["zoom"], "peak_width": F.f["pw"]}
        if F.f["view"]:
            kw["view_orientation"] = S.quats(F.f["s"], 1)[0].astype(float)
        if F.f["wt"]:
            kw["weights"] = 0.5 + np.random.default_rng(F.f["s"]).random(max(400, F.n, F.nQ))[: F.n]
        return (F.system(),), kw

    def image(self, p, F):
        """S(k) on the plane seen: exact at the whole reciprocal vectors of the projected cell, linear between them.
        Also where the image is determined, and the lab-frame components of k; None where the points' bins are not."""
        g, out, zoom = p["g"], p["o"] or p["g"], F.f["zoom"]
        kw = self.args(p, F)[1]
        q = np.asarray(kw.get("view_orientation", [1.0, 0, 0, 0]), float)
        L = F.geo.H[0, 0]
        seen = S.qrot(q[None], (F.geo.H.T).copy())  # the lattice vectors (rows) as seen
        area = np.abs(np.cross(seen[[1, 2, 0]], seen[[2, 0, 1]])[:, 2])
        best = np.sort(area)
        if best[2] - best[1] < 1e-7 * best[2]:
            return None
        b = int(np.argmax(area))
        B = seen[[(b + 1) % 3, (b + 2) % 3], :2].T  # the two lattice vectors of the projection, as columns
        f = np.linalg.solve(B, S.qrot(np.repeat(q[None], F.n, 0), F.pts.astype(float))[:, :2].T).T
        f = (f + 0.5) % 1 * g
        if (np.abs(f - np.rint(f)) < 1e-6 * g).any() and F.f["view"]:
            return None
        if (np.abs(f - np.rint(f)) < 1e-12 * g).any():
            return None
        W = np.ones(F.n)
        if "weights" in kw:
            W = kw["weights"] * F.n / kw["weights"].sum()
        bins = np.zeros((g, g))
        np.add.at(bins, tuple(np.minimum(f.astype(int), g - 1).T), W)
        h = np.arange(g) - g // 2
        E = np.exp(-2j * np.pi * np.outer(h, np.arange(g)) / g)
        G = np.exp(-2 * np.pi**2 * (F.f["pw"] / zoom) ** 2 * (h / g) ** 2)
        I = np.abs((E @ bins @ E.T) * np.outer(G, G)) ** 2 / F.n
        k1 = (np.arange(out) - out // 2) * 2 * np.pi / (L * zoom)
        K = np.stack(np.meshgrid(k1, k1, indexing="xy"), -1)  # columns are k_x, rows k_y
        X = K @ B / (2 * np.pi) + g // 2
        lo = np.floor(X).astype(int)
        fr = X - lo
        tot = np.zeros((out, out))
        for d in ((0, 0), (0, 1), (1, 0), (1, 1)):
            i = lo + d
            w = np.prod(np.where(d, fr, 1 - fr), -1)
            tot += np.where(((i >= 0) & (i < g)).all(-1), I[tuple(np.moveaxis(i.clip(0, g - 1), -1, 0))], 0) * w
        inside = ((X > 1e-6) & (X < g - 1 - 1e-6)).all(-1)
        outside = ((X < -1.001) | (X > g + 0.001)).any(-1)
        return np.where(outside, 0, tot), inside | outside, k1, q

    def model(self, p, frames):
        r = [self.image(p, F) for F in frames]
        if any(x is None for x in r):
            return {}
        img = np.mean([x[0] for x in r], axis=0)
        ok = np.all([x[1] for x in r], axis=0)
        _, _, k1, q = r[-1]
        lab = np.stack([*np.meshgrid(k1, k1, indexing="ij"), np.zeros((len(k1), len(k1)))], -1)
        kv = S.qrot(np.repeat(S.qconj(q[None]), lab[..., 0].size, 0), lab.reshape(-1, 3)).reshape(lab.shape)
        ks = np.abs(k1).max() + 1
        return {
            "diffraction": ("close", img, 1e-5, np.where(ok, 1e-5 * max(F.n for F in frames), np.inf)),
            "k_values": ("close", k1, 1e-6, 1e-6 * ks),
            "k_vectors": ("close", kv, 1e-6, 1e-6 * ks),
            "N_points": ("eq", np.array(frames[-1].n)),
        }


class MSD(Adapter):
    OUT = ("msd", "particle_msd")
    accum = True
    pair = False
    query = False
    r_default = False
    hi = 12

    def gen_params(self, rng, geo):
        return {"mode": rng.choice(["window", "direct"]), "box": geo.spec if rng.random() < 0.7 else None}

    def gen(self, rng, k=1, same=True, small=False, base=None):
        p, fr = super().gen(rng, k, same, small, base)
        T = rng.randint(1, 9)
        for f in fr:
            f["T"] = T
            if p["box"]:
                f["sys"]["box"] = p["box"]
        return p, fr

    def gen_frame(self, rng, f):
        f["no_pairs"] = True
        f["img"] = rng.random() < 0.6

    def make(self, p):
        return freud.msd.MSD(Geo(p["box"]).box() if p["box"] else None, mode=p["mode"])

    def data(self, F):
        g = np.random.default_rng(F.f["s"])
        f = g.random((F.f["T"], F.n, 3)) * 0.998 - 0.499
        pos = f @ F.geo.H.T
        if F.geo.d2:
            pos[..., 2] = 0
        img = g.integers(-2, 3, (F.f["T"], F.n, 3)) if F.f["img"] else None
        if img is not None and F.geo.d2:
            img[..., 2] = 0
        return pos.astype(np.float32), (img.astype(np.int32) if img is not None else None)

    def args(self, p, F):
        pos, img = self.data(F)
        return (pos.copy(),), ({"images": img.copy()} if img is not None else {})

    def model(self, p, frames):
        cols = []
        sc = 0
        for F in frames:
            pos, img = self.data(F)
            x = pos.astype(float)
            if p["box"] and img is not None:
                x = x + img.astype(float) @ F.geo.H.T
            sc = max(sc, np.abs(x).max() if x.size else 0)
            T = len(x)
            if p["mode"] == "direct":
                cols.append(((x - x[:1]) ** 2).sum(-1))
            else:
                c = np.zeros((T, F.n))
                for m in range(T):
                    c[m] = ((x[m:] - x[: T - m]) ** 2).sum(-1).mean(0)
                cols.append(c)
        pm = np.concatenate(cols, 1)
        tol = 2e-4 * (1 + sc) ** 2
        return {"particle_msd": ("close", pm, 1e-3, tol), "msd": ("close", pm.mean(-1), 1e-3, tol)}


# ------------------------------------------------------------------ comparisons
def cmp_close(a, b, rtol, atol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.abs(b)
        ok |= (a == b) | (np.isnan(a) & np.isnan(b)) | np.isinf(atol)
    if not ok.all():
        k = tuple(int(x) for x in np.argwhere(~ok)[0]) if a.ndim else ()
        return f"{int((~ok).sum())} of {a.size} values; at {k}: {a[k]} instead of {b[k]}"
    return None


def apply_check(chk, out, name):
    kind = chk[0]
    if kind == "fn":
        return chk[1](out)
    a = np.asarray(out[name])
    if kind == "eq":
        b = np.asarray(chk[1])
        if a.shape != b.shape:
            return f"shape {a.shape} instead of {b.shape}"
        if not (a == b).all():
            k = tuple(int(x) for x in np.argwhere(a != b)[0]) if a.ndim else ()
            return f"{int((a != b).sum())} of {a.size} values; at {k}: {a[k]} instead of {b[k]}"
        return None
    if kind == "close":
        return cmp_close(a, chk[1], chk[2], chk[3])
    if kind == "range":
        lo, hi = np.asarray(chk[1]), np.asarray(chk[2])
        if a.shape != lo.shape:
            return f"shape {a.shape} instead of {lo.shape}"
        bad = (a < lo) | (a > hi)
        if bad.any():
            k = tuple(int(x) for x in np.argwhere(bad)[0]) if a.ndim else ()
            return f"{int(bad.sum())} of {a.size} bins; at {k}: {a[k]}, the definition gives {lo[k]}..{hi[k]}"
        return None
    raise ValueError(kind)


def check_model(ad, p, frames, out):
    """First disagreement with the model, as (output, message)."""
    for name, chk in ad.model(p, frames).items():
        try:
            msg = apply_check(chk, out, name)
        except (IndexError, ValueError, KeyError, TypeError) as e:
            msg = f"result does not have the documented form: {type(e).__name__}: {e}"
        if msg:
            return name, msg
    return None


def same_value(a, b, rtol=0.0):
    """Equal arrays (rtol 0: to the bit, apart from the sign of zero and NaN payloads; None: the shape only)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if a.dtype.kind != b.dtype.kind:
        return f"type {a.dtype} instead of {b.dtype}"
    if rtol is None:
        return None
    if isinstance(rtol, tuple):
        return cmp_close(a, b, *rtol)
    if rtol:
        sc = np.abs(np.where(np.isfinite(b), b, 0)).max(initial=0)
        return cmp_close(a, b, rtol, rtol * sc + 1e-12)
    if a.dtype.kind in "fc":
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
    else:
        eq = a == b
    if not np.all(eq):
        k = tuple(int(x) for x in np.argwhere(~eq)[0]) if a.ndim else ()
        return f"{int((~eq).sum())} of {a.size} values; at {k}: {a[k]!r} instead of {b[k]!r}"
    return None


def diff_outputs(a, b, tol={}):
    """First output in which a differs from b."""
    for k in b:
        if k not in a:
            return k, "missing"
        m = same_value(a[k], b[k], tol.get(k, 0.0))
        if m:
            return k, m
    return None


from . import adapters_sph as _sph  # noqa: E402 (it needs what is defined above)

ALL = {
    c.__name__: c()
    for c in (
        RDF, CorrelationFunction, BondOrder, PMFTR12, PMFTXYT, PMFTXY, PMFTXYZ, StaticStructureFactorDebye, LocalDensity,
        Hexatic, Cluster, ClusterProperties, Interface, AngularSeparationNeighbor, AngularSeparationGlobal,
        LocalBondProjection, RotationalAutocorrelation, Cubatic, GaussianDensity, SphereVoxelization, FilterSANN, FilterRAD,
        QueryList, AllPairs, PeriodicBuffer, DiffractionPattern, MSD, *_sph.CLASSES,
    )
}
HISTS = [k for k, a in ALL.items() if isinstance(a, Hist)]
ACCUM = [k for k, a in ALL.items() if a.accum]
PARALLEL = [k for k in ALL if k not in ("ClusterProperties", "PeriodicBuffer", "DiffractionPattern", "MSD")]
