"""Adapters of the analyses built on spherical harmonics, eigenvectors and k grids (Eigen, fsph)."""

from functools import lru_cache
from fractions import Fraction
from math import factorial, lgamma

import numpy as np
from scipy.optimize import linear_sum_assignment
from scipy.special import lpmv

import freud

from . import systems as S
from .systems import Frame
from .adapters import Adapter, Cluster, arr, cmp_close, dist_tol, nl_model, nl_out


def ms(l):
    """The order of m in freud's arrays."""
    return [*range(l + 1), *range(-1, -l - 1, -1)]


def ylm(l, theta, phi, phase=True):
    """(N, 2l+1) spherical harmonics; without the Condon-Shortley phase if asked so."""
    out = []
    x = np.cos(theta)
    for m in ms(l):
        a = abs(m)
        p = lpmv(a, l, x) * (-1.0) ** a  # lpmv has the phase
        y = np.sqrt((2 * l + 1) / (4 * np.pi) * np.exp(lgamma(l - a + 1) - lgamma(l + a + 1))) * p * np.exp(1j * m * phi)
        out.append(y * ((-1.0) ** a if phase and m > 0 else 1.0))
    return np.stack(out, -1)


def angles(v, d):
    with np.errstate(all="ignore"):
        th = np.where(d > 0, np.arccos(np.clip(v[:, 2] / np.where(d > 0, d, 1), -1, 1)), 0.0)
    return th, np.arctan2(v[:, 1], v[:, 0])


def ytol(l, th, d, dt):
    with np.errstate(all="ignore"):
        t = np.where(d > 0, 4 * dt / d, 0)
    return (l + 1) ** 1.5 * (t + 2e-7 / np.maximum(np.abs(np.sin(th)), 4e-4) + 2e-6)


@lru_cache(None)
def wigner(l):
    """[(i1, i2, i3, w)] with the indices of m1, m2, m3 in ms(l)."""
    f = factorial
    delta = Fraction(f(l) ** 3, f(3 * l + 1))
    idx = {m: i for i, m in enumerate(ms(l))}
    out = []
    for m1 in range(-l, l + 1):
        for m2 in range(max(-l - m1, -l), min(l - m1, l) + 1):
            m3 = -m1 - m2
            s = 0
            for t in range(0, l + 1):
                # j1 = j2 = j3 = l
                den = [t, l - t, l - m1 - t, l + m2 - t, m1 + t, -m2 + t]
                if min(den) < 0:
                    continue
                q = 1
                for x in den:
                    q *= f(x)
                s += Fraction((-1) ** t, q)
            root = 1
            for m in (m1, m2, m3):
                root *= f(l + m) * f(l - m)
            out.append((idx[m1], idx[m2], idx[m3], float((-1) ** (-m3)) * float(delta * root * s * s) ** 0.5 * (1 if s > 0 else -1)))
    return out


def wl_of(q, l):
    """Third-order invariant of (..., 2l+1), and the sum of the magnitudes of its terms."""
    w = wigner(l)
    a = np.array([x[0] for x in w])
    b = np.array([x[1] for x in w])
    c = np.array([x[2] for x in w])
    co = np.array([x[3] for x in w])
    t = co * q[..., a] * q[..., b] * q[..., c]
    return t.sum(-1).real, np.abs(t).sum(-1)


def qlm_of(F, l, weighted):
    """Averages over the bonds of each particle: (n, 2l+1), and their tolerance (n,)."""
    i, j, v, d, w = F.pairs()
    if not weighted:
        w = np.ones(len(i))
    if F.nl is not None:
        v = F.v[i, j]
        d = np.sqrt((v**2).sum(1))
    th, ph = angles(v, d)
    q = np.zeros((F.n, 2 * l + 1), complex)
    tw = np.zeros(F.n)
    tol = np.zeros(F.n)
    np.add.at(q, i, w[:, None] * ylm(l, th, ph))
    np.add.at(tw, i, w)
    np.add.at(tol, i, w * ytol(l, th, d, dist_tol(F)))
    with np.errstate(all="ignore"):
        return q / tw[:, None], np.where(tw > 0, tol / tw, 0)


class Steinhardt(Adapter):
    OUT = ("order", "particle_order", "ql", "particle_harmonics")
    tol = {"order": (1e-3, 2e-4)}
    query = False
    default_ok = False
    r_default = False
    hi = 40

    def gen_params(self, rng, geo):
        ls = rng.choice([[6], [4], [2], [3], [8], [1], [0], [4, 6], [6, 2, 3], [5], [10], [rng.randint(9, 20)], [rng.randint(7, 20), 6]])
        wl = rng.random() < 0.4
        return {"l": ls, "ave": rng.random() < 0.4, "wl": wl, "wt": rng.random() < 0.4, "nrm": rng.random() < 0.5}

    def gen_frame(self, rng, f):
        nb = f["nb"]
        if nb and nb["t"] == "ball" and rng.random() < 0.6:
            nb["f"] = round(rng.uniform(0.5, 0.97), 3)
            nb.pop("fmin", None)

    def make(self, p):
        l = p["l"] if len(p["l"]) > 1 else p["l"][0]
        return freud.order.Steinhardt(l, average=p["ave"], wl=p["wl"], weighted=p["wt"], wl_normalize=p["nrm"])

    def args(self, p, F):
        return (F.system(),), self.pair_kw(F, False)

    def read(self, o, name):
        x = getattr(o, name)
        if name == "particle_harmonics":
            return np.concatenate(x if isinstance(x, list) else [x], -1)
        return arr(x)

    def model(self, p, frames):
        F = frames[-1]
        if F.amb or F.n == 0:
            return {}
        ql, qt, po, pt, ha, ht, order, ot = [], [], [], [], [], [], [], []
        with np.errstate(all="ignore"):
            for l in p["l"]:
                q, tol = qlm_of(F, l, p["wt"])
                ha.append(q)
                ht.append(np.repeat(tol[:, None], q.shape[1], 1))
                if p["ave"]:
                    i, j, *_ = F.pairs()
                    a, b, c = q.copy(), tol.copy(), np.ones(F.n)
                    np.add.at(a, i, q[j])
                    np.add.at(b, i, tol[j])
                    np.add.at(c, i, 1)
                    q, tol = a / c[:, None], b / c
                f = 4 * np.pi / (2 * l + 1)
                m = np.sqrt(f * (np.abs(q) ** 2).sum(-1))
                ql.append(m)
                qt.append(4 * tol + 1e-5)
                g = q.mean(0)
                gm, gt = np.sqrt(f * (np.abs(g) ** 2).sum()), 4 * tol.mean() + 1e-5
                if not p["wl"]:
                    po.append(ql[-1])
                    pt.append(qt[-1])
                    order.append(gm)
                    ot.append(gt)
                    continue
                for src, mag, tt, dst, dt in ((q, m, tol + 1e-6, po, pt), (g, gm, tol.mean() + 1e-6, order, ot)):
                    w, ab = wl_of(src, l)
                    top = np.abs(src).max(-1)
                    err = 3 * tt * (top + tt) ** 2 * np.abs([x[3] for x in wigner(l)]).sum() + 1e-5 * ab
                    if p["nrm"]:
                        k = np.sqrt(f) / mag
                        rel = 3 * 4 * tt / mag
                        w = w * k**3
                        # undetermined where the magnitude is not
                        err = np.where(rel < 0.3, err * k**3 + 2 * rel * np.abs(w), np.inf)
                    dst.append(w)
                    dt.append(err + 1e-6)
        sq = (lambda x: x[0]) if len(p["l"]) == 1 else (lambda x: np.stack(x, -1))
        return {
            "ql": ("close", sq(ql), 0, sq(qt)), "particle_order": ("close", sq(po), 0, sq(pt)),
            "particle_harmonics": ("close", np.concatenate(ha, -1), 0, np.concatenate(ht, -1) + 1e-5),
            "order": ("close", np.array(sq(order)), 0, np.array(sq(ot))),
        }


class SolidLiquid(Adapter):
    OUT = ("cluster_idx", "cluster_sizes", "largest_cluster_size", "ql_ij", "num_connections", "particle_harmonics")
    query = False
    default_ok = False
    r_default = False
    hi = 40

    def gen_params(self, rng, geo):
        nrm = rng.random() < 0.6
        return {
            "l": rng.choice([6, 6, 4, 3, 2, 8]), "thr": round(rng.uniform(0, 0.8 if nrm else 0.3), 3),
            "sol": rng.choice([0, 1, 2, 3, 5]), "nrm": nrm,
        }

    def make(self, p):
        return freud.order.SolidLiquid(p["l"], p["thr"], p["sol"], normalize_q=p["nrm"])

    def args(self, p, F):
        return (F.system(),), self.pair_kw(F, False)

    def outputs(self, o):
        d = super().outputs(o)
        d.update(nl_out(o.nlist, "nlist"))
        return d

    def model(self, p, frames):
        F = frames[-1]
        if F.amb or F.n == 0:
            return {}
        m = nl_model(F, "nlist")
        l = p["l"]
        q, tol = qlm_of(F, l, False)
        m["particle_harmonics"] = ("close", q, 0, tol[:, None] + 1e-5)
        bonds = m["nlist.pairs"][1].astype(int)
        i, j = bonds[:, 0], bonds[:, 1]
        with np.errstate(all="ignore"):
            f = 4 * np.pi / (2 * l + 1)
            mag = np.sqrt((np.abs(q) ** 2).sum(-1))
            dot = (q[i] * q[j].conj()).sum(-1).real
            err = (tol[i] * mag[j] + tol[j] * mag[i]) * np.sqrt(2 * l + 1) + 1e-5
            if p["nrm"]:
                den = mag[i] * mag[j]
                dot, err = dot / den, 4 * err / den + 1e-5
        m["ql_ij"] = ("close", dot, 0, np.where(np.isfinite(err), err, np.inf))

        # the rest follows from the reported products
        def rest(o):
            solid = o["ql_ij"].astype(np.float32) > np.float32(p["thr"])
            con = np.bincount(i[solid], minlength=F.n)
            if (con != o["num_connections"]).any():
                return f"num_connections {o['num_connections']} instead of {con}"
            keep = solid & (con[i] >= p["sol"]) & (con[j] >= p["sol"])
            par = list(range(F.n))

            def find(a):
                while par[a] != a:
                    a = par[a]
                return a

            for a, b in zip(i[keep], j[keep]):
                ra, rb = find(a), find(b)
                par[max(ra, rb)] = min(ra, rb)
            groups = {}
            for a in range(F.n):
                groups.setdefault(find(a), []).append(a)
            order = sorted(groups.values(), key=lambda g: (-len(g), g[0]))
            idx = np.zeros(F.n, int)
            for c, g in enumerate(order):
                idx[g] = c
            if (idx != o["cluster_idx"]).any():
                return f"cluster_idx {o['cluster_idx']} instead of {idx}"
            sizes = [len(g) for g in order]
            if list(o["cluster_sizes"]) != sizes:
                return f"cluster_sizes {o['cluster_sizes']} instead of {sizes}"
            if int(o["largest_cluster_size"]) != sizes[0]:
                return f"largest_cluster_size {o['largest_cluster_size']} instead of {sizes[0]}"
            return None

        m["cluster_idx"] = ("fn", rest)
        return m


class Nematic(Adapter):
    OUT = ("order", "director", "particle_tensor", "nematic_tensor")
    tol = {"order": (1e-4, 1e-5), "nematic_tensor": (1e-4, 1e-6), "director": None}
    pair = False
    query = False
    r_default = False
    hi = 80

    def gen_params(self, rng, geo):
        return {}

    def gen_frame(self, rng, f):
        f["no_pairs"] = True
        f["al"] = rng.choice([0, 0, 1, 3])

    def make(self, p):
        return freud.order.Nematic()

    def data(self, F):
        g = np.random.default_rng(F.f["s"])
        u = g.normal(size=(max(400, F.n, F.nQ), 3))[: F.n] + F.f["al"] * np.array([0.6, 0, 0.8])
        return u.astype(np.float32)

    def args(self, p, F):
        return (self.data(F).copy(),), {}

    def model(self, p, frames):
        F = frames[-1]
        u = self.data(F).astype(float)
        u /= np.linalg.norm(u, axis=1)[:, None]
        t = 1.5 * u[:, :, None] * u[:, None, :] - 0.5 * np.eye(3)
        T = t.mean(0)
        val = np.linalg.eigvalsh(T)

        def f(o):
            d = o["director"].astype(float)
            if d.shape != (3,):
                return f"shape {d.shape}"
            if abs(np.linalg.norm(d) - 1) > 1e-4:
                return f"director {d} is no unit vector"
            if np.abs(T @ d - val[-1] * d).max() > 1e-4:
                return f"director {d} does not belong to the largest eigenvalue of {T.tolist()}"
            return None

        return {
            "particle_tensor": ("close", t, 1e-4, 1e-5), "nematic_tensor": ("close", T, 1e-4, 1e-5),
            "order": ("close", np.array(val[-1]), 1e-4, 1e-4), "director": ("fn", f),
        }


class LocalDescriptors(Adapter):
    OUT = ("sph", "num_sphs")
    default_ok = False
    r_default = False
    hi = 35

    def gen_params(self, rng, geo):
        return {"l": rng.choice([0, 1, 2, 4, 6]), "neg": rng.random() < 0.7, "mode": rng.choice(["neighborhood", "global", "particle_local"])}

    def gen_frame(self, rng, f):
        f["max"] = rng.choice([0, 0, 1, 3, 5])

    def make(self, p):
        return freud.environment.LocalDescriptors(p["l"], negative_m=p["neg"], mode=p["mode"])

    def args(self, p, F):
        kw = self.pair_kw(F)
        kw["max_num_neighbors"] = F.f["max"]
        if p["mode"] == "particle_local":
            kw["orientations"] = S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.nQ].copy()
        return (F.system(),), kw

    def outputs(self, o):
        d = super().outputs(o)
        d.update(nl_out(o.nlist, "nlist"))
        return d

    def model(self, p, frames):
        F = frames[-1]
        m = nl_model(F, "nlist")
        if F.amb:
            return {}
        pr = m["nlist.pairs"][1].astype(int)
        v = m["nlist.vectors"][1]
        d = np.linalg.norm(v, axis=1)
        i = pr[:, 0]
        m["num_sphs"] = ("eq", np.array(len(pr)))
        mx = F.f["max"] or 10**9
        first = np.searchsorted(i, i)
        used = np.arange(len(i)) - first < mx
        width = (p["l"] + 1) ** 2 if p["neg"] else (p["l"] + 1) * (p["l"] + 2) // 2
        cols = [slice(l * l, (l + 1) ** 2) if p["neg"] else slice(l * (l + 1) // 2, (l + 1) * (l + 2) // 2) for l in range(p["l"] + 1)]

        def expect(u):
            with np.errstate(all="ignore"):
                th, ph = angles(u, np.linalg.norm(u, axis=1))
            e = np.zeros((len(u), width), complex)
            t = np.zeros((len(u), width))
            for l in range(p["l"] + 1):
                y = ylm(l, th, ph, False)
                e[:, cols[l]] = y if p["neg"] else y[:, : l + 1]
                t[:, cols[l]] = ytol(l, th, d, dist_tol(F))[:, None]
            return e, t

        def f(o):
            s = o["sph"].astype(complex)
            if s.shape != (len(pr), width):
                return f"shape {s.shape} instead of {(len(pr), width)}"
            if s[~used].any():
                return "a bond beyond max_num_neighbors is set"
            ok = used & (d > 0)
            if p["mode"] == "neighborhood":
                if p["l"] == 0:
                    u = v
                else:
                    c = np.sqrt(4 * np.pi / 3)
                    z = s[:, cols[1].start].real * c
                    xy = s[:, cols[1].start + 1] * np.sqrt(8 * np.pi / 3)
                    u = np.stack([xy.real, xy.imag, z], -1) * d[:, None]
                    r = self.rotated(i, v, d, u, ok, F)
                    if r:
                        return r
            elif p["mode"] == "particle_local":
                u = S.qrot(S.qconj(S.quats(F.f["s"], max(400, F.n, F.nQ))[: F.nQ])[i], v)
            else:
                u = v
            e, t = expect(u)
            bad = ~(np.abs(s - e) <= t) & ok[:, None]
            if bad.any():
                k = tuple(int(x) for x in np.argwhere(bad)[0])
                return f"{int(bad.sum())} of {s.size} values; at {k}: {s[k]} instead of {e[k]}"
            return None

        m["sph"] = ("fn", f)
        return m

    def rotated(self, i, v, d, u, ok, F):
        """u has to be v turned (or mirrored) onto the axes of the bonds' inertia tensor."""
        for q in np.unique(i):
            s = (i == q) & ok
            a, b = v[s], u[s]
            sc = (d[s] ** 2).max(initial=0) + 1e-9
            g = np.abs(a @ a.T - b @ b.T).max(initial=0)
            if g > 2e-3 * sc + 10 * dist_tol(F) * np.sqrt(sc):
                return f"the bonds of query point {q} are not just turned: dot products differ by {g}"
            T = (b**2).sum() * np.eye(3) - b.T @ b
            off = np.abs(T - np.diag(np.diag(T))).max()
            tol = (2e-3 * sc + 10 * dist_tol(F) * np.sqrt(sc)) * len(b)
            if off > tol:
                return f"the inertia tensor of query point {q} is not diagonal in its frame: {T.tolist()}"
            dg = np.diag(T)
            if (np.diff(dg) < -tol).any():
                return f"principal moments of query point {q} are not in ascending order: {dg}"
        return None


class StaticStructureFactorDirect(Adapter):
    OUT = ("S_k", "k_points", "min_valid_k", "bin_edges")
    accum = True
    pair = False
    tol = {"S_k": (1e-4, 1e-5)}
    hi = 22
    r_default = False

    def gen_params(self, rng, geo):
        top = rng.uniform(1.5, 5.5) * 2 * np.pi / geo.scale
        lo = round(rng.uniform(0, 0.6) * top, 3) if rng.random() < 0.5 else 0
        return {"bins": rng.randint(1, 12), "k_max": round(top, 3), "k_min": lo}

    def gen_frame(self, rng, f):
        f["nq"] = S.gen_nq(rng)
        f["no_pairs"] = True
        f["ntot"] = rng.randint(1, 60)

    def make(self, p):
        return freud.diffraction.StaticStructureFactorDirect(p["bins"], p["k_max"], p["k_min"], 0)

    def args(self, p, F):
        kw = {}
        if F.qpts is not None:
            kw = {"query_points": F.qpts.copy(), "N_total": F.f["ntot"]}
        return (F.system(),), kw

    def read(self, o, name):
        x = arr(getattr(o, name))
        if name == "k_points":  # in no particular order
            x = x.reshape(-1, 3)
            x = x[np.lexsort(x.T[::-1])]
        return x

    def grid(self, p, F):
        """Vectors of the reciprocal grid between k_min and k_max, and whether there is any doubt which they are."""
        geo = F.geo
        B = 2 * np.pi * np.linalg.inv(geo.H[:2, :2] if geo.d2 else geo.H)  # rows: reciprocal vectors
        k0, k1 = float(np.float32(p["k_min"])), float(np.float32(p["k_max"]))
        n = np.ceil(k1 / np.linalg.norm(B, axis=1) - 1e-9).astype(int)
        idx = np.stack(np.meshgrid(*[np.arange(max(x, 0) + 1) for x in n], indexing="ij"), -1).reshape(-1, len(n))
        kv = idx @ B
        mag = np.linalg.norm(kv, axis=1)
        e = 2e-5 * k1
        sure = (idx < n).all(1) & (mag > k0 + e) & (mag < k1 - e)
        if k0 == 0:
            sure |= (idx == 0).all(1)
        maybe = (mag > k0 - e) & (mag < k1 + e) & ~sure
        kv = np.concatenate([kv, np.zeros((len(kv), 1))], 1) if geo.d2 else kv
        amb = maybe & ((np.abs(mag - k0) <= e) | (np.abs(mag - k1) <= e))
        return kv[sure], mag[sure], bool(amb.any())

    def sk(self, F, kv):
        fp = np.exp(1j * kv @ F.pts.astype(float).T).sum(1)
        fq = np.exp(1j * kv @ F.Q.astype(float).T).sum(1)
        return (fp.conj() * fq).real / (F.f["ntot"] if F.qpts is not None else F.n)

    def model(self, p, frames):
        F = frames[-1]
        edges = np.linspace(float(np.float32(p["k_min"])), float(np.float32(p["k_max"])), p["bins"] + 1)
        out = {"bin_edges": ("close", edges, 1e-5, 1e-6)}
        kmin = np.inf
        for f in frames:
            L = [float(np.float32(x)) for x in f.f["sys"]["box"]["L"]]
            kmin = min(kmin, 2 * np.pi / min(L[:2] if f.geo.d2 else L))
        out["min_valid_k"] = ("close", np.array(kmin), 1e-5, 0)
        kv, mag, amb = self.grid(p, F)
        if not amb:
            kv = kv[np.lexsort(kv.T[::-1])]

            def pts(o, kv=kv, mag=mag):
                k = o["k_points"].astype(float)
                if len(k) != len(kv):
                    return f"{len(k)} k points instead of {len(kv)}"
                d = np.abs(k[:, None] - kv[None]).max(-1)
                if len(k) and (d.min(1).max() > 1e-4 * (1 + mag.max()) or d.min(0).max() > 1e-4 * (1 + mag.max())):
                    return f"k points {k.tolist()} instead of {kv.tolist()}"
                return None

            out["k_points"] = ("fn", pts)
        tot, cnt, err = np.zeros(p["bins"]), np.zeros(p["bins"]), np.zeros(p["bins"])
        for f in frames:
            kv, mag, amb = self.grid(p, f)
            w = edges[1] - edges[0]
            x = (mag - edges[0]) / w
            near = np.abs(x - np.rint(x)) < 1e-4
            near &= ~((mag == 0) & (edges[0] == 0))
            if amb or near.any():
                return out
            b = np.floor(x).astype(int)
            np.add.at(tot, b, self.sk(f, kv))
            np.add.at(cnt, b, 1)
            m = (len(f.pts) * len(f.Q)) / (f.f["ntot"] if f.qpts is not None else f.n)
            np.add.at(err, b, m * 2e-6 * (1 + p["k_max"] * f.geo.scale))
        with np.errstate(all="ignore"):
            out["S_k"] = ("close", np.where(cnt > 0, tot / cnt, 0), 1e-4, np.where(cnt > 0, err / cnt, 0) + 1e-5)
        return out


# ------------------------------------------------------------------ matching environments
def norms(v):
    return np.sqrt((np.asarray(v, float).reshape(-1, 3) ** 2).sum(-1))


def lists(x):
    """A list of (k, 3) arrays as one array: how many, how long, the vectors."""
    x = [np.asarray(a, float).reshape(-1, 3) for a in x]
    return np.concatenate([[len(x)], [len(a) for a in x], *[a.ravel() for a in x]])


def unlists(f):
    n = int(f[0])
    k = f[1 : n + 1].astype(int)
    v = f[n + 1 :].reshape(-1, 3)
    assert len(v) == k.sum()
    return np.split(v, np.cumsum(k)[:-1]) if n else []


def same_set(a, b, tol):
    """The rows of a are those of b in some order."""
    if len(a) != len(b):
        return False
    if not len(a):
        return True
    d = norms(a[:, None] - b[None]).reshape(len(a), len(b))
    i, j = linear_sum_assignment(d)
    return d[i, j].max() <= tol


def collinear(a):
    """Three of the vectors are on one line through the origin, or close to it."""
    r = norms(a)
    if len(a) < 3 or (r <= 0).any():
        return len(a) > 2
    u = a / r[:, None]
    c = np.abs(u @ u.T) > 0.99
    return bool((c.sum(1) > 2).any())


def similar(a, b, thr, tol, reg):
    """True, False, or None where the definition does not settle it."""
    if len(a) != len(b) or not len(a):
        return False
    if reg:
        if np.abs(np.sort(norms(a)) - np.sort(norms(b))).max() > thr + 2 * tol:
            return False  # no rotation brings them that close
        if not collinear(a) and not collinear(b) and same_set(a, b, 10 * tol) and thr > 400 * tol:
            return True
        return None
    d = norms(a[:, None] - b[None]).reshape(len(a), len(b))
    sure, may = d < thr - tol, d < thr + tol
    if not may.any(0).all() or not may.any(1).all():
        return False
    if (sure.sum(0) == 1).all() and (sure.sum(1) == 1).all() and (sure == may).all():
        return True
    return None  # several partners: it depends on the order in which they are taken


class MatchEnv(Adapter):
    big = False
    query = False
    default_ok = False
    r_default = False
    hi = 30
    outlists = ("point_environments",)

    def gen_params(self, rng, geo):
        return {"reg": rng.random() < 0.35, "thr": rng.choice([0.02, 0.1, 0.2, 0.35, 0.6])}

    def gen(self, rng, k=1, same=True, small=False, base=None):
        p, frames = super().gen(rng, k, same, small, base)
        for f in frames:
            if base is None:
                f["sys"]["pk"] = rng.choice(["jit", "jit", "lat", "lat", "uni"])
        return p, frames

    def gen_frame(self, rng, f):
        if f["nb"]["t"] == "nearest":
            f["nb"]["k"] = rng.randint(1, 6)
        elif "f" in f["nb"]:
            f["nb"]["f"] = round(rng.uniform(0.2, 0.6), 3)

    def thr(self, p, F):
        m = max(1, int(np.ceil(F.n ** (1 / (2 if F.geo.d2 else 3)))))
        return float(np.float32(p["thr"] * F.geo.planes.min() / m))

    def read(self, o, name):
        x = getattr(o, name)
        return lists(x) if name in self.outlists else arr(x)

    def envs(self, F):
        i, j, v, *_ = F.pairs()
        return [v[(i == k) & (j != k)] for k in range(F.n)]

    def check_points(self, env, got, reg, tol):
        if len(got) != len(env):
            return f"{len(got)} point environments for {len(env)} points"
        for k, (a, b) in enumerate(zip(got, env)):
            if reg:
                ok = len(a) == len(b) and np.abs(np.sort(norms(a)) - np.sort(norms(b))).max(initial=0) < 5 * tol
            else:
                ok = same_set(a, b, tol)
            if not ok:
                return f"environment of point {k} is {a.tolist()} instead of {b.tolist()}"
        return None


class EnvironmentCluster(MatchEnv):
    OUT = ("cluster_idx", "num_clusters", "cluster_environments", "point_environments")
    outlists = ("cluster_environments", "point_environments")

    def gen_frame(self, rng, f):
        super().gen_frame(rng, f)
        f["env"] = None
        if rng.random() < 0.5:
            f["env"] = {"t": "ball", "f": round(rng.uniform(0.1, 0.5), 3)} if rng.random() < 0.5 else {"t": "nearest", "k": rng.randint(1, 6)}

    def searches_not(self, f):
        return super().searches_not(f) and not f["env"]

    def make(self, p):
        return freud.environment.EnvironmentCluster()

    def other(self, F):
        return Frame(dict(F.f, nb=F.f["env"])) if F.f["env"] else F

    def args(self, p, F):
        kw = {"cluster_neighbors": F.neigh_arg(), "registration": p["reg"]}
        if F.f["env"]:
            kw["env_neighbors"] = self.other(F).neigh_arg()
        return (F.system(), self.thr(p, F)), kw

    def model(self, p, frames):
        F = frames[-1]
        G = self.other(F)
        if F.amb or G.amb:
            return {}
        env = self.envs(G)
        thr, tol = self.thr(p, F), dist_tol(F)
        i, j, *_ = F.pairs()

        def comps(edges):
            par = list(range(F.n))

            def find(a):
                while par[a] != a:
                    a = par[a]
                return a

            for a, b in edges:
                ra, rb = find(a), find(b)
                par[max(ra, rb)] = min(ra, rb)
            return np.array([find(a) for a in range(F.n)], int)

        sim = [(int(a), int(b), similar(env[a], env[b], thr, tol, p["reg"])) for a, b in zip(i, j) if a != b]
        low = comps([(a, b) for a, b, s in sim if s])
        high = comps([(a, b) for a, b, s in sim if s is not False])

        def idx(o):
            c = o["cluster_idx"].astype(int)
            if c.shape != (F.n,):
                return f"shape {c.shape}"
            seen = 0
            for k, x in enumerate(c):
                if x > seen:
                    return f"cluster_idx {c}: numbers do not follow the first points of the clusters"
                seen = max(seen, x + 1)
                if c[low[k]] != x:
                    return f"points {low[k]} and {k} are linked by matching environments, but in clusters {c[low[k]]} and {x}"
                q = [y for y in range(F.n) if c[y] == x and high[y] != high[k]]
                if q:
                    return f"points {k} and {q[0]} are in one cluster, though no matching environments link them"
            if int(o["num_clusters"]) != seen:
                return f"num_clusters {o['num_clusters']} instead of {seen}"
            return None

        def pts(o):
            return self.check_points(env, unlists(o["point_environments"]), p["reg"], tol)

        def cl(o):
            c = o["cluster_idx"].astype(int)
            pe, ce = unlists(o["point_environments"]), unlists(o["cluster_environments"])
            if len(ce) != len(set(c)):
                return f"{len(ce)} cluster environments for {len(set(c))} clusters"
            if len(pe) != F.n:
                return None
            for k, e in enumerate(ce):
                m = np.mean([pe[x] for x in range(F.n) if c[x] == k], axis=0)
                r = cmp_close(e, m.reshape(-1, 3), 1e-4, 1e-5 * F.geo.scale)
                if r:
                    return f"environment of cluster {k} is not the mean of its points': {r}"
            return None

        return {"cluster_idx": ("fn", idx), "point_environments": ("fn", pts), "cluster_environments": ("fn", cl)}


class Motif(MatchEnv):
    def gen_frame(self, rng, f):
        super().gen_frame(rng, f)
        f["motif"] = {
            "of": rng.randint(0, 100) if rng.random() < 0.85 else -1, "rot": rng.random() < 0.5, "s": rng.getrandbits(32),
            "noise": rng.choice([0, 0, 0.05, 0.3]), "k": rng.randint(1, 6),
        }

    def motif(self, p, F):
        m = F.f["motif"]
        g = np.random.default_rng(m["s"])
        env = self.envs(F)
        u = g.normal(size=(m["k"], 3)) * F.geo.rcut * 0.3
        if m["of"] >= 0 and len(env[m["of"] % F.n]):
            u = env[m["of"] % F.n]
            u = u[g.permutation(len(u))] + g.normal(size=u.shape) * m["noise"] * self.thr(p, F)
            if m["rot"] and p["reg"] and not F.geo.d2:
                u = S.qrot(S.quats(m["s"], 1)[0], u)
        if F.geo.d2:
            u[:, 2] = 0
        return np.ascontiguousarray(u, dtype=np.float32)

    def wrapped(self, p, F):
        w, tie = F.geo.wrap(self.motif(p, F).astype(float))
        return w, bool((tie < 1e-4).any())


class EnvironmentMotifMatch(Motif):
    OUT = ("matches", "point_environments")

    def make(self, p):
        return freud.environment.EnvironmentMotifMatch()

    def args(self, p, F):
        return (F.system(), self.motif(p, F), self.thr(p, F)), {"env_neighbors": F.neigh_arg(), "registration": p["reg"]}

    def model(self, p, frames):
        F = frames[-1]
        if F.amb:
            return {}
        mot, tie = self.wrapped(p, F)
        if tie:
            return {}
        env = self.envs(F)
        thr, tol = self.thr(p, F), dist_tol(F)
        m = F.f["motif"]
        sim = [similar(mot, e, thr, tol, p["reg"]) for e in env]
        if p["reg"] and m["of"] >= 0 and m["rot"] and not m["noise"] and thr > 400 * tol:
            k = m["of"] % F.n
            # the motif is this environment, turned: if it was not changed when put into the box
            if len(env[k]) == len(mot) and not collinear(mot) and np.abs(mot - self.motif(p, F)).max(initial=0) < tol:
                sim[k] = bool(len(mot))

        def hit(o):
            x = o["matches"]
            if x.shape != (F.n,) or x.dtype != bool:
                return f"{x.dtype} {x.shape}"
            for k, s in enumerate(sim):
                if s is not None and s != x[k]:
                    return f"point {k} {'matches' if x[k] else 'does not match'}: {env[k].tolist()} and the motif {mot.tolist()}, {thr}"
            return None

        def pts(o):
            pe = unlists(o["point_environments"])
            r = self.check_points(env, pe, p["reg"], tol)
            if r:
                return r
            for k in np.nonzero(o["matches"])[0]:
                if norms(pe[k] - mot).max(initial=0) > thr + 5 * tol:
                    return f"point {k} matches, but its environment {pe[k].tolist()} is not put in line with the motif {mot.tolist()}"
            return None

        return {"matches": ("fn", hit), "point_environments": ("fn", pts)}


class EnvironmentRMSDMinimizer(Motif):
    OUT = ("rmsds", "point_environments")

    def make(self, p):
        return freud.environment._EnvironmentRMSDMinimizer()

    def args(self, p, F):
        return (F.system(), self.motif(p, F)), {"neighbors": F.neigh_arg(), "registration": p["reg"]}

    def model(self, p, frames):
        F = frames[-1]
        if F.amb:
            return {}
        mot, tie = self.wrapped(p, F)
        if tie:
            return {}
        env = self.envs(F)
        tol = dist_tol(F)
        m = F.f["motif"]

        def f(o):
            x = o["rmsds"].astype(float)
            if x.shape != (F.n,):
                return f"shape {x.shape}"
            pe = unlists(o["point_environments"])
            for k, e in enumerate(env):
                if len(e) != len(mot):
                    if x[k] != -1:
                        return f"point {k}: {x[k]} for {len(e)} vectors and a motif of {len(mot)}"
                    continue
                if not len(e):
                    continue
                if p["reg"]:
                    lo = np.sqrt(np.mean((np.sort(norms(e)) - np.sort(norms(mot))) ** 2))
                    hi = np.inf
                    if m["of"] >= 0 and k == m["of"] % F.n and not m["noise"] and not collinear(mot):
                        if np.abs(mot - self.motif(p, F)).max() < tol:
                            hi = 100 * tol
                else:
                    d = norms(e[:, None] - mot[None]).reshape(len(e), -1)
                    a, b = linear_sum_assignment(d**2)
                    lo, hi = np.sqrt((d[a, b] ** 2).mean()), np.inf
                    near = np.sort(d, 1)
                    if len(set(d.argmin(1))) == len(e) and (d.shape[1] == 1 or (near[:, 1] - near[:, 0] > tol).all()):
                        hi = lo
                if not lo - 3 * tol <= x[k] <= hi + 3 * tol:
                    return f"point {k}: rmsd {x[k]} is not between {lo} and {hi}"
                if len(pe) == F.n:
                    r = np.sqrt((norms(pe[k] - mot) ** 2).mean())
                    if abs(r - x[k]) > 10 * tol:
                        return f"point {k}: rmsd {x[k]}, but its environment put in line is {r} away from the motif: {e.tolist()}, {pe[k].tolist()}, {mot.tolist()}"
            return None

        def pts(o):
            return self.check_points(env, unlists(o["point_environments"]), p["reg"], tol)

        return {"rmsds": ("fn", f), "point_environments": ("fn", pts)}


CLASSES = (
    Steinhardt, SolidLiquid, Nematic, LocalDescriptors, StaticStructureFactorDirect, EnvironmentCluster, EnvironmentMotifMatch,
    EnvironmentRMSDMinimizer,
)
