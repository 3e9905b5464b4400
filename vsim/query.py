"""Neighbour queries and what they have to return (float64, brute force)."""

import numpy as np

import freud

from . import systems as S


def gen_system(rng, cell=True, hi=60, big=True):
    s = S.gen_sys(rng, lo=1, hi=hi, big=big)
    return {"sys": s, "nq": S.gen_nq(rng, cell=cell), "no_pairs": True}


def gen_query(rng, cell=False, hi=40):
    """Query arguments and points; lengths are fractions of the largest admissible radius."""
    q = {"self": rng.random() < 0.35, "n": S.gen_n(rng, 1, hi), "ps": rng.getrandbits(32)}
    if cell or rng.random() < 0.5:
        q["t"] = "ball"
        q["f"] = round(rng.uniform(0.08, 0.99), 3)
        if rng.random() < 0.35:
            q["fmin"] = round(rng.uniform(0.02, 0.95), 3)
    else:
        q["t"] = "nearest"
        q["k"] = rng.choice([1, 1, 2, 3, 4, 6, 8, 12, 20])
        if rng.random() < 0.3:
            q["f"] = round(rng.uniform(0.2, 0.99), 3)
        if rng.random() < 0.25:
            q["fmin"] = round(rng.uniform(0.02, 0.5), 3)
            if "f" not in q and rng.random() < 0.5:
                q["fmin"] = round(rng.uniform(0.3, 2.6), 3)
        if rng.random() < 0.3:
            q["rg"] = round(rng.uniform(0.03, 1.6), 3)
        if rng.random() < 0.3:
            q["scale"] = round(rng.uniform(1.01, 2.0), 3) if rng.random() < 0.6 else round(rng.uniform(1.01, 1.2), 3)
    q["ii"] = rng.random() < 0.5
    q["mode"] = rng.random() < 0.4
    q["pts"] = rng.choice(["arr", "arr", "list", "f64", "strided"])
    if not q["self"] and rng.random() < 0.03:
        q["n"] = 0
        q["pts"] = rng.choice(["arr", "f64"])
    return q


def on_grid(rng, s):
    """Make a system whose distances are exact in single precision, so that what lies at a cutoff is decided."""
    b = s["sys"]["box"]
    b["L"] = [rng.choice([4, 8, 16]) for _ in range(3)]
    b["tilt"] = [0, 0, 0]
    if b["d2"]:
        b["L"][2] = 0
    s["sys"]["pk"] = "grid"
    s["sys"]["grid"] = rng.choice([0.5, 0.5, 1, 0.25])


class Query:
    """One query against Frame F: the call's arguments and the permitted answer."""

    def __init__(self, F, q):
        self.q = q
        geo = F.geo
        lim = geo.rcut * 0.995
        if q["self"]:
            P = F.pts
        else:
            P = S.make_points(F.f["sys"], geo, n=q["n"], ps=q["ps"], pk="grid" if F.f["sys"]["pk"] == "grid" else "uni")
        self.P = P
        e = self.eps = 4e-6 * geo.scale + 2e-6
        raw = F.pts.astype(float)[None] - P.astype(float)[:, None]
        v, tie = geo.wrap(raw)
        # how far the search has to go when no largest distance is given: a cell list to where images stop being
        # unique, the other structures on to the largest distance between planes, less one growth of the search radius
        reach = lim
        if q["t"] == "nearest" and "f" not in q and F.f["nq"]["t"] not in ("link", "cell"):
            reach = max(lim, float(geo.planes.max()) / q.get("scale", 1.1) * (1 - 1e-5) - 2 * e)
            parts = [self.nearest_image(geo, raw[k : k + 64], e) for k in range(0, len(raw), 64)]
            if parts:
                v, tie = (np.concatenate(x) for x in zip(*parts))
        d = np.sqrt((v * v).sum(-1))
        self.v, self.d, self.tie = v, d, tie
        self.n, self.nq = F.n, len(P)
        exact = q["t"] == "ball" and F.f["sys"]["pk"] == "grid"
        a = {}
        r = float(np.float32(q["f"] * lim)) if "f" in q else None
        rmin = 0.0
        if q.get("fmin"):
            rmin = float(np.float32(q["fmin"] * (r if r else lim * 0.5)))
        if exact:
            e = 0.0
            g = F.f["sys"]["grid"]
            r = max(g, r // g * g)
            rmin = rmin // g * g if rmin < r else 0.0
        if r:
            a["r_max"] = r
        if rmin:
            a["r_min"] = rmin
        if q["t"] == "nearest":
            a["num_neighbors"] = q["k"]
            if "rg" in q:
                a["r_guess"] = q["rg"] * lim
            if "scale" in q:
                a["scale"] = q["scale"]
        if q["ii"]:
            a["exclude_ii"] = True
        if q["mode"]:
            a["mode"] = q["t"]
        self.args = a
        ok = np.ones(d.shape, bool)
        if q["ii"]:
            m = min(d.shape)
            ok[np.arange(m), np.arange(m)] = False
        hi = r if r else np.inf
        inr = ok & (d < hi) & (d >= rmin)
        sure = ok & (d < hi - e) & ((d >= rmin + e) | (rmin == 0))
        poss = ok & (d < hi + e) & (d >= rmin - e)
        self.defined = np.ones(self.nq, bool)
        self.count = None
        if q["t"] == "ball":
            self.must, self.may = sure, poss
        else:
            k = q["k"]
            self.must = np.zeros(d.shape, bool)
            self.may = np.zeros(d.shape, bool)
            self.count = np.full(self.nq, -1)
            for i in range(self.nq):
                c = np.nonzero(inr[i])[0]
                c = c[np.argsort(d[i, c], kind="stable")]
                if (sure[i] != poss[i]).any():
                    self.defined[i] = False
                    continue
                if r is None and len(c) and d[i, c[min(k, len(c)) - 1]] > reach:
                    # some of them are further away than has to be searched
                    self.defined[i] = False
                    continue
                kk = min(k, len(c))
                self.count[i] = kk
                if kk == len(c):
                    self.must[i, c] = self.may[i, c] = True
                    continue
                dk, dn = d[i, c[kk - 1]], d[i, c[kk]]
                cut = dk
                self.must[i, c[d[i, c] < dn - 2 * e]] = True
                self.must[i, c[kk:]] = False
                self.may[i, c[d[i, c] <= cut + 2 * e]] = True
                self.may[i, c[:kk]] = True

    @staticmethod
    def nearest_image(geo, raw, e):
        """The shortest of the images of each vector, and whether no other one comes close."""
        r = [(0,), (-1, 0, 1)]
        sh = np.array([(a, b, c) for a in r[1] for b in r[1] for c in r[0 if geo.d2 else 1]], float) @ geo.H.T
        v = raw[..., None, :] + sh
        d = np.sqrt((v * v).sum(-1))
        k = np.argsort(d, axis=-1)
        two = np.take_along_axis(d, k[..., :2], -1)
        v = np.take_along_axis(v, k[..., :1, None], -2)[..., 0, :]
        return v, np.where(two[..., 1] - two[..., 0] > 4 * e, 1.0, 0.0)

    def points(self):
        """The query points in the shape the caller happens to have them."""
        how = self.q["pts"]
        if how == "list":
            return self.P.tolist()
        if how == "f64":
            return self.P.astype(np.float64)
        if how == "strided":
            b = np.full((len(self.P), 2, 3), 7e7, np.float32)
            b[:, 0] = self.P
            return b[:, 0]
        return self.P.copy()

    def check(self, i, j, d, v=None, w=None, part=None):
        """The bonds (i, j) with distances d. part: only the first part of the answer was taken."""
        i, j, d = np.asarray(i, int), np.asarray(j, int), np.asarray(d, float)
        if len(i) and (i.min() < 0 or i.max() >= self.nq or j.min() < 0 or j.max() >= self.n):
            return "index", f"bond between query point {i.max()} of {self.nq} and point {j.max()} of {self.n}"
        got = np.zeros((self.nq, self.n), int)
        np.add.at(got, (i, j), 1)
        D = self.defined[:, None]
        if ((got > 1) & D).any():
            a = np.argwhere((got > 1) & D)[0]
            return "duplicate", f"bond {tuple(a.tolist())} found {got[tuple(a)]} times"
        extra = (got > 0) & ~self.may & D
        if extra.any():
            a = tuple(np.argwhere(extra)[0].tolist())
            return "extra", f"bond {a} at distance {self.d[a]} is not in the answer ({self.q})"
        if part is None:
            miss = self.must & (got == 0) & D
            if miss.any():
                a = tuple(np.argwhere(miss)[0].tolist())
                return "missing", f"bond {a} at distance {self.d[a]} is missing ({self.q})"
            if self.count is not None:
                c = got.sum(1)
                bad = self.defined & (c != self.count)
                if bad.any():
                    a = int(np.nonzero(bad)[0][0])
                    return "count", f"query point {a} has {c[a]} neighbours instead of {self.count[a]} ({self.q})"
        if len(i):
            s = self.defined[i]
            bad = s & ~(np.abs(d - self.d[i, j]) <= 3 * self.eps + 1e-5 * self.d[i, j])
            if bad.any():
                a = int(np.nonzero(bad)[0][0])
                return "distance", f"bond {(i[a], j[a])} has distance {d[a]} instead of {self.d[i[a], j[a]]}"
            if v is not None:
                v = np.asarray(v, float)
                t = s & (self.tie[i, j] > 1e-5)
                bad = t & ~(np.abs(v - self.v[i, j]).max(1) <= 4 * self.eps)
                if bad.any():
                    a = int(np.nonzero(bad)[0][0])
                    return "vector", f"bond {(i[a], j[a])} has vector {v[a]} instead of {self.v[i[a], j[a]]}"
            if w is not None and (np.asarray(w) != 1).any():
                return "weight", "a query's bond has a weight other than 1"
        return None

    def check_nlist(self, nl, by_distance=False):
        pr = nl[:]
        pr = np.array(pr).reshape(-1, 2).astype(int)
        d = np.array(nl.distances).astype(float)
        r = self.check(pr[:, 0], pr[:, 1], d, np.array(nl.vectors).reshape(-1, 3), np.array(nl.weights))
        if r:
            return r
        if (nl.num_query_points, nl.num_points) != (self.nq, self.n):
            return "sizes", f"{(nl.num_query_points, nl.num_points)} instead of {(self.nq, self.n)}"
        key = d if by_distance else pr[:, 1]
        bad = (np.diff(pr[:, 0]) < 0) | ((np.diff(pr[:, 0]) == 0) & (np.diff(key) < 0))
        if bad.any():
            return "order", f"bonds {int(np.nonzero(bad)[0][0])} and the next are out of order"
        cnt = np.bincount(pr[:, 0], minlength=self.nq)
        if not np.array_equal(np.array(nl.neighbor_counts), cnt):
            return "counts", "neighbor_counts is not the number of bonds of each query point"
        seg = np.array(nl.segments)
        exp = np.searchsorted(pr[:, 0], np.arange(self.nq))
        if not np.array_equal(seg[cnt > 0], exp[cnt > 0]):
            return "segments", "segments is not the first bond of each query point"
        return None
