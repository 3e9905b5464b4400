"""What an object says of itself - options, representation, plots - is what it was made with and what it holds, after any history."""

import os

os.environ.setdefault("MPLBACKEND", "agg")
os.environ.setdefault("MPLCONFIGDIR", os.path.join(os.environ.get("VERIF_BUILD") or "/verif/build", "mpl"))

import freud
import numpy as np

from .. import adapters as A
from .. import faults as X
from .. import systems as S
from ..simctl import LineFault
from .common import gen_case

ID = "P28"
RULE = (
    "a run counts when options, a representation or a plot were compared with what the object was made with or holds, after at least one "
    "computation, failure or change; two runs are the same when their operations, scheduling decisions and analysis agree"
)
ASSUME = [
    "an image is judged by the value shown at the place of each cell, not by its colours",
    "numbers that an object keeps in single precision are compared in it",
]
SCHED_NONTRIVIAL = False
pi = np.pi


def axes_of(bounds, n):
    """The edges and centers of the bins of several axes."""
    e = [np.linspace(a, b, k + 1) for (a, b), k in zip(bounds, n)]
    return {"bin_edges": e, "bin_centers": [(x[1:] + x[:-1]) / 2 for x in e], "bounds": list(bounds), "nbins": list(n)}


def axis_of(lo, hi, n):
    return {k: v[0] for k, v in axes_of([(lo, hi)], [n]).items()}


def hist(bounds, key):
    def f(p):
        n = p[key]
        d = len(bounds(p))
        return axes_of(bounds(p), [n] * d if isinstance(n, int) else n)

    return f


def pmft(bounds, key):
    def f(p):
        return {**hist(bounds, key)(p)}

    return f


OPTIONS = {
    "RDF": lambda p: {"mode": p["mode"], **axis_of(p["r_min"], p["r_max"], p["bins"]), "default_query_args": {"mode": "ball", "r_max": p["r_max"]}},
    "CorrelationFunction": lambda p: {"bins": p["bins"], **axis_of(0, p["r_max"], p["bins"]), "default_query_args": {"mode": "ball", "r_max": p["r_max"]}},
    "BondOrder": lambda p: {"mode": p["mode"], **hist(lambda p: [(0, 2 * pi), (0, pi)], "bins2")(p)},
    "PMFTR12": hist(lambda p: [(0, p["r_max"]), (0, 2 * pi), (0, 2 * pi)], "bins3"),
    "PMFTXYT": hist(lambda p: [(-p["x_max"], p["x_max"]), (-p["y_max"], p["y_max"]), (0, 2 * pi)], "bins3"),
    "PMFTXY": hist(lambda p: [(-p["x_max"], p["x_max"]), (-p["y_max"], p["y_max"])], "bins2"),
    "PMFTXYZ": lambda p: {**hist(lambda p: [(-x, x) for x in p["m"]], "bins3")(p), "shiftvec": p.get("shift") or [0, 0, 0]},
    "StaticStructureFactorDebye": lambda p: {
        "k_min": p["k_min"], "k_max": p["k_max"], "num_k_values": p["bins"], "bounds": (p["k_min"], p["k_max"]),
        "k_values": np.linspace(p["k_min"], p["k_max"], p["bins"]),
    },
    "StaticStructureFactorDirect": lambda p: {
        "k_min": p["k_min"], "k_max": p["k_max"], "num_sampled_k_points": 0, **axis_of(p["k_min"], p["k_max"], p["bins"]),
    },
    "LocalDensity": lambda p: {
        "r_max": p["r"], "diameter": p["d"], "default_query_args": {"mode": "ball", "r_max": p["r"] + 0.5 * p["d"]},
    },
    "Hexatic": lambda p: {"k": p["k"], "weighted": p["w"], "default_query_args": {"mode": "nearest", "num_neighbors": p["k"]}},
    "RotationalAutocorrelation": lambda p: {"l": p["l"]},
    "Cubatic": lambda p: {"t_initial": p["ti"], "t_final": p["tf"], "scale": p["sc"], "n_replicates": p["k"], "seed": p["seed"]},
    "GaussianDensity": lambda p: {"r_max": p["r_max"], "sigma": p["sigma"], "width": cells(p)},
    "SphereVoxelization": lambda p: {"r_max": p["r_max"], "width": cells(p)},
    "DiffractionPattern": lambda p: {"grid_size": p["g"], "output_size": p["o"] or p["g"]},
    "MSD": lambda p: {"mode": p["mode"]},
    "Steinhardt": lambda p: {
        "l": p["l"] if len(p["l"]) > 1 else p["l"][0], "average": p["ave"], "wl": p["wl"], "weighted": p["wt"], "wl_normalize": p["nrm"],
    },
    "SolidLiquid": lambda p: {"l": p["l"], "q_threshold": p["thr"], "solid_threshold": p["sol"], "normalize_q": p["nrm"]},
    "LocalDescriptors": lambda p: {"l_max": p["l"], "negative_m": p["neg"], "mode": p["mode"]},
}
OTHERS = (
    "Cluster", "ClusterProperties", "Interface", "AngularSeparationNeighbor", "AngularSeparationGlobal", "LocalBondProjection", "PeriodicBuffer",
    "Nematic", "EnvironmentCluster", "EnvironmentMotifMatch", "EnvironmentRMSDMinimizer",
)
PLOTS = (
    "RDF", "CorrelationFunction", "PMFTXY", "StaticStructureFactorDebye", "StaticStructureFactorDirect", "Hexatic", "Cluster", "GaussianDensity",
    "SphereVoxelization", "DiffractionPattern", "MSD", "Steinhardt", "SolidLiquid", "EnvironmentCluster",
)


def cells(p):
    w = p["w"]
    return [w] * 3 if isinstance(w, int) else list(w) + [1] * (3 - len(w))


def gen(rng, tier):
    r = rng.random()
    if r < 0.16:
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            ops.append([rng.choice(["box", "sys", "sys"]), rng.random() < 0.5, [rng.randint(-2, 2) for _ in range(3)], rng.random() < 0.4, round(0.9999 * rng.random(), 4)])
        return {"kind": "box", "sys": S.gen_sys(rng, lo=1, hi=30, big=False), "ops": ops, "form": rng.choice(["aabb", "link", "cell", "tuple"])}
    if r < 0.2:
        ops = [[rng.choice(["sides", "sides", "area", None, "nonsense"]), rng.random() < 0.5, rng.choice([None, None, "viridis", "jet"]), rng.random() < 0.3,
                round(0.9999 * rng.random(), 4)] for _ in range(rng.choice([1, 2, 3]))]
        return {"kind": "cells", "sys": S.gen_sys(rng, lo=1, hi=30, big=False, d2=True), "n": rng.choice([1, 2, 5, 20, 40]), "s": rng.getrandbits(32), "ops": ops}
    names = PLOTS if r < 0.6 else [*OPTIONS, *OTHERS]
    c = gen_case(rng, names, kmax=3, same=rng.random() < 0.5, small=rng.random() < 0.9)
    c["kind"] = c["a"]
    nf = len(c["frames"])
    ops = []
    if r < 0.6 and rng.random() < 0.5:
        ops += [["c", 0, True], ["p", rng.random() < 0.7]]
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        u = rng.random()
        if u < 0.35:
            ops.append(["x", rng.randrange(nf), X.gen(rng), rng.random() < 0.6])
        elif u < 0.75:
            ops.append(["c", rng.randrange(nf), rng.random() < 0.4])
        elif u < 0.85 and r < 0.6:
            ops.append(["p", rng.random() < 0.7])
        elif u < 0.93 and r < 0.6:
            ops.append(["pi", round(0.9999 * rng.random(), 6), rng.random() < 0.5])
        elif c["a"] == "RDF":
            ops.append(["m", rng.choice(["exact", "finite_size", "nonsense"])])
    ops.append(["o"])
    if r < 0.6:
        if rng.random() < 0.8:
            ops.append(["c", rng.randrange(nf), rng.random() < 0.5])
        ops.append(["p", rng.random() < 0.5])
    elif rng.random() < 0.6:
        ops.append(["e", rng.randrange(nf)])
    if r < 0.6 and rng.random() < 0.35:  # show, change, show again
        png = rng.random() < 0.6
        ops = [["c", 0, True], ["p", png]]
        if c["a"] == "RDF" and rng.random() < 0.3:
            ops.append(["m", rng.choice(["exact", "finite_size"])])
        else:
            ops.append(["c", nf - 1, rng.random() < 0.3])
        ops.append(["p", png])
    c["ops"] = ops
    return c


# ------------------------------------------------------------------ options and representation
def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
    if b is None or isinstance(b, (str, bool)):
        return type(a) in (type(b), np.bool_) and a == b
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=2e-6, atol=2e-6 * max(1e-3, np.abs(b).max(initial=0))))


def check_options(o, want):
    for k, v in want.items():
        if k == "d2":
            continue
        got = getattr(o, k)
        if k == "width" and got[2] == 1:  # a system of two dimensions has one layer of cells
            v = [*v[:2], 1] if want.get("d2") else v
        if not same(got, v):
            return k, f"{k} is {got!r}, made with {v!r}"
    return None


def parts(o):
    r = repr(o)
    if str(o) != r:
        return r, None
    return r, eval(r, {"freud": freud})


# ------------------------------------------------------------------ plots
def shown(im, x, y):
    """The value an image shows at a place, and how far the place is from the border of its cell, in cells."""
    a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
    x0, x1, y0, y1 = im.get_extent()
    nr, nc = a.shape
    c = (x - x0) / (x1 - x0) * nc
    t = (y - y0) / (y1 - y0) * nr
    r = t if im.origin == "lower" else nr - t
    i, j = np.clip(np.floor(r).astype(int), 0, nr - 1), np.clip(np.floor(c).astype(int), 0, nc - 1)
    return a[i, j]


def image_is(ax, xs, ys, values, extent=None, at=None):
    """Each value (first index along x) is shown at its place."""
    if len(ax.images) != 1:
        return f"{len(ax.images)} images"
    im = ax.images[0]
    if im.get_array().shape != values.T.shape:
        return f"an image of shape {im.get_array().shape} for values of shape {values.T.shape}"
    x, y = np.meshgrid(xs, ys, indexing="ij")
    v = shown(im, x, y)
    values = np.asarray(values, float)
    d = ~((np.abs(v - values) <= 1e-5 * np.abs(values) + 1e-12) | (np.isnan(v) & np.isnan(values)))
    if d.any():
        k = np.argwhere(d)[0]
        return f"shows {v[tuple(k)]} at {x[tuple(k)]}, {y[tuple(k)]}, where the value is {values[tuple(k)]} ({int(d.sum())} of {d.size} cells)"
    xl, yl = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    if np.min(xs) < xl[0] or np.max(xs) > xl[1] or np.min(ys) < yl[0] or np.max(ys) > yl[1]:
        return "part of the image is outside of the axes"
    return None


def line_is(ax, x, y, n=1):
    if len(ax.lines) != n:
        return f"{len(ax.lines)} lines"
    a, b = (np.asarray(v, float) for v in ax.lines[-1].get_data())
    if a.shape != np.shape(x) or not np.allclose(a, x, rtol=1e-5, atol=1e-6) or not np.allclose(b, y, rtol=1e-5, atol=1e-9, equal_nan=True):
        return f"a line through {np.stack([a, b], -1)[:4].tolist()}... instead of {np.stack([x, y], -1)[:4].tolist()}"
    return None


def clusters_are(ax, idx):
    keys, counts = np.unique(idx, return_counts=True)
    h = [r.get_height() for r in ax.patches]
    lab = [t.get_text() for t in ax.get_xticklabels()]
    want = sorted(counts, reverse=True)[:10]
    if h != want:
        return f"bars {h} instead of {want}"
    if len(set(lab)) != len(h):
        return f"labels {lab}"
    n = dict(zip([str(k) for k in keys], counts))
    if any(n.get(s) != v for s, v in zip(lab, h)):
        return f"bars {h} with labels {lab}; clusters {n}"
    return None


def histogram_is(ax, values):
    v = np.asarray(values, float)
    v = v.reshape(len(v), -1)
    e = np.histogram_bin_edges(v[np.isfinite(v)], 10)
    want = [np.histogram(c[np.isfinite(c)], e)[0] for c in v.T]
    got = [[r.get_height() for r in c] for c in ax.containers]
    if len(got) != len(want) or any(list(a) != list(b) for a, b in zip(got, want)):
        return f"bars {got} instead of {[list(map(int, w)) for w in want]}"
    return None


def colors_are(o, n):
    """The picture of a diffraction image: logarithmic colors between the limits."""
    import matplotlib

    m = [4e-6 * o.N_points, 0.7 * o.N_points]
    kw = {"cmap": "viridis"} if n % 2 else {}
    if n % 3 == 1:
        kw["vmin"] = m[0] = 1e-3 * o.N_points
    if n % 3 == 2:
        kw["vmin"], kw["vmax"] = m = [2e-5 * o.N_points, 2.0 * o.N_points]
    im = np.asarray(o.to_image(**kw))
    d = np.asarray(o.diffraction, float)
    if im.dtype != np.uint8 or im.shape != (*d.shape, 4):
        return f"{im.dtype} of shape {im.shape}"
    x = (np.log(np.clip(d, *m)) - np.log(m[0])) / (np.log(m[1]) - np.log(m[0]))
    cm = matplotlib.colormaps[kw.get("cmap", "afmhot")]
    want = [(cm(np.clip(x + e, 0, 1)) * 255).astype(int) for e in (-3e-3, 0, 3e-3)]
    lo, hi = np.min(want, 0) - 2, np.max(want, 0) + 2
    bad = (im < lo) | (im > hi)
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        return f"color {im[k[:2]].tolist()} instead of {want[1][k[:2]].tolist()} where the image is {d[k[:2]]} ({kw})"
    return None


def plot_is(a, p, o, ax):
    if a in ("GaussianDensity", "SphereVoxelization"):
        if not o.box.is2D:
            return None if ax is None else "a plot of a 3D system"
        v = np.asarray(o.density if a[0] == "G" else o.voxels, float)
        nx, ny = v.shape
        return image_is(ax, ((np.arange(nx) + 0.5) / nx - 0.5) * o.box.Lx, ((np.arange(ny) + 0.5) / ny - 0.5) * o.box.Ly, v)
    if a == "PMFTXY":
        v = np.array(o.pmft, float)
        v[np.isinf(v)] = np.nan
        b = hist(lambda p: [(-p["x_max"], p["x_max"]), (-p["y_max"], p["y_max"])], "bins2")(p)["bin_centers"]
        return image_is(ax, b[0], b[1], v.reshape(len(b[0]), len(b[1])))
    if a == "DiffractionPattern":
        k = np.asarray(o.k_values, float)
        n = len(k)
        # pixels from edge to edge; the rows of the image belong to k_y
        pos = k[0] + (np.arange(n) + 0.5) / n * (k[-1] - k[0])
        return image_is(ax, pos, pos, np.clip(o.diffraction, 4e-6 * o.N_points, 0.7 * o.N_points).T)
    if a == "RDF":
        return line_is(ax, o.bin_centers, o.rdf)
    if a == "CorrelationFunction":
        return line_is(ax, o.bin_centers, np.real(o.correlation))
    if a.startswith("StaticStructure"):
        k = o.k_values if a.endswith("Debye") else o.bin_centers
        m = k > o.min_valid_k
        return line_is(ax, k[m], o.S_k[m])
    if a == "MSD":
        return line_is(ax, np.arange(len(o.msd)), o.msd)
    if a in ("Hexatic", "Steinhardt"):
        v = np.abs(o.particle_order) if a == "Hexatic" else o.particle_order
        return histogram_is(ax, v)
    return clusters_are(ax, o.cluster_idx)


def plottable(a, o):
    """Whether matplotlib can be asked to: it takes no histogram of what is not finite."""
    if a in ("Hexatic", "Steinhardt"):
        v = np.asarray(o.particle_order)
        return not np.isinf(v).any() and not np.isnan(v).all() and np.nanmax(np.abs(v)) - np.nanmin(np.abs(v)) > 1e-4
    if a == "DiffractionPattern":
        return o.N_points > 0
    return True


def plotting(sc, ctx, a, ad, p, o, png):
    import matplotlib.pyplot as plt

    before = ad.outputs(o)
    fails = None
    if a == "DiffractionPattern":
        with ctx.sim.world():
            r = colors_are(o, len(sc["ops"]) + int(10 * p["g"]))
        if r:
            return "picture", r
    try:
        figs = plt.get_fignums()
        if png:
            with ctx.sim.world():
                b = o._repr_png_()
            none = a in ("GaussianDensity", "SphereVoxelization") and not o.box.is2D
            if none != (b is None) or b is not None and not b.startswith(b"\x89PNG\r\n"):
                fails = "png", f"{type(b)} {b[:8] if b else ''}"
            elif b is not None and b != freud.plot._ax_to_bytes(o.plot()):
                fails = "png", "the representation as png is not the plot of what the object holds"
            elif plt.get_fignums() != figs:
                fails = "figure-left", f"{len(plt.get_fignums()) - len(figs)} figures are open after a representation as png was made"
            ctx.probe("png")
        else:
            given = sc["ops"][0][0] == "c"
            own = plt.figure().subplots() if given else None
            figs = plt.get_fignums()
            with ctx.sim.world():
                ax = o.plot(ax=own) if given else o.plot()
            if given and ax is not None and (ax is not own or plt.get_fignums() != figs):
                fails = "axes", "not drawn on the axes given"
            else:
                r = plot_is(a, p, o, ax)
                fails = ("plot", r) if r else None
            ctx.probe("plot")
    finally:
        plt.close("all")
    if fails:
        return fails
    d = A.diff_outputs(ad.outputs(o), before, {})
    return ("changed." + d[0], "plotting changed the results: " + d[1]) if d else None


# ------------------------------------------------------------------ boxes and systems
def box_plots(sc, ctx):
    import matplotlib.pyplot as plt

    F = S.Frame({"sys": sc["sys"], "nq": {"t": sc["form"], "w": 0}, "no_pairs": True})
    geo = F.geo
    box, nq = geo.box(), F.system()
    H = geo.H
    nd = 2 if geo.d2 else 3
    corners = np.array([[i, j, k] for i in (0, 1) for j in (0, 1) for k in (0, 1)])
    for n, (what, given, image, inter, x) in enumerate(sc["ops"]):
        try:
            own = (plt.figure().subplots() if geo.d2 else plt.figure().add_subplot(111, projection="3d")) if given else None
            figs = plt.get_fignums()
            kw = {"ax": own} if given else {}
            kw["color"] = "red"
            title = "T" if x < 0.5 else None
            if title:
                kw["title"] = title
            if geo.d2:
                image = [*image[:2], 0]
            if inter:
                def go():
                    if what == "box":
                        box.plot(image=list(image), **kw)
                    else:
                        freud.plot.system_plot(nq, **kw)

                with ctx.sim.ref(), LineFault(None, KeyboardInterrupt) as lf:
                    go()
                if given:
                    own.cla()
                try:
                    with ctx.sim.world(), LineFault(1 + int(x * lf.seen), KeyboardInterrupt):
                        go()
                except KeyboardInterrupt:
                    ctx.fault("interrupt")
                if given:
                    own.cla()
                figs = plt.get_fignums()
            with ctx.sim.world():
                if what == "box":
                    ax = box.plot(image=list(image), **kw)
                else:
                    ax, scat = freud.plot.system_plot(nq, **kw)
                    image = [0, 0, 0]
            sig = f"{what}.plot"
            if given and (ax is not own or plt.get_fignums() != figs):
                return ctx.fail(sig + ".axes", f"operation {n}: not drawn on the axes given")
            if title and ax.get_title() != title:
                return ctx.fail(sig + ".title", f"operation {n}: title {ax.get_title()!r} instead of {title!r}")
            segs = []
            for line in ax.lines:
                v = np.stack([np.asarray(c, float) for c in (line.get_data_3d() if not geo.d2 else line.get_data())], -1)
                segs += [(v[i], v[i + 1]) for i in range(len(v) - 1)]
                if what == "box" and line.get_color() != "red":
                    return ctx.fail(sig + ".color", f"operation {n}: an edge in {line.get_color()!r} instead of red")
            want = []
            for i in corners:
                for k in range(nd):
                    if i[k] == 0 and (nd == 3 or i[2] == 0):
                        e = np.eye(3)[k]
                        want.append([(H @ (i + image - 0.5 * (np.arange(3) < nd)))[:nd], (H @ (i + e + image - 0.5 * (np.arange(3) < nd)))[:nd]])
            tol = 1e-4 * geo.scale
            left = list(segs)
            for u, v in want:
                for s in left:
                    if min(max(np.abs(s[0] - u).max(), np.abs(s[1] - v).max()), max(np.abs(s[1] - u).max(), np.abs(s[0] - v).max())) < tol:
                        left = [t for t in left if t is not s]
                        break
                else:
                    return ctx.fail(sig + ".edges", f"operation {n}: no edge from {u.tolist()} to {v.tolist()}")
            if left:
                return ctx.fail(sig + ".edges", f"operation {n}: an edge too much, {left[0]}")
            if what == "sys":
                P = np.stack([np.asarray(c, float) for c in scat._offsets3d], -1) if nd == 3 else np.asarray(scat.get_offsets(), float)
                if P.shape != (len(F.pts), nd) or np.abs(P - F.pts[:, :nd]).max(initial=0) > tol:
                    return ctx.fail(sig + ".points", f"operation {n}: points {P[:3].tolist()}...")
            ctx.nontrivial = True
        finally:
            plt.close("all")


def cell_plots(sc, ctx):
    """Diagrams of cells that are given (P22 computes them)."""
    import matplotlib.pyplot as plt

    geo = S.Geo(sc["sys"]["box"])
    box = geo.box()
    g = np.random.default_rng(sc["s"])
    polys, areas = [], []
    for _ in range(sc["n"]):
        m = int(g.integers(3, 9))
        t = np.sort(g.uniform(0, 2 * pi, m))
        c = geo.H @ np.array([*g.uniform(-0.5, 0.5, 2), 0])
        polys.append(np.stack([c[0] + 0.1 * geo.scale * np.cos(t), c[1] + 0.1 * geo.scale * np.sin(t), 0 * t], -1))
        areas.append(float(g.uniform(0.5, 12)))

    class Cells:
        polytopes, volumes = polys, np.array(areas)

    sides = np.array([len(q) for q in polys])
    for n, (by, given, cmap, inter, x) in enumerate(sc["ops"]):
        try:
            def go(ax):
                return freud.plot.voronoi_plot(Cells, box, ax, by, cmap)

            if inter and by != "nonsense":
                with ctx.sim.ref(), LineFault(None, KeyboardInterrupt) as lf:
                    go(None)
                try:
                    with ctx.sim.world(), LineFault(1 + int(x * lf.seen), KeyboardInterrupt):
                        go(None)
                except KeyboardInterrupt:
                    ctx.fault("interrupt")
            own = plt.figure().subplots() if given else None
            figs = plt.get_fignums()
            try:
                with ctx.sim.world():
                    ax = go(own)
            except RuntimeError:
                if by != "nonsense":
                    raise
                ctx.fault("refused_color")
                continue
            if by == "nonsense":
                return ctx.fail("voronoi_plot.color_by", f"operation {n}: a way to color that does not exist was taken")
            if given and (ax is not own or plt.get_fignums() != figs):
                return ctx.fail("voronoi_plot.axes", f"operation {n}: not drawn on the axes given")
            (pc,) = ax.collections
            paths = pc.get_paths()
            if len(paths) != len(polys) or any(np.abs(a.vertices[: len(q)] - q[:, :2]).max() > 1e-5 * geo.scale or len(a.vertices) != len(q) + 1 for a, q in zip(paths, polys)):
                return ctx.fail("voronoi_plot.cells", f"operation {n}: the cells are not those of the diagram")
            v = np.asarray(pc.get_array(), float)
            if v.shape != sides.shape:
                return ctx.fail("voronoi_plot.colors", f"operation {n}: {v.shape} colors for {len(sides)} cells")
            pc.update_scalarmappable()
            rgb = pc.get_facecolor()
            if by == "sides":
                ok = cmap is not None or np.ptp(sides) > 9 or all((sides[i] == sides[j]) == (np.abs(rgb[i] - rgb[j]).max() < 1e-9) for i in range(len(sides)) for j in range(i))
                ok = ok and np.allclose(v - v[0], sides - sides[0])
            elif by == "area":
                ok = np.allclose(v - v[0], np.array(areas) - areas[0])
            else:
                ok = len(set(v)) == len(v)
            if not ok:
                return ctx.fail("voronoi_plot.colors", f"operation {n}: colors of {v.tolist()[:5]} for cells of {sides.tolist()[:5]} sides and areas {areas[:5]}")
            P = np.stack(ax.lines[0].get_data(), -1)
            C = np.array([[-0.5, -0.5, 0], [-0.5, 0.5, 0], [0.5, 0.5, 0], [0.5, -0.5, 0], [-0.5, -0.5, 0]]) @ geo.H.T
            if len(ax.lines) != 1 or P.shape != (5, 2) or np.abs(P - C[:, :2]).max() > 1e-4 * geo.scale:
                return ctx.fail("voronoi_plot.box", f"operation {n}: the box is drawn through {P.tolist()}")
            ctx.nontrivial = True
        finally:
            plt.close("all")


def run(sc, ctx):
    if sc["kind"] == "box":
        return box_plots(sc, ctx)
    if sc["kind"] == "cells":
        return cell_plots(sc, ctx)
    a = sc["a"]
    ad, p = A.ALL[a], sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    want = OPTIONS[a](p) if a in OPTIONS else {}
    want["d2"] = any(F.geo.d2 for F in frames)
    with ctx.sim.world():
        o = ad.make(p)
    state = "closed"
    odd = False

    def described(n):
        with ctx.sim.world():
            d = check_options(o, want)
            if not d:
                r, o2 = parts(o)
                if o2 is None:
                    d = "str", f"str() gives {str(o)}, repr() {r}"
                elif type(o2) is not type(o) or repr(o2) != r:
                    d = "repr", f"{r} makes {o2!r}"
                else:
                    d = check_options(o2, want)
                    d = d and ("repr." + d[0], f"{r} makes an object whose {d[1]}")
        if d:
            ctx.fail(f"{a}.{d[0]}", f"operation {n}: {d[1]}")
            return None
        return o2

    for n, op in enumerate(sc["ops"]):
        k = op[0]
        if k == "x":
            with ctx.sim.world():
                r = X.faulty(ctx, ad, p, o, frames[op[1]], op[2], **({"reset": op[3] or odd} if ad.accum else {}))
            odd = True
            if r.exc is None and not r.fired:
                state = "open"
            elif state != "open":
                state = "unknown"
            if r.exc is None and r.fired:
                state = "unknown"
        elif k == "c":
            with ctx.sim.world():
                ad.compute(o, p, frames[op[1]], **({"reset": op[2] or odd} if ad.accum else {}))
            odd = False
            state = "open"
        elif k == "m":
            try:
                with ctx.sim.world():
                    o.mode = op[1]
                want["mode"] = op[1]
            except ValueError:
                ctx.fault("refused_mode")
            if (op[1] == "nonsense") == (want["mode"] == op[1]):
                return ctx.fail("RDF.mode.set", f"operation {n}: mode {op[1]} was {'taken' if op[1] == 'nonsense' else 'refused'}")
        elif k == "o":
            if described(n) is None:
                return
            ctx.nontrivial = True
        elif k == "e":
            o2 = described(n)
            if o2 is None:
                return
            F = frames[op[1]]
            with ctx.sim.ref():
                o3 = ad.make(p)
                if "mode" in want and a == "RDF":
                    o3.mode = want["mode"]
                ad.compute(o3, p, F)
                ad.compute(o2, p, F)
                if a == "MSD" and p["box"]:  # the representation of a box has no periodicity
                    continue
                got, want3 = ad.outputs(o2), ad.outputs(o3)
                d = A.diff_outputs(got, want3, {x: 1e-4 for x in want3 if np.asarray(want3[x]).dtype.kind in "fc"})
            if d and not F.amb:
                return ctx.fail(f"{a}.repr.{d[0]}", f"operation {n}: what {o2!r} makes gives another result: {d[1]}")
            ctx.nontrivial = True
        elif k == "pi":
            if state != "open" or not plottable(a, o):
                continue
            import matplotlib.pyplot as plt

            before = ad.outputs(o)
            call = o._repr_png_ if op[2] and op[1] < 0.2 else o.plot
            try:
                with ctx.sim.ref(), LineFault(None, KeyboardInterrupt) as lf:
                    call()
                with ctx.sim.world(), LineFault(1 + int(op[1] * lf.seen), KeyboardInterrupt):
                    call()
            except KeyboardInterrupt:
                ctx.fault("interrupt")
            finally:
                plt.close("all")
            d = A.diff_outputs(ad.outputs(o), before, {})
            if d:
                return ctx.fail(f"{a}.changed.{d[0]}", f"operation {n}: an interrupted plot changed the results: {d[1]}")
        elif k == "p":
            if state == "closed":
                with ctx.sim.world():
                    b = o._repr_png_()
                    try:
                        o.plot()
                        b = b or "a plot"
                    except AttributeError:
                        pass
                import matplotlib.pyplot as plt

                plt.close("all")
                if b is not None:
                    return ctx.fail(f"{a}.early", f"operation {n}: {b[:8]!r} before any computation succeeded")
                ctx.nontrivial = True
                continue
            if state != "open" or not plottable(a, o):
                ctx.probe("not_plotted")
                continue
            d = plotting(sc, ctx, a, ad, p, o, op[1])
            if d:
                return ctx.fail(f"{a}.{d[0]}", f"operation {n}: {d[1]}")
            ctx.nontrivial = True
