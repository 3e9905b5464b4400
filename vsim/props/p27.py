"""Displacements, diffraction images and generated systems equal their definition, after any history."""

import numpy as np

import freud

from .. import adapters as A
from .. import faults as X
from .. import systems as S
from ..simctl import LineFault

ID = "P27"
RULE = (
    "a run counts when at least one displacement, diffraction image or generated system was compared with its definition "
    "(no point at the border of a bin); two runs are the same when their scheduling decisions, accesses and history agree"
)
ASSUME = [
    "a generated system is compared up to a common translation of all its points; the points of one basis position come together",
    "the image is compared where it is not at the border of the Fourier grid",
]
SCHED_NONTRIVIAL = False
CELLS = ["sc", "bcc", "fcc", "hcp", "square", "rectangular", "oblique", "hex", "graphene"]


def gen_gen(rng):
    u = rng.random()
    n = rng.choice([1, 1, 2, 3, 4, 5]) if u < 0.4 else [rng.choice([1, 1, 2, 3, 4]) for _ in range(3)]
    return {
        "n": n, "scale": rng.choice([1.0, 1.0, 0.5, 2.0, 1.37]), "noise": rng.choice([0, 0, 0.01, 0.03]),
        "seed": rng.choice([None, 0, 1, rng.getrandbits(31)]),
    }


def gen_cell(rng):
    if rng.random() < 0.45:
        name = rng.choice(CELLS)
        kw = {}
        if name == "rectangular":
            kw = {"aspect": round(rng.uniform(0.5, 3), 2), "centered": rng.random() < 0.5}
        if name == "oblique":
            kw = {"aspect": round(rng.uniform(0.5, 3), 2), "theta": round(rng.uniform(35, 145), 1)}
        return {"name": name, "kw": kw}
    c = {"name": None, "box": S.gen_box(rng), "nb": rng.choice([0, 1, 2, 3, 7]), "s": rng.getrandbits(32)}
    c["form"] = rng.choice(["box", "box", "list", "dict", "matrix"])
    return c


def gen(rng, tier):
    r = rng.random()
    if r < 0.36:
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            ops.append([rng.choice(["g", "g", "g", "bad", "interrupt", "alloc"]), gen_gen(rng), round(0.9999 * rng.random(), 6)])
        return {"kind": "UnitCell", "cell": gen_cell(rng), "ops": [*ops, ["g", gen_gen(rng), 0]]}
    if r < 0.46:
        return {
            "kind": "random", "L": round(rng.uniform(0.5, 30), 3), "n": rng.choice([0, 1, 2, 50, 300]),
            "d2": rng.random() < 0.5, "seed": rng.choice([None, 0, rng.getrandbits(31)]),
        }
    if r < 0.47:
        return {"kind": "axes", "h": rng.choice([[1, 2], [1, 3], [2, 1], [0, 2]]), "s": rng.getrandbits(32)}
    name = "MSD" if r < 0.72 else "DiffractionPattern"
    ad = A.ALL[name]
    p, frames = ad.gen(rng, rng.choice([1, 1, 2, 3]), rng.random() < 0.5)
    ops = [["c", 0, True]]
    for _ in range(rng.choice([0, 1, 2, 4, 6])):
        u = rng.random()
        k = rng.randrange(len(frames))
        if u < 0.25:
            ops.append(["r"])
        elif u < 0.45:
            ops.append(["x", k, rng.random() < 0.5, X.gen(rng, ("reject", "interrupt"))])
        else:
            ops.append(["c", k, rng.random() < 0.4])
    return {"kind": name, "a": name, "p": p, "frames": frames, "ops": [*ops, ["c", rng.randrange(len(frames)), True], ["r"]]}


# ------------------------------------------------------------------ trajectories and images
def history(sc, ctx):
    ad, p = A.ALL[sc["a"]], sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    with ctx.sim.world():
        o = ad.make(p)
    since = None
    for n, op in enumerate(sc["ops"]):
        if op[0] == "x":
            with ctx.sim.world():
                r = X.faulty(ctx, ad, p, o, frames[op[1]], op[3], reset=op[2])
            # what a failed call leaves behind is a matter of P05: look again after the next reset
            since = None
            if r.exc is None and r.fired:
                return
            continue
        if op[0] == "c":
            with ctx.sim.world():
                ad.compute(o, p, frames[op[1]], reset=op[2])
            since = [op[1]] if op[2] else since and [*since, op[1]]
            continue
        if not since:
            continue
        with ctx.sim.world():
            got = ad.outputs(o)
        fr = [frames[k] for k in since]
        d = A.check_model(ad, p, fr, got)
        if d:
            ctx.fail(f"{sc['a']}.{d[0]}", f"operation {n}, frames {since}: {d[1]}")
            return
        if ad.model(p, fr):
            ctx.nontrivial = True
        else:
            ctx.probe("undetermined")


def axes(sc, ctx):
    """A wave of density: the wave vector given for the brightest pixel is the one of the wave."""
    g = np.random.default_rng(sc["s"])
    L = 10.0
    k0 = 2 * np.pi / L * np.array([*sc["h"], 0.0])
    pts = (g.random((3000, 3)) - 0.5) * L
    pts = pts[g.random(3000) < 0.5 * (1 + np.cos(pts @ k0))].astype(np.float32)
    with ctx.sim.world():
        d = freud.diffraction.DiffractionPattern(grid_size=32)
        d.compute((freud.box.Box.cube(L), pts), zoom=1, peak_width=0.01)
        img, kv = d.diffraction.copy(), d.k_vectors
    img[16, 16] = 0
    k = kv[np.unravel_index(img.argmax(), img.shape)]
    ctx.nontrivial = True
    if min(np.abs(k - k0).max(), np.abs(k + k0).max()) > 1e-3:
        m = k[[1, 0, 2]]
        swapped = min(np.abs(m - k0).max(), np.abs(m + k0).max()) < 1e-3
        ctx.fail(
            "DiffractionPattern.k_vectors" + (".axes-swapped" if swapped else ".peak"),
            f"brightest at the pixel whose k_vectors entry is {k.round(3).tolist()}; the density varies along {k0.round(3).tolist()}",
        )


# ------------------------------------------------------------------ generated systems
def the_cell(c):
    """The unit cell, its lattice vectors (columns), and its basis positions (fractions)."""
    if c["name"]:
        u = getattr(freud.data.UnitCell, c["name"])(**c["kw"])
        e = np.eye(3)
        r3 = np.sqrt(3)
        if c["name"] in ("sc", "bcc", "fcc"):
            H = e
            B = {"sc": [[0, 0, 0]], "bcc": [[0, 0, 0], [0.5] * 3], "fcc": [[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]]}
            B = B[c["name"]]
        elif c["name"] == "hcp":
            H = np.array([[1, -0.5, 0], [0, r3 / 2, 0], [0, 0, np.sqrt(8 / 3)]])
            B = [[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.75]]
        elif c["name"] == "square":
            H, B = np.diag([1, 1, 1.0]), [[0, 0, 0]]
        elif c["name"] == "rectangular":
            H, B = np.diag([1, c["kw"]["aspect"], 1.0]), [[0, 0, 0]] + ([[0.5, 0.5, 0]] if c["kw"]["centered"] else [])
        elif c["name"] == "oblique":
            t = np.deg2rad(c["kw"]["theta"])
            a = c["kw"]["aspect"]
            H, B = np.array([[1, a * np.cos(t), 0], [0, a * np.sin(t), 0], [0, 0, 1.0]]), [[0, 0, 0]]
        elif c["name"] == "hex":
            H, B = np.diag([1, r3, 1]), [[0, 0, 0], [0.5, 0.5, 0]]
        else:
            H, B = np.diag([1, r3, 1]), [[0, 0, 0], [0, 1 / 3, 0], [0.5, 5 / 6, 0], [0.5, 0.5, 0]]
        d2 = c["name"] in ("square", "rectangular", "oblique", "hex", "graphene")
        return u, H, np.array(B, float), d2, True
    geo = S.Geo(c["box"])
    g = np.random.default_rng(c["s"])
    B = np.round(g.random((c["nb"], 3)), 4)
    if geo.d2:
        B[:, 2] = 0
    b = geo.box()
    if c["form"] == "list":
        b = [b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz] if not geo.d2 else b
    elif c["form"] == "dict":
        b = b.to_dict()
    elif c["form"] == "matrix" and not geo.d2:
        b = b.to_matrix()
    u = freud.data.UnitCell(b, B if c["nb"] else None)
    return u, geo.H, B if c["nb"] else np.zeros((1, 3)), geo.d2, False


def matched(got, want, Hi, tol, d2):
    """Whether every wanted point (the same number) has a point of its own, modulo the lattice."""
    f = (got[:, None, :] - want[None, :, :]) @ Hi.T
    f -= np.rint(f)
    v = f @ np.linalg.inv(Hi).T
    if d2:
        v[..., 2] = 0
    near = np.sqrt((v**2).sum(-1)) < tol
    return bool((near.sum(0) == 1).all() and (near.sum(1) == 1).all())


def check_system(ctx, u, H, B, d2, named, a, out):
    n = a["n"]
    nn = np.array([n, n, 1 if d2 else n] if isinstance(n, int) else n)
    box, pos = out
    pos = np.asarray(pos, float)
    N = int(nn.prod())
    W = H * nn * a["scale"]
    if d2:
        W[:, 2] = [0, 0, 1]
    M = box.to_matrix().astype(float)
    if d2:
        M[:, 2] = [0, 0, 1]
    if bool(box.is2D) != d2 or np.abs(M - W).max() > 1e-5 * np.abs(W).max():
        return "box", f"{box} instead of {W.tolist()}, 2D {d2}"
    if pos.shape != (N * len(B), 3):
        return "count", f"positions of shape {pos.shape}, {N} replicas of {len(B)} points"
    Wi = np.linalg.inv(W)
    f = pos @ Wi.T
    if np.abs(f[:, : 2 if d2 else 3]).max() > 0.5 + 1e-4 or (d2 and np.abs(pos[:, 2]).max() > 0):
        return "outside", f"fractions up to {np.abs(f).max(0).tolist()}"
    idx = np.stack(np.meshgrid(*[np.arange(k) for k in nn], indexing="ij"), -1).reshape(-1, 3)
    H1 = H * a["scale"]
    if a["noise"]:
        return None
    # translate the first point onto each of its candidates until everything fits
    want = [(b + idx) @ H1.T for b in B]
    tol = 2e-4 * a["scale"] * max(1.0, np.abs(H).max() * nn.max() * 0.2)
    for b in range(len(B)):
        got = pos[b * N : (b + 1) * N] if not named else None
        if got is None:
            break
        if not matched(got - pos[0], want[b] - want[0][0], Wi, tol, d2):
            return "points", f"the points of basis position {b} are not the lattice of it"
    if named:  # the order of the basis is the class's own
        allw = np.concatenate(want)
        if not any(matched(pos - pos[0], allw - want[k][0], Wi, tol, d2) for k in range(len(B))):
            return "points", "the points are not the lattice"
    return None


def generate(u, a):
    n = a["n"] if isinstance(a["n"], int) else tuple(a["n"])
    return u.generate_system(num_replicas=n, scale=a["scale"], sigma_noise=a["noise"], seed=a["seed"])


def fit(a, d2):
    """Replicas of a 2D cell are asked for as a 2D cell's."""
    n = a["n"]
    if not isinstance(n, int) and d2:
        n = [n[0], n[1], 1]
    if not isinstance(n, int) and int(np.prod(n)) > 60:
        n = [min(x, 3) for x in n]
    return {**a, "n": n}


def unitcell(sc, ctx):
    u, H, B, d2, named = the_cell(sc["cell"])
    minL = np.linalg.norm(H[:, : 2 if d2 else 3], axis=0).min()
    before = np.array(u.basis_positions, float)
    for n, (kind, a, x) in enumerate(sc["ops"]):
        a = fit(a, d2)
        a = {**a, "noise": a["noise"] * minL * a["scale"]}
        if kind == "bad":
            bad = [0, -1, [1, 2], [1, 1, 0], [1.5, 1, 1], "x", [2, 2, 2] if d2 else [1, 1, -2], None]
            b = bad[int(x * len(bad))]
            try:
                with ctx.sim.world():
                    u.generate_system(num_replicas=tuple(b) if isinstance(b, list) else b)
            except (ValueError, TypeError):
                ctx.fault("refused_replicas")
                continue
            ctx.fail("UnitCell.accepted", f"operation {n}: {b} replicas")
            return
        if kind == "interrupt":
            with ctx.sim.ref(), LineFault(None, KeyboardInterrupt) as lf:
                generate(u, a)
            try:
                with ctx.sim.world(), LineFault(1 + int(x * lf.seen), KeyboardInterrupt):
                    generate(u, a)
            except KeyboardInterrupt:
                ctx.fault("interrupt")
            continue
        if kind == "alloc":
            with ctx.sim.ref():
                ctx.sim.arm(1 << 60, 1, 0)
                try:
                    generate(u, a)
                finally:
                    seen, _ = ctx.sim.disarm()
            ctx.sim.arm(1 + int(x * seen), 1, 0)
            try:
                with ctx.sim.world():
                    generate(u, a)
            except MemoryError:
                ctx.fault("alloc")
            finally:
                ctx.sim.disarm()
            continue
        with ctx.sim.world():
            out = generate(u, a)
        d = check_system(ctx, u, H, B, d2, named, a, out)
        if d is None and a["noise"]:
            d = noise(ctx, u, a, out, d2)
        if d:
            ctx.fail(f"UnitCell.{d[0]}", f"operation {n}, {sc['cell']}, {a}: {d[1]}")
            return
        ctx.nontrivial = True
    if not np.array_equal(before, np.array(u.basis_positions, float)):
        ctx.fail("UnitCell.basis", "the basis positions changed")


def noise(ctx, u, a, out, d2):
    with ctx.sim.world():
        box, still = generate(u, {**a, "noise": 0})
        again = generate(u, a)[1]
    v = np.asarray(box.wrap(np.asarray(out[1], float) - np.asarray(still, float)), float)
    s = a["noise"]
    if d2 and np.abs(v[:, 2]).max() > 0:
        return "noise", "out of the plane"
    v = v[:, : 2 if d2 else 3]
    if np.abs(v).max() > 8 * s:
        return "noise", f"a displacement of {np.abs(v).max() / s:.1f} standard deviations"
    m = v.size
    ms = (v**2).mean() / s**2
    if m > 20 and abs(ms - 1) > 8 * np.sqrt(2 / m):
        return "noise", f"mean square displacement {ms:.3f} of sigma squared, {m} components"
    same = np.array_equal(out[1], again)
    if same != (a["seed"] is not None):
        return "seed", f"two systems made with seed {a['seed']} are {'equal' if same else 'different'}"
    return None


def random_system(sc, ctx):
    n, L = sc["n"], sc["L"]
    with ctx.sim.world():
        box, p = freud.data.make_random_system(L, n, is2D=sc["d2"], seed=sc["seed"])
        p2 = freud.data.make_random_system(L, n, is2D=sc["d2"], seed=sc["seed"])[1]
    p = np.asarray(p, float)
    want = [L, L, 0 if sc["d2"] else L, 0, 0, 0]
    got = [box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz]
    if bool(box.is2D) != sc["d2"] or not np.allclose(got, want, rtol=1e-5):
        ctx.fail("random.box", f"{got} instead of {want}")
        return
    if p.shape != (n, 3):
        ctx.fail("random.count", f"positions of shape {p.shape}, {n} asked for")
        return
    ctx.nontrivial = True
    if not n:
        return
    if np.abs(p).max() > L / 2 * (1 + 1e-5) or (sc["d2"] and np.abs(p[:, 2]).max() > 0):
        ctx.fail("random.outside", f"coordinates up to {np.abs(p).max(0).tolist()}")
        return
    if np.array_equal(p, p2) != (sc["seed"] is not None):
        ctx.fail("random.seed", f"two systems made with seed {sc['seed']}")
        return
    f = p[:, : 2 if sc["d2"] else 3] / L + 0.5
    if n >= 50:
        m = np.abs(f.mean(0) - 0.5).max() * np.sqrt(12 * n)
        w = np.abs(f.var(0) * 12 - 1).max() * np.sqrt(n)
        if m > 8 or w > 10 or len(np.unique(f[:, 0])) < 0.9 * n:
            ctx.fail("random.uniform", f"mean off by {m:.1f}, variance by {w:.1f} standard deviations")


def run(sc, ctx):
    {"UnitCell": unitcell, "random": random_system, "axes": axes}.get(sc["kind"], history)(sc, ctx)
