"""Analyses built on spherical harmonics, eigenvectors and k grids equal their definition under any schedule and after any history."""

import freud
import numpy as np

from .. import adapters as A
from .. import adapters_sph as E
from .common import against_model, feed, frames_of, gen_case

ID = "P23"
RULE = (
    "a run counts when it compared at least one output with the definition and the scheduler switched between workers; two "
    "runs are the same when their scheduling decisions, accesses and scenario kind agree"
)
ASSUME = [
    "fsph, whose submodule is empty here, is replaced by a stand-in for its spherical harmonics; Eigen is the system's 3.4",
    "single precision: an output is compared within the error that rounded positions and angles can cause",
]
NAMES = [c.__name__ for c in E.CLASSES]
SCHED_NONTRIVIAL = False


def gen(rng, tier):
    if rng.random() < 0.1:
        ad = A.ALL["StaticStructureFactorDirect"]
        p, frames = ad.gen(rng, rng.randint(1, 3), rng.random() < 0.4)
        p["k_max"] = round(p["k_max"] * rng.uniform(1, 1.6), 3)
        return {"kind": "sampled", "p": p, "frames": frames, "n": rng.choice([1, 5, 20, 60, 200]), "fail": rng.randint(1, 6) if rng.random() < 0.4 else 0, "keep": rng.random() < 0.5}
    if rng.random() < 0.05:
        return {
            "kind": "vectors", "n": rng.choice([1, 2, 3, 4, 5, 6, 8]), "s": rng.getrandbits(32), "reg": rng.random() < 0.5, "rot": rng.random() < 0.6,
            "noise": rng.choice([0, 0, 0.05, 0.3, 2]), "thr": rng.choice([0.01, 0.1, 0.5, 1.5]), "fail": rng.randint(1, 6) if rng.random() < 0.3 else 0,
        }
    c = gen_case(rng, NAMES)
    c["kind"] = c["a"]
    c["ref"] = rng.random() < 0.5
    # the random device cannot be opened
    c["fail"] = rng.randint(1, 8) if rng.random() < 0.3 and c["p"].get("reg") else 0
    return c


def compute(o, ad, p, F, sc, ctx, **kw):
    """One computation during which the random device may fail; if that makes it fail, it is repeated."""
    ctx.sim.set("entropy_fail", sc["fail"])
    try:
        with ctx.sim.world():
            ad.compute(o, p, F, **kw)
    except RuntimeError as e:
        if "injected" not in str(e):
            raise
        ctx.fault("entropy-call-failed")
        with ctx.sim.world():
            ad.compute(o, p, F, **kw)
    else:
        if sc["fail"] and ctx.sim.stats()["entropy_faults"] > ctx.seen_entropy:
            ctx.fault("entropy-fallback")
    ctx.seen_entropy = ctx.sim.stats()["entropy_faults"]


def sampled(sc, ctx):
    """Random pruning of the k grid, for whatever the random device returns."""
    ad, p = A.ALL["StaticStructureFactorDirect"], sc["p"]
    o = freud.diffraction.StaticStructureFactorDirect(p["bins"], p["k_max"], p["k_min"], sc["n"])
    edges = np.linspace(float(np.float32(p["k_min"])), float(np.float32(p["k_max"])), p["bins"] + 1)
    tot, cnt, lim, skip = np.zeros(p["bins"]), np.zeros(p["bins"]), 1e-5, False
    for k, f in enumerate(sc["frames"]):
        F = ad.frame(p, f)
        if k and not sc["keep"]:
            tot, cnt, lim, skip = 0 * tot, 0 * cnt, 1e-5, False
        compute(o, ad, p, F, sc, ctx, reset=not k or not sc["keep"])
        kp = np.array(o.k_points, float).reshape(-1, 3)
        sk = np.array(o.S_k, float)
        kv, mag, amb = ad.grid(p, F)
        if amb:
            ctx.probe("ambiguous")
            skip = True
            continue
        tol = 1e-4 * (1 + p["k_max"])
        d = np.abs(kp[:, None] - kv[None]).max(-1) if len(kv) else np.full((len(kp), 1), np.inf)
        if len(kp) and d.min(1).max() > tol:
            ctx.fail("sampled.k_points", f"frame {k}: {kp[d.min(1).argmax()]} is no vector of the grid between k_min and k_max")
            return
        if len(np.unique(d.argmin(1))) != len(kp):
            ctx.fail("sampled.k_points.twice", f"frame {k}: a k point occurs twice")
            return
        B = 2 * np.pi * np.linalg.inv(F.geo.H[:2, :2] if F.geo.d2 else F.geo.H)
        q = np.linalg.norm(B, axis=1) / (2 * np.pi)
        top = float(np.float32(p["k_max"])) / (2 * np.pi)
        full = np.pi * top**2 / (4 * q.prod()) if F.geo.d2 else np.pi * top**3 / (6 * q.prod())
        if F.geo.d2:  # int min(1, cut/r) 2 pi r/4 dr = n q.prod()
            c = np.array([-np.pi / 4, np.pi / 2 * top, -sc["n"] * q.prod()])
        else:  # int min(1, (cut/r)^2) 4 pi r^2/8 dr = n q.prod()
            c = np.array([-np.pi / 3, np.pi / 2 * top, 0, -sc["n"] * q.prod()])
        r = np.roots(c)
        r = r[np.abs(r.imag) < 1e-9].real
        r = r[(r >= 0) & (r <= top)]
        cut = np.inf if sc["n"] > full * 1.001 else (r.min() if len(r) and sc["n"] < full * 0.999 else 0)
        must = mag < 2 * np.pi * cut * 0.99 - 1e-4
        if must.any() and (not len(kp) or d[:, must].min(0).max() > tol):
            ctx.fail("sampled.k_points.missing", f"frame {k}: of {int(must.sum())} vectors up to {2 * np.pi * cut}, which are all to be sampled, one is missing")
            return
        if (~must).any():
            ctx.probe("pruned")
        m = np.linalg.norm(kp, axis=1)
        w = edges[1] - edges[0]
        x = (m - edges[0]) / w
        near = (np.abs(x - np.rint(x)) < 1e-4) & ~((m == 0) & (edges[0] == 0))
        if near.any():
            skip = True
        b = np.clip(np.floor(x).astype(int), 0, p["bins"] - 1)
        np.add.at(tot, b, ad.sk(F, kp))
        np.add.at(cnt, b, 1)
        lim += (len(F.pts) * len(F.Q)) / (F.f["ntot"] if F.qpts is not None else F.n) * 4e-6 * (1 + p["k_max"] * F.geo.scale)
        if skip:
            continue
        e = np.where(cnt > 0, tot / np.maximum(cnt, 1), 0)
        r = A.cmp_close(sk, e, 1e-4, lim)
        if r:
            ctx.fail("sampled.S_k", f"frame {k}: S_k is not the mean over the sampled k points: {r}")
            return
    ctx.nontrivial = True


def vectors(sc, ctx):
    """Two sets of vectors, brought together: the map, the turn and the distance belong to each other."""
    g = np.random.default_rng(sc["s"])
    n, reg = sc["n"], sc["reg"]
    box = freud.box.Box.cube(20)
    a = np.float32(g.normal(size=(n, 3)))
    b = a[g.permutation(n)].astype(float)
    if sc["rot"] and reg:
        b = E.S.qrot(E.S.quats(sc["s"], 1)[0], b)
    b = np.float32(b + sc["noise"] * g.normal(size=b.shape))
    A0, B0 = a.astype(float), b.astype(float)
    plain = not E.collinear(A0) and not E.collinear(B0)
    ctx.sim.set("entropy_fail", sc["fail"])
    for kind in ("rmsd", "similar"):
        with ctx.sim.world():
            try:
                if kind == "rmsd":
                    r, v, m = freud.environment._minimize_RMSD(box, a.copy(), b.copy(), reg)
                else:
                    v, m = freud.environment._is_similar_motif(box, a.copy(), b.copy(), sc["thr"], reg)
            except RuntimeError as e:
                if "injected" not in str(e):
                    raise
                ctx.fault("entropy-call-failed")
                continue
        v = np.asarray(v, float)
        name = f"vectors.{kind}"
        R = np.linalg.lstsq(B0, v, rcond=None)[0].T  # v = R b
        if not reg and np.abs(v - B0).max() > 2e-5:
            return ctx.fail(name + ".turned", "vectors changed without registration")
        if n >= 3 and plain:
            if np.abs(R @ R.T - np.eye(3)).max() > 1e-2 * np.linalg.cond(B0) or np.abs(v - B0 @ R.T).max() > 1e-4 or np.linalg.det(R) < 0.5:
                return ctx.fail(name + ".rotation", f"{v.tolist()} is not {B0.tolist()} turned")
        if np.abs(E.norms(v) - E.norms(B0)).max() > 1e-4:
            return ctx.fail(name + ".lengths", "the turned vectors have other lengths")
        if m and (sorted(m.keys()) != list(range(n)) or sorted(m.values()) != list(range(n))):
            return ctx.fail(name + ".map", f"{m} for {n} vectors")
        if kind == "rmsd":
            if not m:
                return ctx.fail(name + ".map", "no map")
            d = np.sqrt(np.mean([((A0[i] - v[j]) ** 2).sum() for i, j in m.items()]))
            best = np.sqrt(((A0[:, None] - v[None]) ** 2).sum(-1))
            i, j = E.linear_sum_assignment(best**2)
            best = np.sqrt((best[i, j] ** 2).mean())
            if abs(d - r) > 1e-4 or r < best - 1e-4:
                return ctx.fail(name + ".value", f"{r}, {d} from the map and the vectors, {best} at best")
            if sc["noise"] == 0 and plain and r > 2e-3:
                return ctx.fail(name + ".missed", f"RMSD {r} of a set that is the other one, turned and reordered")
        else:
            if m:
                d = max(np.sqrt(((A0[i] - v[j]) ** 2).sum()) for i, j in m.items())
                if d > sc["thr"] + 1e-4:
                    return ctx.fail(name + ".far", f"a pair at distance {d}, threshold {sc['thr']}")
            s = E.similar(A0, v, sc["thr"], 1e-5, False)
            if s is True and not m and not reg:
                return ctx.fail(name + ".missed", "similar sets have no map")
            if sc["noise"] == 0 and reg and plain and not m:
                return ctx.fail(name + ".missed", "a turned copy is not similar")
        ctx.nontrivial = True


def run(sc, ctx):
    ctx.seen_entropy = 0
    if sc["kind"] == "vectors":
        return vectors(sc, ctx)
    if sc["kind"] == "sampled":
        return sampled(sc, ctx)
    ad, p, frames = frames_of(sc)
    if sc["ref"] and not sc["fail"]:  # the one-worker schedule of the same build, to the bit where sums are not regrouped
        with ctx.sim.ref():
            ref = [o for _, o in feed(ad, p, ad.make(p), frames)]
        with ctx.sim.world():
            got = [o for _, o in feed(ad, p, ad.make(p), frames)]
        for k, (g, r) in enumerate(zip(got, ref)):
            d = A.diff_outputs(g, r, ad.tol)
            if d:
                ctx.fail(f"{sc['a']}.{d[0]}.schedule", f"frame {k}: under this schedule differs from the one-worker result: {d[1]}")
                return
    if sc["fail"]:
        o = ad.make(p)
        for k, F in enumerate(frames):
            compute(o, ad, p, F, sc, ctx)
            d = A.check_model(ad, p, [F], ad.outputs(o))
            if d:
                ctx.fail(f"{sc['a']}.{d[0]}", f"frame {k}: {d[1]}")
                return
        n = len(ad.model(p, frames[-1:]))
    else:
        n = against_model(sc, ctx)
    ctx.nontrivial = n > 0 and (ctx.sim.stats()["switches"] > 0 or bool(sc["fail"]))
