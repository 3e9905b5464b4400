"""What several property modules share: cases (an analysis, its parameters, its frames)."""

from .. import adapters as A


def gen_case(rng, names, kmax=3, same=None, small=False):
    """An analysis and the frames it is given, one after the other."""
    name = rng.choice(names)
    ad = A.ALL[name]
    k = 1 if rng.random() < 0.55 else rng.randint(1, kmax)
    same = rng.random() < 0.5 if same is None else same
    p, frames = ad.gen(rng, k, same, small)
    return {"a": name, "p": p, "frames": frames}


def frames_of(case):
    ad = A.ALL[case["a"]]
    return ad, case["p"], [ad.frame(case["p"], f) for f in case["frames"]]


def feed(ad, p, o, frames, read=None):
    """One compute per frame; an accumulating analysis keeps adding. Yields (k, outputs)."""
    for k, F in enumerate(frames):
        kw = {"reset": k == 0} if ad.accum else {}
        ad.compute(o, p, F, **kw)
        yield k, (ad.outputs(o) if read is None or read(k) else None)


def against_model(sc, ctx, what="after frame"):
    """Feeds the frames under the scheduler's choices; every output is compared with the definition."""
    ad, p, frames = frames_of(sc)
    with ctx.sim.world():
        got = [o for _, o in feed(ad, p, ad.make(p), frames)]
    n = 0
    for k in range(len(frames)):
        fr = frames[: k + 1] if ad.accum else frames[k : k + 1]
        n += len(ad.model(p, fr))
        d = A.check_model(ad, p, fr, got[k])
        if d:
            ctx.fail(f"{sc['a']}.{d[0]}", f"{what} {k}: {d[1]}")
            return 0
    if any(F.amb for F in frames):
        ctx.probe("ambiguous")
    return n
