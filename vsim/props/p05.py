"""A failed accumulation leaves no trace: what is read later is the sum over the frames whose compute call succeeded."""

import numpy as np

from .. import adapters as A
from .. import faults as X
from .common import gen_case

ID = "P05"
RULE = (
    "a run counts when at least one compute call failed through an injected fault and a result was later read and compared "
    "with that of a new object fed only the frames that succeeded; two runs are the same when their scheduling decisions, "
    "accesses and analysis agree"
)
ASSUME = [
    "an interruption after the native accumulation began may have added its frame: all of it or nothing",
    "a failed call that was asked to reset may or may not have reset; nothing of its own frame may be left",
]
SCHED_NONTRIVIAL = False
NAMES = A.ACCUM
NAN = ("BondOrder", "PMFTR12", "PMFTXYT", "PMFTXY", "PMFTXYZ")


def gen(rng, tier):
    c = gen_case(rng, NAMES, kmax=3, small=rng.random() < 0.8)
    c["kind"] = c["a"]
    ad = A.ALL[c["a"]]
    nf = len(c["frames"])
    # failures in the middle of the loop are runs of their own
    kinds = rng.choice([("reject", "interrupt", "alloc_out")] * 4 + [("alloc_in",)] + ([("nan",)] if c["a"] in NAN else []))
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5, 7])):
        r = rng.random()
        if r < 0.45:
            ops.append(["x", rng.randrange(nf), rng.random() < 0.2, X.gen(rng, kinds)])
        elif r < 0.6:
            ops.append(["r"])
        else:
            ops.append(["c", rng.randrange(nf), rng.random() < 0.15])
    if rng.random() < 0.7:
        ops.insert(0, ["c", rng.randrange(nf), True])
    if c["a"] == "PMFTXYZ" and rng.random() < 0.5:
        ops.insert(rng.randrange(len(ops) + 1), ["e", rng.randrange(nf), rng.random() < 0.4, rng.choice([1, 2, 3, 5])])
    c["ops"] = [*ops, ["c", rng.randrange(nf), False], ["r"]]
    return c


def reference(ctx, ad, p, frames, since):
    with ctx.sim.ref():
        x = ad.make(p)
        for k, f in enumerate(since):
            ad.compute(x, p, frames[f], reset=k == 0)
        return ad.outputs(x)


def between(ctx, ad, p, frames, since, partial, got):
    if ad.name == "StaticStructureFactorDirect":  # it does not show its counts: all but the sums is as it should be
        ref = reference(ctx, ad, p, frames, since)
        return all(A.same_value(got[k], ref[k], ad.tol.get(k, 0)) is None for k in ref if k != "S_k")
    if "bin_counts" not in got:
        return False
    lo = reference(ctx, ad, p, frames, since)["bin_counts"]
    hi = reference(ctx, ad, p, frames, [*since, *partial])["bin_counts"]
    g = got["bin_counts"]
    if ad.name == "BondOrder":  # fed other orientations than the frame has
        return g.shape == lo.shape and bool((g >= lo).all() and g.sum() <= hi.sum())
    return g.shape == lo.shape and bool((g >= lo).all() and (g <= hi).all())


def torn(o, before):
    """Interrupted while the pattern, the frame counter and the wave vectors were being replaced one by one."""
    if not o._diffraction.any() and o._frame_counter == 0:
        return False
    return o._frame_counter != before[1] or not np.array_equal(o._diffraction, before[0]) or getattr(o, "_N_points", None) != before[2]


def run(sc, ctx):
    ad = A.ALL[sc["a"]]
    p = sc["p"]
    frames = [ad.frame(p, f) for f in sc["frames"]]
    with ctx.sim.world():
        o = ad.make(p)
    cand = [()]  # what the object may have accumulated
    last = None  # the last failure
    reads = 0
    half = False
    partial = []  # frames that failed in the middle of their loop
    for n, op in enumerate(sc["ops"]):
        if op[0] == "c":
            with ctx.sim.world():
                ad.compute(o, p, frames[op[1]], reset=op[2])
            cand = [(op[1],)] if op[2] else [(*c, op[1]) for c in cand]
            if op[2]:
                last, half, partial = None, False, []
            continue
        if op[0] == "e":
            # another number of equivalent orientations cannot be added to what is there
            if () in cand or op[3] == max(1, p["neq"]):
                continue
            F = frames[op[1]]
            other = dict(p, neq=op[3])
            if op[2]:
                with ctx.sim.world():
                    ad.compute(o, other, F, reset=True)
                    ad.compute(o, p, F, reset=True)
                cand = [(op[1],)]
                last, half, partial = None, False, []
                continue
            try:
                with ctx.sim.world():
                    ad.compute(o, other, F, reset=False)
            except RuntimeError:
                ctx.fault("reject_equivalent")
                continue
            return ctx.fail("PMFTXYZ.equivalent", f"operation {n}: {op[3]} equivalent orientations were added to {max(1, p['neq'])}")
        if op[0] == "x":
            F = frames[op[1]]
            before = (o._diffraction.copy(), o._frame_counter, getattr(o, "_N_points", None)) if sc["a"] == "DiffractionPattern" else None
            with ctx.sim.world():
                r = X.faulty(ctx, ad, p, o, F, op[3], reset=op[2])
            if r.exc is None:
                if r.fired:
                    return  # accepted after all: nothing to say about its meaning
                cand = [(op[1],)] if op[2] else [(*c, op[1]) for c in cand]
                continue
            new = list(cand) + ([()] if op[2] else [])
            if r.kind == "interrupt":
                if sc["a"] == "DiffractionPattern" and torn(o, before):
                    ctx.probe("between_assignments")
                    return
                if r.ran or sc["a"] == "MSD":
                    new += [(*c, op[1]) for c in new]
                    half = True
            cand = list(dict.fromkeys(new))
            last = r
            if r.kind in ("alloc_in", "nan"):
                partial.append(op[1])
            continue
        if () in cand:
            continue
        with ctx.sim.world():
            got = ad.outputs(o)
        diffs = []
        ok = []
        for c in cand:
            ref = reference(ctx, ad, p, frames, c)
            if half and "correlation" in ref and got["correlation"].dtype.kind == "f":
                ref["correlation"] = ref["correlation"].real
            d = A.diff_outputs(got, ref, ad.tol)
            if d is None:
                ok.append(c)
                continue
            diffs.append((c, d))
        if not ok:
            c, d = diffs[0]
            what = f".{last.kind}" if last else ""
            if partial and any(between(ctx, ad, p, frames, c, partial, got) for c in cand):
                # the counts are those of the frames that succeeded and of a part of the failed one
                d = ("midloop", d[1])
                what = "-nan" if last.kind == "nan" else ""
            ctx.fail(
                f"{sc['a']}.{d[0]}{what}",
                f"operation {n}: frames that succeeded since the last reset {list(c)}; last failure: "
                f"{last and (last.kind, last.where, repr(last.exc)[:150])}; {d[1]} of a new object fed those frames",
            )
            return
        cand = ok
        if last:
            reads += 1
    ctx.nontrivial = reads > 0
