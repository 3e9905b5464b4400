"""A worker process: executes simulated runs and reports each as one JSON line.

stdin commands (JSON lines):
  {"cmd": "seeds", "prop", "tier", "base", "first", "step", "count", "until"}  explore
  {"cmd": "run", "prop", "scenario", "decisions"}                    one run
"""

import collections
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings


class Ctx:
    """What one simulated run records."""

    def __init__(self, sim, sc):
        self.sim = sim
        self.sc = sc
        self.viol = []
        self.probes = collections.Counter()
        self.faults = collections.Counter()
        self.nontrivial = False
        self.stub = None

    def fail(self, sig, msg):
        if not any(v["sig"] == sig for v in self.viol):
            self.viol.append({"sig": sig, "msg": str(msg)[:2000]})

    def probe(self, name, k=1):
        self.probes[name] += k

    def fault(self, name, k=1):
        self.faults[name] += k


def from_freud(tb):
    """Did the exception come out of freud (rather than out of the harness)?"""
    frames = traceback.extract_tb(tb)
    if any("/pkg/freud/" in f.filename for f in frames):
        return True
    last = frames[-1] if frames else None
    # an extension function called straight from a harness line
    return bool(last and "/vsim/" in last.filename and last.line and ("._cpp_obj" in last.line or "freud._" in last.line))


def execute(mod, sim, sc, decisions=None):
    import numpy as np

    import freud.parallel

    ctx = Ctx(sim, sc)
    random.seed(0)
    np.random.seed(0)
    sim.begin(sc["sched"], decisions)
    freud.parallel.set_num_threads(0)  # whatever the run before it left
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(sc, ctx)
    except Exception as e:  # noqa: BLE001
        tb = e.__traceback__
        text = "".join(traceback.format_exception(e))[-3000:]
        if from_freud(tb):
            ctx.fail(f"unexpected-{type(e).__name__}", text)
        else:
            err = text
    finally:
        sim.end()
    st = sim.stats()
    if getattr(mod, "RACES", False):
        for r in sim.races():
            ctx.fail(mod.race_sig(r), r)
    if getattr(mod, "SCHED_NONTRIVIAL", True) and st["par_regions"] and st["switches"] and st["max_workers"] > 1:
        ctx.nontrivial = True
    return ctx, st, err


def setup():
    import freud

    pkg = os.environ["VSIM_PKG"]
    if not os.path.abspath(freud.__file__).startswith(os.path.abspath(pkg)):
        raise SystemExit(f"freud was imported from {freud.__file__}, not from {pkg}")
    import freud.parallel

    freud.parallel.set_num_threads(0)


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # freud's own warnings on standard output
    setup()
    from vsim.simctl import Sim

    sim = Sim()
    mods = {}

    def mod_of(prop):
        if prop not in mods:
            mods[prop] = importlib.import_module("vsim.props." + prop.lower())
        return mods[prop]

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    emit({"ready": 1})
    for line in sys.stdin:
        c = json.loads(line)
        if c["cmd"] == "quit":
            break
        mod = mod_of(c["prop"])
        if c["cmd"] == "run":
            ctx, st, err = execute(mod, sim, c["scenario"], c.get("decisions"))
            emit(
                {
                    "done": 1, "viol": ctx.viol, "stats": st, "probes": ctx.probes, "faults": ctx.faults,
                    "err": err, "nontrivial": ctx.nontrivial, "log": sim.log() if c.get("want_log") else None,
                }
            )
        elif c["cmd"] == "seeds":
            k = c["first"]
            n = 0
            while n < c["count"] and (c["until"] is None or time.time() < c["until"]):
                seed = c["base"] + k
                emit({"start": seed})
                sc = make_scenario(mod, seed, c["tier"])
                t0 = time.time()
                ctx, st, err = execute(mod, sim, sc)
                emit(
                    {
                        "seed": seed, "viol": ctx.viol, "stats": st, "probes": ctx.probes, "faults": ctx.faults,
                        "err": err, "nontrivial": ctx.nontrivial, "kind": sc.get("kind"), "t": time.time() - t0,
                    }
                )
                k += c["step"]
                n += 1
            emit({"finished": 1})
    out.close()


def make_scenario(mod, seed, tier):
    rng = random.Random(f"{mod.ID}/{seed}")
    sc = mod.gen(rng, tier)
    if "sched" not in sc:
        sc["sched"] = gen_sched(rng)
    # a scenario is what its JSON says
    return json.loads(json.dumps(sc))


def gen_sched(rng, detect=None):
    return {
        "seed": rng.getrandbits(48),
        "hw": rng.choice([2, 2, 3, 4, 4, 6, 8, 12, 16]),
        "preempt": 1,
        "detect": int(rng.random() < 0.15) if detect is None else detect,
        "fill": rng.choice([0x00, 0x5A, 0xFF, 0x7F, 0x01, 0x41]),
    }


if __name__ == "__main__":
    main()
