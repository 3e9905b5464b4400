"""The thread limit in force is the latest one set, and temporary limits are undone."""

import ctypes

import numpy as np

import freud

from .. import adapters as A

ID = "P12"
RULE = (
    "a run counts when a temporary limit that changed the limit was left and at least one computation ran under a limit; "
    "two runs are the same when their programs and scheduling decisions agree"
)
ASSUME = ["limits are set from one thread, as freud's documentation asks", "the simulated machine has at most 16 workers"]
SCHED_NONTRIVIAL = False
BUDGET = 0.6
MAXW = 16
PAR = freud.parallel
VALUES = [None, 0, -1, -7, 1, 1, 2, 3, 4, 5, 8, 12, 16, 40]
REFUSED = ["x", "4", 2.5, 2**40, [2], {}, 1j]
EXITS = ["return", "return", "return", "ValueError", "KeyboardInterrupt", "MemoryError", "SystemExit", "GeneratorExit"]


def gen_value(rng):
    v = rng.choice(VALUES)
    return v


def gen_body(rng, depth, nctx):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.2:
            ops.append(["set", gen_value(rng), rng.random() < 0.2])
        elif x < 0.3:
            ops.append(["refused", rng.randrange(len(REFUSED))])
        elif x < 0.36:
            ops.append(["alloc", rng.choice([1, 2, 5, 7])])
        elif x < 0.55:
            ops.append(["compute", rng.getrandbits(32), rng.random() < 0.3])
        elif x < 0.62:
            ops.append(["with_refused", rng.randrange(len(REFUSED))])
        elif x < 0.68:
            ops.append(["make", rng.randrange(nctx), gen_value(rng)])
        elif depth < 4:
            kind = rng.choice(["new", "new", "new", "made", "made", "default"])
            ops.append(["with", kind, rng.randrange(nctx), gen_value(rng), rng.choice(EXITS), gen_body(rng, depth + 1, nctx)])
    return ops


def gen(rng, tier):
    c = {"kind": "limit", "ctx": [gen_value(rng) for _ in range(3)]}
    c["ops"] = []
    while len(c["ops"]) < 2:
        c["ops"] += gen_body(rng, 0, 3)
    # one computation that is long enough to be divided
    rdf = A.ALL["RDF"]
    c["p"], c["frames"] = rdf.gen(rng, 1, True, False)
    return c


EXC = {
    "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
    "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
}


class Leave(Exception):
    pass


def norm(v):
    return 0 if v is None or v < 0 else v


class Run:
    def __init__(self, sc, ctx):
        self.ctx = ctx
        self.hw = sc["sched"].get("hw", 4)
        self.limit = ctx.sim.lib.sim_max_parallelism
        self.limit.restype = ctypes.c_int
        self.cur = 0
        self.ad = A.ALL["RDF"]
        self.p = sc["p"]
        self.F = self.ad.frame(self.p, sc["frames"][0])
        self.made = [PAR.NumThreads(v) for v in sc["ctx"]]
        self.made_n = list(sc["ctx"])
        self.left = self.computed = 0

    def check(self, what):
        got = PAR.get_num_threads()
        if got != self.cur or isinstance(got, bool):
            self.bad(what, "reported", f"get_num_threads() is {got!r} instead of {self.cur}")
        n = self.cur or self.hw
        e = max(1, min(n, self.hw, MAXW))
        if self.limit() != e:
            self.bad(what, "effective", f"the limit in effect is {self.limit()} instead of {e} (machine has {self.hw})")

    def bad(self, what, kind, msg):
        self.ctx.fail(f"{what}.{kind}", f"after {what}: {msg}")
        raise Leave

    def set(self, v, np_int=False):
        PAR.set_num_threads(np.int64(v).item() if np_int and v is not None else v)
        self.cur = norm(v)

    def go(self, ops):
        for op in ops:
            self.one(op)
            self.check("exit" if op[0] == "with" else op[0])

    def one(self, op):
        k = op[0]
        ctx = self.ctx
        if k == "set":
            self.set(op[1], op[2])
        elif k == "refused":
            v = REFUSED[op[1]]
            try:
                PAR.set_num_threads(v)
            except (TypeError, ValueError, OverflowError, RuntimeError):
                ctx.fault("refused_limit")
                return
            self.cur = v
        elif k == "alloc":
            ctx.sim.arm(1, 1, 0)
            try:
                PAR.set_num_threads(op[1])
                self.cur = op[1]
            except MemoryError:
                ctx.fault("alloc")
            finally:
                ctx.sim.disarm()
        elif k == "with_refused":
            v = REFUSED[op[1]]
            try:
                with PAR.NumThreads(v):
                    ctx.probe("odd_limit_accepted")
            except (TypeError, ValueError, OverflowError, RuntimeError):
                ctx.fault("refused_limit")
        elif k == "make":
            self.made[op[1]] = PAR.NumThreads(op[2])
            self.made_n[op[1]] = op[2]
        elif k == "compute":
            self.compute(op)
        else:
            self.within(op)

    def compute(self, op):
        ctx = self.ctx
        o = self.ad.make(self.p)
        ctx.sim.set("max_workers", 0)
        a, kw = self.ad.args(self.p, self.F)
        if op[2]:
            kw["neighbors"] = "nonsense"
        with ctx.sim.world():
            try:
                o.compute(*a, **kw)
            except ValueError:
                if not op[2]:
                    raise
                ctx.fault("reject")
        n = ctx.sim.stats()["max_workers"]
        if self.cur and n > self.cur:
            self.bad("compute", "workers", f"{n} workers took part under a limit of {self.cur}")
        self.computed += 1

    def within(self, op):
        _, kind, c, v, how, body = op
        before = self.cur
        if kind == "new":
            m = PAR.NumThreads(v)
        elif kind == "default":
            m, v = PAR.NumThreads(), None
        else:
            m, v = self.made[c], self.made_n[c]
        if how == "return":
            with m:
                self.cur = norm(v)
                self.check("enter")
                self.go(body)
        else:
            try:
                with m:
                    self.cur = norm(v)
                    self.check("enter")
                    self.go(body)
                    raise EXC[how]("injected")
            except EXC[how] as e:
                if e.args != ("injected",):
                    raise
                self.ctx.fault("exit_" + how)
            else:
                self.bad("exit", "swallowed", f"{how} did not leave the context")
        if before != norm(v):
            self.left += 1
        self.cur = before


def run(sc, ctx):
    PAR.set_num_threads(0)
    try:
        r = Run(sc, ctx)
        r.check("begin")
        r.go(sc["ops"])
        ctx.nontrivial = r.left > 0 and r.computed > 0
    except Leave:
        pass
    finally:
        PAR.set_num_threads(0)
