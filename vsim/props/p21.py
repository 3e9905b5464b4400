"""A box says the same in every representation, after any history of changes."""

import random
import types
import warnings

import numpy as np

import freud

from .. import adapters as A
from .. import boxops as B
from .. import query as Q
from .. import systems as S
from ..systems import Frame, Geo

ID = "P21"
RULE = (
    "a run counts when a box was changed at least once after it was made and then used or converted; two runs are the same "
    "when their scheduling decisions, accesses and histories agree"
)
ASSUME = ["a three-dimensional box whose third length was never set is not used"]
SCHED_NONTRIVIAL = False


def length(rng):
    return float(np.float32(round(rng.uniform(4, 12), 3)))


def tilt(rng):
    return float(np.float32(rng.choice([0, round(rng.uniform(-0.7, 0.7), 3)])))


BAD = (
    "len4", "zero_x", "zero_y", "zero_z", "L2", "Lx_text", "dim4", "dim_conflict", "dict_conflict", "angle_0", "angle_pi", "angles", "mul_neg",
    "mul_zero", "per_short", "xy_text", "L_text", "per_text",
)
CONV = ("dict", "matrix", "list", "array", "object", "angles", "cpp", "query", "params", "short")


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        x = rng.random()
        if x < 0.1:
            ops.append(["L", [length(rng) for _ in range(3)]])
        elif x < 0.14:
            ops.append(["L1", length(rng)])
        elif x < 0.27:
            ops.append([rng.choice(["Lx", "Ly", "Lz"]), length(rng)])
        elif x < 0.37:
            ops.append([rng.choice(["xy", "xz", "yz"]), tilt(rng)])
        elif x < 0.45:
            ops.append(["per", [rng.random() < 0.7 for _ in range(3)]])
        elif x < 0.48:
            ops.append(["per1", rng.random() < 0.7])
        elif x < 0.52:
            ops.append([rng.choice(["periodic_x", "periodic_y", "periodic_z"]), rng.random() < 0.6])
        elif x < 0.62:
            ops.append(["dim", rng.choice([2, 3])])
        elif x < 0.72:
            ops.append(["bad", rng.choice(BAD)])
        elif x < 0.82:
            ops.append(["conv", rng.choice(CONV), rng.random() < 0.4])
        elif x < 0.86:
            ops.append(["mul", round(rng.uniform(0.5, 2), 3), rng.random() < 0.5])
        elif x < 0.95:
            ops.append(["use", B.gen_op(rng, 40)])
        else:
            ops.append(["ask", rng.getrandbits(32), rng.choice(["aabb", "link", "tuple", "cell"]), Q.gen_query(rng, True, 15)])
    ops.append(["use", B.gen_op(rng, 40)])
    ops.append(["conv", rng.choice(CONV), False])
    if rng.random() < 0.4:
        ops.append(["ask", rng.getrandbits(32), rng.choice(["aabb", "link", "tuple", "cell"]), Q.gen_query(rng, True, 15)])
    b = S.gen_box(rng)
    if b["d2"] and rng.random() < 0.3:
        b["tilt"] = [tilt(rng) for _ in range(3)]  # they have no effect
    return {"box": b, "ops": ops, "kind": "2D" if b["d2"] else "3D"}


f32 = np.float32


class State:
    def __init__(self, spec):
        self.L = [f32(x) for x in spec["L"]]
        self.t = [f32(x) for x in spec["tilt"]]
        self.d2 = spec["d2"]
        self.per = [True] * 3
        if self.d2:
            self.L[2] = f32(0)

    def whole(self):
        return self.d2 or self.L[2] != 0

    def spec(self):
        t = [float(x) for x in self.t]
        if self.d2:
            t[1] = t[2] = 0.0
        return {"L": [float(x) for x in self.L], "tilt": t, "d2": self.d2}

    def says(self):
        return {
            "L": np.array(self.L, float), "xy": float(self.t[0]), "xz": float(self.t[1]), "yz": float(self.t[2]), "is2D": self.d2,
            "dimensions": 2 if self.d2 else 3, "periodic": np.array(self.per),
        }

    def check(self, b, tol=0.0, per=True, flat=False):
        """None, or what box b says that is not so. flat: the tilts without effect need not be the same."""
        for k, e in self.says().items():
            if k == "periodic" and not per or flat and self.d2 and k in ("xz", "yz"):
                continue
            g = getattr(b, k)
            if not np.allclose(np.asarray(g, float), np.asarray(e, float), rtol=tol, atol=tol):
                return f"{k} is {g} instead of {e}"
        for k, n in enumerate(("x", "y", "z")):
            if per and bool(getattr(b, "periodic_" + n)) != self.per[k]:
                return f"periodic_{n} is {not self.per[k]}"
            if not np.isclose(getattr(b, "L" + n), float(self.L[k]), rtol=tol, atol=tol):
                return f"L{n} is {getattr(b, 'L' + n)} instead of {self.L[k]}"
        if self.whole():
            geo = Geo(self.spec())
            if not np.isclose(b.volume, geo.volume, rtol=1e-5 + 4 * tol):
                return f"volume is {b.volume} instead of {geo.volume}"
            e = [1 / float(x) if x else 0.0 for x in self.L]
            if not np.allclose(b.L_inv, e, rtol=1e-6 + 4 * tol, atol=1e-7):
                return f"L_inv is {b.L_inv} instead of {e}"
            H = geo.H.copy()
            if self.d2:
                H[:, 2] = 0
            if not np.allclose(b.to_matrix(), H, rtol=1e-5 + 4 * tol, atol=1e-5 + 20 * tol):
                return f"to_matrix() is {b.to_matrix()} instead of {H}"
        return None


def refuse(b, s, how):
    """Does what has to be refused."""
    Bx = freud.box.Box
    a = b.to_dict()
    if how == "len4":
        Bx.from_box([4, 5, 6, 0.1])
    elif how == "zero_x":
        Bx(0, 4, 5)
    elif how == "zero_y":
        Bx(4, 0)
    elif how == "zero_z":
        Bx(4, 4, 0, is2D=False)
    elif how == "L2":
        b.L = [3, 4]
    elif how == "Lx_text":
        b.Lx = "x"
    elif how == "L_text":
        b.L = [1, 2, "x"]
    elif how == "xy_text":
        b.xy = "x"
    elif how == "dim4":
        b.dimensions = 4
    elif how == "dim_conflict":
        Bx.from_box(b, dimensions=3 if s.d2 else 2)
    elif how == "dict_conflict":
        Bx.from_box(a, dimensions=3 if s.d2 else 2)
    elif how == "angle_0":
        Bx.from_box_lengths_and_angles(4, 5, 6, 0, 1, 1)
    elif how == "angle_pi":
        Bx.from_box_lengths_and_angles(4, 5, 6, 1, 1, np.pi)
    elif how == "angles":
        Bx.from_box_lengths_and_angles(4, 5, 6, 0.2, 0.3, 2.5)
    elif how == "mul_neg":
        b * -1.5
    elif how == "mul_zero":
        0 * b
    elif how == "per_short":
        b.periodic = [True]
    elif how == "per_text":
        b.periodic = [True, "no", False]


def convert(b, s, how):
    """Another box made from what b says: (box, tolerance, does it know about periodicity, are idle tilts kept)."""
    Bx = freud.box.Box
    p = b.to_box_params()
    if how == "dict":
        return Bx.from_box(b.to_dict()), 0, False, True
    if how == "matrix":
        return Bx.from_box(b.to_matrix()), 3e-5, False, False
    if how == "list":
        return Bx.from_box(list(p)), 0, False, True
    if how == "array":
        return Bx.from_box(np.array(p)), 0, False, True
    if how == "object":
        o = types.SimpleNamespace(**b.to_dict())
        return Bx.from_box(o), 0, False, True
    if how == "angles":
        return Bx.from_box_lengths_and_angles(*b.to_box_lengths_and_angles()), 3e-4, False, False
    if how == "cpp":
        return freud.box.BoxFromCPP(b._cpp_obj), 0, True, True
    if how == "query":
        return freud.locality.AABBQuery(b, np.zeros((1, 3), np.float32)).box, 0, True, True
    if how == "params":
        return Bx(*p, is2D=s.d2), 0, False, True
    if any(s.t):
        return Bx.from_box(list(p)), 0, False, True
    return Bx.from_box(list(p[: 2 if s.d2 else 3])), 0, False, True


def run(sc, ctx):
    warnings.simplefilter("ignore")
    s = State(sc["box"])
    p = sc["box"]
    b = freud.box.Box(*p["L"], *p["tilt"], is2D=p["d2"])
    changed = used = 0
    for n, op in enumerate(sc["ops"]):
        k = op[0]
        old = freud.box.BoxFromCPP(b._cpp_obj) if s.whole() else None
        if k == "L":
            b.L = op[1]
            s.L = [f32(x) for x in op[1]]
        elif k == "L1":
            b.L = op[1]
            s.L = [f32(op[1])] * 3
        elif k in ("Lx", "Ly", "Lz"):
            setattr(b, k, op[1])
            s.L["xyz".index(k[1])] = f32(op[1])
        elif k in ("xy", "xz", "yz"):
            setattr(b, k, op[1])
            s.t[("xy", "xz", "yz").index(k)] = f32(op[1])
        elif k == "per":
            b.periodic = op[1]
            s.per = list(op[1])
        elif k == "per1":
            b.periodic = op[1]
            s.per = [op[1]] * 3
        elif k.startswith("periodic_"):
            setattr(b, k, op[1])
            s.per["xyz".index(k[-1])] = op[1]
        elif k == "dim":
            b.dimensions = op[1]
            s.d2 = op[1] == 2
        elif k == "bad":
            try:
                refuse(b, s, op[1])
            except Exception:  # noqa: BLE001
                ctx.fault("refused_" + op[1])
            else:
                ctx.fail(f"accepted.{op[1]}", f"operation {n}: {op[1]} was not refused")
                return
        elif k == "conv":
            if s.whole():
                c, tol, per, flat = convert(b, s, op[1])
                m = s.check(c, tol, per, not flat)
                if m:
                    ctx.fail(f"convert.{op[1]}", f"operation {n}, {b}: {m}")
                    return
                if not tol and flat and (c == b) != (per or all(s.per)):
                    ctx.fail("equal", f"operation {n}: {c} == {b} is {c == b}")
                    return
                used += 1
                if op[2] and not tol and flat:
                    c.periodic = s.per
                    b = c
        elif k == "mul":
            if s.whole():
                b = b * op[1] if op[2] else op[1] * b
                q = [x * op[1] for x in (old.Lx, old.Ly, old.Lz)]
                s.L = [f32(x) for x in q]
                b.periodic = s.per
        elif k == "use":
            if s.whole():
                m = use(ctx, b, s, op[1])
                if m:
                    ctx.fail(f"{op[1]['op']}.{m[0]}", f"operation {n}, {b}: {m[1]}")
                    return
                used += 1
        elif s.whole():
            m = ask(ctx, b, s, op)
            if m:
                ctx.fail(f"query.{m[0]}", f"operation {n}, {b}, {op[2]}: {m[1]}")
                return
            used += 1
        if s.d2:
            s.L[2] = f32(0)
        m = s.check(b)
        if m:
            ctx.fail("says", f"after operation {n} ({op[:2]}): {m}")
            return
        if k not in ("use", "ask", "conv", "bad", "mul"):
            changed += 1
            same = old is not None and all(np.array_equal(np.asarray(getattr(old, a)), np.asarray(getattr(b, a))) for a in ("L", "xy", "xz", "yz", "is2D", "periodic"))
            if old is not None and (old == b) != same:
                ctx.fail("equal", f"operation {n}: {old} == {b} is {old == b}")
                return
    ctx.nontrivial = bool(changed and used)


def use(ctx, b, s, d):
    d = dict(d, box=s.spec(), per=sum(1 << k for k in range(3) if s.per[k]))
    op = B.Op(d)
    op.box = lambda: b
    with ctx.sim.world():
        r, msg = op.real()
    if msg:
        return "arrays", msg
    if r.shape != op.expect_shape():
        return "shape", f"{r.shape} instead of {op.expect_shape()}"
    m = op.model(r)
    return ("definition", m) if m else None


def ask(ctx, b, s, op):
    g = random.Random(op[1])
    spec = {"sys": {"box": s.spec(), "n": g.randint(1, 30), "ps": op[1], "pk": "uni"}, "nq": {"t": op[2]}, "no_pairs": True}
    F = Frame(spec)
    F.geo.box = lambda: b
    with ctx.sim.world():
        q = Q.Query(F, op[3])
        try:
            nq = F.system()
            if isinstance(nq, tuple):
                nq = freud.locality.NeighborQuery.from_system(nq)
            l = nq.query(q.points(), dict(q.args)).toNeighborList()
        except Exception as e:  # noqa: BLE001
            if all(s.per):
                return "refused", repr(e)
            ctx.fault("refused_nonperiodic")
            return None
    if not all(s.per[: 2 if s.d2 else 3]):
        return "nonperiodic", "neighbors were found in a box that is not periodic, which is not implemented"
    return q.check_nlist(l)
