"""C20 point clouds."""
import numpy as np

import cppmodel
import pyvc
from cppmodel import ctor_
from load import World
from pyvc import SBool, SInt, SReal, z3, ilift
from seq import SArr, in_range
from meshlib import zand, zor


def world(V, unit="sumo/threedee/PointCloud.h"):
    api = V.repo + "/sumo-api"
    C, notes, _ = cppmodel.load(V, api, unit)
    C = cppmodel.link(C)
    W = World(V, api)
    W.C = C
    W.notes = [unit + ": " + x for x in notes]
    V.trust("clang's AST of the translation unit and its translation to the engine's language (vlib/cppfront.py); recompiled and rerun in the replay")
    V.trust("std::vector and Eigen fixed-size vectors by their documented contracts (vlib/cppmodel.py); element accesses carry index obligations")
    V.assume("machine floats are treated as real numbers; sizes and indices as mathematical integers below 2^32; colours are 0 to 255")
    names = {"CVector": "Vector", "CColor": "sumo::PointCloud::Color", "CPointCloud": "PointCloud", "const ": ""}

    def vec(t):
        t = "std::" + t.replace("[", "<").replace("]", ">")
        for a, b in names.items():
            t = t.replace(a, b)
        return ctor_(t, [])
    W.cvector = vec
    W.cnew["CColor"] = C.Color
    W.cnew["PointCloud"] = lambda: None
    ev = {"CVector%s" % k: (lambda k: lambda *a: ctor_("Vector" + k, list(a)))(k) for k in ("2", "2f", "3", "3f", "4")}
    W.inject["sumo.base.vector"] = ev
    W.cworld = ("sumo.base.vector", "sumo.threedee.point_cloud")
    W.inject["sumo.threedee.point_cloud"] = {"CPointCloud": C.PointCloud}
    W.new["CPointCloud"] = C.PointCloud
    return W


class CloudIn:
    """Arrays of a cloud with n points, any numbers, coloured or not."""

    def __init__(self, S, name, colored):
        self.name, self.colored = name, colored
        self.n = S.int(name + "n", 0, sampler=lambda r: r.randint(0, 4))
        self.P = SArr.input(S, name + "P", (3, self.n))
        self.C = None
        if colored:
            A = SArr.input(S, name + "C", (3, self.n), "int", 0, 255)

            def f(k, j):
                x = A.f(k, j)
                S.keep.append(x.e)
                S.axiom(z3.And(x.e >= 0, x.e <= 255))
                return x
            self.C = SArr((3, self.n), f, np.uint8)

    @staticmethod
    def case(v, name):
        P = [[float(x) for x in r] for r in v[name + "P"]]
        C = v.get(name + "C")
        return [[list(x) for x in zip(*P)], None if C is None else [list(x) for x in zip(*[[int(y) for y in r] for r in C])]]


FNS = ["PointCloud::PointCloud", "PointCloud.__init__", "PointCloud.points", "PointCloud.colors", "PointCloud.num_points", "PointCloud.colored",
       "vector3s_of_array", "array_of_vector3s", "colors_of_array", "array_of_colors"]


def prove(V):
    W = world(V)
    PC = W.load("sumo.threedee.point_cloud").PointCloud
    V.notes += W.notes

    def make(c):
        return PC(c.P) if c.C is None else PC(c.P, c.C)

    def is_cloud(S, what, pc, n, P, C, colored=None):
        """pc has n points, point j is P(j) and (coloured) its colour is C(j)"""
        A, D = pc.points(), pc.colors()
        if not S.prove(what + ": points in columns", A.ndim == 2 and A.shape[0] == 3):
            return
        S.prove(what + ": number of points", zand(pyvc.eq(A.shape[1], n), pyvc.eq(pc.num_points(), n)))
        j = SInt(S.fresh_int("j"))
        if pyvc.decide_quick(pyvc.blift(n > 0)) is False:
            S.prove(what + ": no colours", pyvc.eq(D.shape[1], 0))
            S.prove(what + ": not coloured", pyvc.eq(pc.colored(), False))
            return
        S.axiom(in_range(j, n))
        S.prove(what + ": every point in its place", zand(*[pyvc.eq(A.f(k, j), x) for k, x in enumerate(P(j))]))
        S.prove(what + ": point(i)", zand(*[pyvc.eq(a, x) for a, x in zip(pc.point(j), P(j))]))
        S.prove(what + ": colored()", pyvc.eq(SBool(pyvc.blift(pc.colored())), SBool(pyvc.blift(n > 0)) if C is not None else SBool(z3.BoolVal(False))))
        if C is None:
            S.prove(what + ": no colours", pyvc.eq(D.shape[1], 0))
            return
        S.prove(what + ": one colour per point", pyvc.eq(D.shape[1], n))
        if isinstance(D.shape[1], int) and D.shape[1] == 0:
            return                  # then there is no point
        S.prove(what + ": every point with its own colour", zand(*[pyvc.eq(D.f(k, j), x) for k, x in enumerate(C(j))]))
        S.prove(what + ": color(i)", zand(*[pyvc.eq(a, x) for a, x in zip(pc.color(j), C(j))]))

    def col(A):
        return None if A is None else lambda j: [A.f(k, j) for k in range(3)]

    for colored in (False, True):
        def basic(S, colored=colored):
            c = CloudIn(S, "a", colored)
            pc = make(c)
            is_cloud(S, "cloud", pc, c.n, col(c.P), col(c.C))
        V.forall("points and colours as given (%s)" % ("coloured" if colored else "uncoloured"), FNS + ["PointCloud.point", "PointCloud.color"], basic,
                 lambda v: {"check": "basic", "args": {"c": CloudIn.case(v, "a")}})

    def empty(S):
        is_cloud(S, "empty cloud", PC(), SInt(ilift(0)), lambda j: [], None)
    V.forall("empty cloud", FNS, empty, lambda v: {"check": "basic", "args": {"c": [[], None]}})

    def two(how, ca, cb):
        def b(S):
            a, c = CloudIn(S, "a", ca), CloudIn(S, "b", cb)
            x, y = make(a), make(c)
            na, nb = S.fork(pyvc.blift(a.n > 0)), S.fork(pyvc.blift(c.n > 0))
            xa, xb = ca and na, cb and nb            # points with colours
            mixed = na and nb and ca != cb
            zero = SInt(ilift(0))

            def operands():
                if how != "append":
                    is_cloud(S, "first operand", x, a.n, col(a.P), col(a.C))
                is_cloud(S, "second operand", y, c.n, col(c.P), col(c.C))
            try:
                if how == "append":
                    x.append(y)
                    r = x
                elif how == "merge":
                    r = PC.merge(x, y)
                elif how == "plus":
                    r = x + y
                else:
                    r = sum([x, y])
            except ValueError:
                S.prove("refused only with colours on one side", xa != xb)
                operands()
                return
            if na and nb:
                P = lambda j: [pyvc.ite(j < a.n, u, w) for u, w in zip(col(a.P)(j), col(c.P)(j - a.n))]
                C = (lambda j: [pyvc.ite(j < a.n, u, w) for u, w in zip(col(a.C)(j), col(c.C)(j - a.n))]) if xa and xb else None
            else:
                P, C = (col(a.P), col(a.C)) if na else (col(c.P), col(c.C)) if nb else (lambda j: [], None)
            is_cloud(S, how, r, a.n + c.n if na and nb else a.n if na else c.n if nb else zero, P, C)
            operands()
        return b
    HOW = {"append": "append0", "merge": "merge", "plus": "plus", "sum": "sum"}
    for how in HOW:
        for ca in (False, True):
            for cb in (False, True):
                V.forall("%s: %s, %s" % (how, "coloured" if ca else "uncoloured", "coloured" if cb else "uncoloured"),
                         ["PointCloud::append", "PointCloud.append", "PointCloud.merge", "PointCloud.__add__", "PointCloud.__radd__"] + FNS, two(how, ca, cb),
                         lambda v, how=how: {"check": "combine", "args": {"cs": [CloudIn.case(v, "a"), CloudIn.case(v, "b")], "how": HOW[how], "order": [0, 1], "poses": []}})

    W.load("sumo.geometry.pose3")
    Pose3, Rot3 = W.mods["sumo.geometry.pose3"].Pose3, W.load("sumo.geometry.rot3").Rot3
    mv = lambda M, p: [sum((M[i, k] * p[k] for k in range(3)), SReal(pyvc.rv(0))) for i in range(3)]

    def move(colored, way):
        def b(S):
            c = CloudIn(S, "a", colored)
            x = make(c)
            R, d = S.rotation("q"), S.vec("t")
            T = Pose3(Rot3(R), d)
            fwd = lambda p: [u + v for u, v in zip(mv(R, p), d)]
            bwd = lambda p: mv(R.T, [u - v for u, v in zip(p, d)])
            P = col(c.P)
            r = getattr(x, "transform_" + way)(T)
            f = fwd if way == "from" else bwd
            is_cloud(S, "transform_" + way, r, c.n, lambda j: f(P(j)), col(c.C))
            is_cloud(S, "transform_%s: original cloud" % way, x, c.n, P, col(c.C))
            back = getattr(r, "transform_" + ("to" if way == "from" else "from"))(T)
            is_cloud(S, "transform_%s: there and back" % way, back, c.n, P, col(c.C))
        return b
    for way in ("from", "to"):
        for colored in (False, True):
            V.forall("transform_%s (%s)" % (way, "coloured" if colored else "uncoloured"),
                     ["PointCloud.transform_from", "PointCloud.transform_to", "Pose3.transform_all_from", "Pose3.transform_all_to", "Rot3.__mul__", "Rot3.unrotate"] + FNS,
                     move(colored, way), lambda v: {"check": "move", "args": {"c": CloudIn.case(v, "a"), "q": [v["q_" + k] for k in "wxyz"], "t": [v["t_%d" % k] for k in range(3)]}})

    def thin(colored):
        def b(S):
            c = CloudIn(S, "a", colored)
            k = S.int("keep", 0, sampler=lambda r: r.randint(0, 5))
            x = make(c)
            S.assume(c.n > 0)
            r = x.thin(k)
            idx = S.drawn[-1]
            sel = lambda A: None if A is None else lambda j: [A.f(q, idx.f(j)) for q in range(3)]
            is_cloud(S, "thin", r, k, sel(c.P), sel(c.C))
            is_cloud(S, "thin: original cloud", x, c.n, col(c.P), col(c.C))
        return b
    for colored in (False, True):
        V.forall("thin (%s)" % ("coloured" if colored else "uncoloured"), ["PointCloud.thin"] + FNS, thin(colored),
                 lambda v: {"check": "thin", "args": {"c": CloudIn.case(v, "a"), "n": int(v["keep"]), "seed": 1}})

    def register(kinds):
        def b(S):
            cs = [CloudIn(S, "c%d" % i, k) for i, k in enumerate(kinds)]
            xs = [make(c) for c in cs]
            poses = [(S.rotation("q%d" % i), S.vec("t%d" % i)) for i in range(len(kinds))]
            some = [S.fork(pyvc.blift(c.n > 0)) for c in cs]
            used = [(c, R, d) for c, (R, d), s in zip(cs, poses, some) if s]

            def operands():
                for c, x in zip(cs, xs):
                    is_cloud(S, "registered cloud", x, c.n, col(c.P), col(c.C))
            try:
                r = PC.register(iter([(Pose3(Rot3(R), d), x) for (R, d), x in zip(poses, xs)]))
            except ValueError:
                S.prove("refused only with coloured and uncoloured points", len({c.colored for c, _, _ in used}) > 1)
                operands()
                return
            n = SInt(ilift(0))
            starts = []
            for c, _, _ in used:
                starts.append(n)
                n = n + c.n

            def at(get):
                def f(j):
                    out = get(used[-1], j - starts[-1])
                    for u, s0, s1 in reversed(list(zip(used[:-1], starts[:-1], starts[1:]))):
                        out = [pyvc.ite(j < s1, x, y) for x, y in zip(get(u, j - s0), out)]
                    return out
                return f
            P = at(lambda u, i: [x + y for x, y in zip(mv(u[1], col(u[0].P)(i)), u[2])])
            C = at(lambda u, i: col(u[0].C)(i)) if used and all(u[0].colored for u in used) else None
            is_cloud(S, "register", r, n, P if used else lambda j: [], C)
            operands()
        return b

    def rcase(kinds):
        return lambda v: {"check": "combine", "args": {"cs": [CloudIn.case(v, "c%d" % i) for i in range(len(kinds))], "how": "register", "order": list(range(len(kinds))),
                                                       "poses": [[[v["q%d_%s" % (i, k)] for k in "wxyz"], [v["t%d_%d" % (i, k)] for k in range(3)]] for i in range(len(kinds))]}}
    import itertools
    for m in range(3):
        for kinds in itertools.product((False, True), repeat=m):
            V.forall("register %d clouds (%s)" % (m, "".join("cu"[not k] for k in kinds)), ["PointCloud.register", "PointCloud.transform_from"] + FNS, register(kinds), rcase(kinds))
    V.notes.append("register: proved for up to two clouds of any size (bounded in the number of clouds); more clouds and the self-append are evaluated on the compiled code")
