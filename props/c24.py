"""C24 rotation error: the geodesic angle minimised over the symmetries (metrics/evaluator.py)."""
import itertools
import types

import numpy as np
import z3

import pyvc
from load import World
from pyvc import oarr, quat_matrix, SReal, sincos, lift
from c05 import quatc, mm, tr, I3, rx, ry, rz
from c07 import FAMILIES


class Angles:
    """Angles of rotations, by trace.  An angle is an abstract number in [0, pi] that falls with the trace."""

    def __init__(self, S):
        self.S, self.tab = S, []

    def of(self, t):
        """angle of a rotation of trace t"""
        S = self.S
        e = lift(t)
        for (t2, c, y) in self.tab:
            if S.ring.equal(e, t2):
                return SReal(y)
        c, y = S.fresh_real("costheta"), S.fresh_real("theta")
        S.define(c, lambda v, e=e: (S.ev(e, v) - 1) / 2)
        import math
        S.define(y, lambda v, e=e: math.acos(max(-1.0, min(1.0, (S.ev(e, v) - 1) / 2))))
        S.axiom(z3.And(y >= 0, y <= S.pi().e, c >= -1, c <= 1, (y == 0) == (c == 1), (y == S.pi().e) == (c == -1)))
        if S.ring.constant(e) is not None:
            S.axiom(2 * c + 1 == pyvc.rv(S.ring.constant(e)))
        for (_, c2, y2) in self.tab:
            S.axiom(z3.And((y < y2) == (c > c2), (y == y2) == (c == c2)))
        self.tab.append((e, c, y))
        S.keep += [e, c, y]
        return SReal(y)


class Log:
    """scipy.linalg.logm of a rotation: a skew matrix whose Frobenius norm is sqrt(2) times the rotation angle."""
    _is_log = True

    def __init__(self, S, M):
        self.S, self.M = S, M

    def _norm(self):
        return self.S.memo["angles"].of(trace(self.M)) * pyvc.m_sqrt(2)


def trace(M):
    return M[0, 0] + M[1, 1] + M[2, 2]


def ax(i, s, c):
    return (rx, ry, rz)[i](s, c)


def small(S, M):
    """entries as reduced polynomials"""
    out = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            x = M[i, j]
            if isinstance(x, SReal):
                n, d = S.ring.of(x.e)
                if len(d) == 1 and () in d:
                    n = S.ring.reduce({m: c / d[()] for m, c in n.items()})
                    x = SReal(S.ring.to_z3(n))
            out[i, j] = x
    return out.view(pyvc.A)


def group(sym):
    """Discrete symmetries as integer matrices, closed under composition; and the cylinder axis."""
    cyl = [i for i in range(3) if sym[i] == "cylindrical"]
    gens = []
    for i in range(3):
        if sym[i] == "twoFold":
            gens.append(ax(i, 0, -1))
        if sym[i] == "fourFold":
            gens.append(ax(i, 1, 0))
    key = lambda m: tuple(int(x) for x in np.asarray(m).reshape(-1))
    G = {key(I3): I3}
    todo = [I3]
    while todo:
        a = todo.pop()
        for b in gens:
            c = mm(a, b)
            if key(c) not in G:
                G[key(c)] = c
                todo.append(c)
    return list(G.values()), cyl, gens


def pair(sym, p, r):
    w, x, y, z = p
    a, b, c, d = r
    q = [w * a - x * b - y * c - z * d, w * b + x * a + y * d - z * c, w * c - x * d + y * a + z * b, w * d + x * c - y * b + z * a]
    return {"check": "pair", "args": {"sym": list(sym), "qd": p, "qg": q, "qc": [0.5, 0.5, -0.5, 0.5]}}


def prove(V):
    W = World(V)
    holder = {}

    def logm(M, *a, **k):
        S = pyvc.cur()
        M = small(S, np.asarray(M, dtype=object))
        S.prove_eq("logm is given an orthonormal matrix", mm(M, tr(M)), I3)
        return Log(S, M)
    W.contracts["scipy.linalg"] = types.SimpleNamespace(logm=logm)
    E = W.load("sumo.metrics.evaluator")
    Rot3 = W.load("sumo.geometry.rot3").Rot3
    OS = W.load("sumo.semantic.object_symmetry")
    V.trust("scipy.linalg.logm of a rotation matrix by the angle t in [0, pi] is a matrix of Frobenius norm sqrt(2)*t; its angle is arccos((trace-1)/2), "
            "0 exactly at trace 3, pi exactly at trace -1, and falls as the trace grows",
            "math.atan2 has the defining sine and cosine; numpy.matmul, linalg.norm, sqrt")
    V.assume("machine floats are treated as real numbers (replay uses the float code; it needs an answer good to 1e-6)",
             "rotations are exactly the matrices of unit quaternions; a pair of rotations (D, D*R) covers all pairs",
             "lemma application: the discharged Cauchy-Schwarz lemma is instantiated at the coefficients of the cylinder axis")
    ev = E.Evaluator.__new__(E.Evaluator)

    def obj(R, sym):
        o = types.SimpleNamespace()
        o.pose = types.SimpleNamespace(R=Rot3(R))
        o.symmetry = OS.ObjectSymmetry.from_strings(list(sym))
        return o

    def error(S, D, G, sym, detsym=("none",) * 3):
        return ev.rotation_error_1(obj(D, detsym), obj(G, sym))

    def case(sym, **k):
        def f(v):
            return pair(sym, quatc(v, "p"), quatc(v, "r"))
        return f

    # --- lemma
    def cs(S):
        a, b, n, c, s, m, k = [S.real(x) for x in ("a", "b", "n", "c", "s", "m", "k")]
        S.assume(n >= 0)
        S.assume(n * n == a * a + b * b)
        S.assume(c * c + s * s == 1)
        # (a c + b s)^2 + (a s - b c)^2 = n^2
        S.prove_eq("Lagrange", (a * c + b * s) * (a * c + b * s) + (a * s - b * c) * (a * s - b * c), (a * a + b * b) * (c * c + s * s))
        x, y = S.real("x"), S.real("y")
        S.prove("square root is monotone", pyvc.SBool(z3.Implies(z3.And(x.e * x.e + y.e * y.e == n.e * n.e), x.e <= n.e)))
        z = pyvc.SBool(n.e == 0)
        S.prove("no coefficients without amplitude", pyvc.SBool(z3.Implies(n.e == 0, z3.And(a.e == 0, b.e == 0))))
    V.forall("Cauchy-Schwarz", "lemma", cs)

    def frame_id(S):
        # trace(D^T G) = 3 exactly for equal rotations
        q = S.unit_quaternion("r")
        M = quat_matrix(*q)
        d = sum(((M[i, j] - I3[i, j]) * (M[i, j] - I3[i, j]) for i in range(3) for j in range(3)), 0)
        S.prove_eq("squared distance to the identity is 6 - 2 trace", d, 6 - 2 * trace(M))
    V.forall("trace and equality", "lemma", frame_id)

    def start(S):
        S.memo["angles"] = Angles(S)
        p, r = S.unit_quaternion("p"), S.unit_quaternion("r")
        D, M = quat_matrix(*p), quat_matrix(*r)
        return D, M, small(S, mm(D, M))

    # --- no symmetry
    def plain(S):
        D, M, G = start(S)
        A = S.memo["angles"]
        none = ("none",) * 3
        e = error(S, D, G, none)
        S.prove_eq("angle of the relative rotation", e, A.of(trace(M)))
        S.prove("between 0 and pi", pyvc.SBool(z3.And(lift(e) >= 0, lift(e) <= S.pi().e)))
        S.prove_eq("symmetric in detection and ground truth", error(S, G, D, none), e)
        S.prove_eq("zero for equal rotations", error(S, D, D, none), 0)
        c = [c for (t, c, y) in A.tab if S.ring.equal(t, lift(trace(M)))][0]
        S.prove("zero only at trace 3", pyvc.SBool(z3.Implies(lift(e) == 0, 2 * c + 1 == 3)))
        S.prove_eq("unchanged by a common rotation on the left", error(S, I3, M, none), e)
        S.prove_eq("the detection's own symmetry is irrelevant", error(S, D, G, none, ("twoFold",) * 3), e)
    V.forall("no symmetry", ["Evaluator.rotation_error_1"], plain, case(("none",) * 3))

    SYMS = sorted({p for f in FAMILIES for p in itertools.permutations(f)} - {("none",) * 3})
    for sym in SYMS:
        def body(S, sym=sym):
            D, M, G = start(S)
            A = S.memo["angles"]
            e = error(S, D, G, sym)
            if "spherical" in sym:
                S.prove_eq("no error", e, 0)
                return
            seen = list(A.tab)
            Gs, cyl, gens = group(sym)
            if not cyl:
                spec = [A.of(trace(mm(M, g))) for g in Gs]
                for t, c, y in seen:
                    S.prove("every candidate is a symmetry of the ground truth", any(y.eq(a.e) for a in spec))
                S.prove("not above any allowed rotation", pyvc.SBool(z3.And(*[lift(e) <= a.e for a in spec])))
                S.prove("attained", pyvc.SBool(z3.Or(*[lift(e) == a.e for a in spec])))
            else:
                i = cyl[0]
                j, k = (i + 1) % 3, (i + 2) % 3
                phi = S.angle("phi")
                s, c = sincos(phi)
                hit = set()
                for g in Gs:
                    X = small(S, mm(M, g))
                    a, b = X[j, j] + X[k, k], X[j, k] - X[k, j]
                    n = pyvc.m_sqrt(a * a + b * b)
                    zero = S.decide(n.e == 0)
                    best = [(q, ct, yt) for q, (t, ct, yt) in enumerate(seen) if S.ring.equal(t, lift(X[i, i] + n)) or (zero and S.ring.equal(t, lift(X[i, i] + a)))]
                    S.prove("the best turn for each discrete symmetry is a candidate", bool(best))
                    if not best:
                        continue
                    hit |= {q for q, _, _ in best}
                    turned = mm(X, ax(i, s, c))
                    y = A.of(trace(turned))
                    S.prove_eq("turn about the axis", trace(turned), X[i, i] + a * c + b * s)
                    cphi = [cc for (t, cc, yy) in A.tab if yy.eq(y.e)][0]
                    S.axiom(cphi <= best[0][1])           # Cauchy-Schwarz
                    S.prove("not above any allowed rotation", pyvc.SBool(lift(e) <= y.e))
                S.prove("every candidate is a symmetry of the ground truth", hit == set(range(len(seen))))
                S.prove("attained", pyvc.SBool(z3.Or(*[lift(e) == yt for (_, _, yt) in seen])))
            S.prove("between 0 and pi", pyvc.SBool(z3.And(lift(e) >= 0, lift(e) <= S.pi().e)))
            S.prove("not above the error without symmetry", pyvc.SBool(lift(e) <= A.of(trace(M)).e) if not cyl else pyvc.SBool(z3.BoolVal(True)))
        V.forall("symmetry %s" % " ".join(sym), ["Evaluator.rotation_error_1", "Evaluator.symmetric_rot", "Evaluator.cylindrical_symmetric_rot"], body, case(sym))

        def closed(S, sym=sym):
            """a detection equal to the ground truth up to symmetry has no error; symmetric detections have equal errors"""
            S.memo["angles"] = Angles(S)
            D = quat_matrix(*S.unit_quaternion("p"))
            Gs, cyl, gens = group(sym)
            for g in Gs if len(Gs) <= 8 else gens:
                S.prove_eq("zero up to symmetry", error(S, mm(D, g), D, sym), 0)
        if "spherical" not in sym and not any(s == "cylindrical" for s in sym):
            V.forall("equal up to symmetry %s" % " ".join(sym), ["Evaluator.rotation_error_1"], closed,
                     lambda v, sym=sym: pair(sym, quatc(v, "p"), [1, 0, 0, 0]))
