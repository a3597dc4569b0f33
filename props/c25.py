"""C25 quaternion, Euler and matrix conversions (metrics/utils.py)."""
import numpy as np

import pyvc
from load import World
from pyvc import oarr, quat_matrix, SReal, sincos
from c05 import quatc, mm, tr, det, proper, rx, ry, rz, I3


def prove(V):
    W = World(V)
    U = W.load("sumo.metrics.utils")
    V.trust("math.atan2 / math.asin / math.sqrt: results have the defining sine and cosine (domain error outside [-1,1]); numpy.outer, array, sqrt")
    V.assume("machine floats are treated as real numbers (replay uses the float code)",
             "rotations are exactly the matrices of unit quaternions",
             "quaternion -> Euler is proved for |sin(pitch)| <= 1 - 1e-6 and for |sin(pitch)| = 1; the band between is covered by bounded replay only")

    def case(v):
        return {"check": "quat", "args": {"q": quatc(v, "q") if "q_w" in v else [1.0, 0.0, 0.0, 0.0]}}

    def ecase(v):
        return {"check": "euler", "args": {"e": [2 * v.get("%s_half" % c, 0.1) for c in "zyx"]}}

    def q2m(S):
        q = S.unit_quaternion("q")
        v = oarr(q)
        m = U.quat_to_matrix(v)
        S.prove_eq("quat_to_matrix is the rotation of q", m, quat_matrix(*q))
        S.prove_eq("quat_to_matrix(-q) is the same", U.quat_to_matrix(-v), quat_matrix(*q))
        proper(S, "quat_to_matrix", m)
        S.prove("operand unchanged", all(a is b for a, b in zip(list(v), q)))
    V.forall("quat_to_matrix", "quat_to_matrix", q2m, case)

    def m2q(S):
        q = S.unit_quaternion("q")
        A = quat_matrix(*q)
        p = U.matrix_to_quat(A)
        S.prove("four components", len(p) == 4)
        S.prove_eq("unit", sum((c * c for c in p), 0), 1)
        S.prove_eq("same rotation", quat_matrix(*list(p)), A)
        S.prove_eq("back to the same matrix", U.quat_to_matrix(p), A)
    V.forall("matrix_to_quat", ["matrix_to_quat", "quat_to_matrix"], m2q, case)

    def e2m(S):
        e = oarr([S.angle(n, half=True) for n in "zyx"])
        (sz, cz), (sy, cy), (sx, cx) = [sincos(a / 2) for a in e]
        full = [(2 * s * c, c * c - s * s) for s, c in ((sz, cz), (sy, cy), (sx, cx))]
        spec = mm(mm(rz(*full[0]), ry(*full[1])), rx(*full[2]))
        q = U.euler_to_quat(e)
        S.prove_eq("euler_to_quat is a unit quaternion", sum((c * c for c in q), 0), 1)
        S.prove_eq("euler_to_quat is Rz Ry Rx", quat_matrix(*list(q)), spec)
    V.forall("euler_to_quat", "euler_to_quat", e2m, ecase)

    def e2m2(S):
        e = oarr([S.angle(n) for n in "zyx"])
        f = [sincos(a) for a in e]
        spec = mm(mm(rz(*f[0]), ry(*f[1])), rx(*f[2]))
        m = U.euler_to_matrix(e)
        S.prove_eq("euler_to_matrix is Rz Ry Rx", m, spec)
        proper(S, "euler_to_matrix", m)
    V.forall("euler_to_matrix", "euler_to_matrix", e2m2, lambda v: {"check": "euler", "args": {"e": [v.get(c, 0.1) for c in "zyx"]}})

    def back(S, e):
        f = [sincos(a) for a in e]
        return mm(mm(rz(*f[0]), ry(*f[1])), rx(*f[2]))

    def q2e(S):
        q = S.unit_quaternion("q")
        w, x, y, z = q
        s = 2 * (w * y - x * z)
        lim = pyvc.frac(1) - pyvc.frac(1) / 10**6
        S.assume(s <= lim)
        S.assume(s >= -lim)
        sv = S.fresh_real("sinpitch")
        S.axiom(sv == s.e)
        S.define(sv, lambda v, e=s.e: S.ev(e, v))
        c = pyvc.m_sqrt(1 - s * s)
        S.axiom(c.e * c.e == 1 - sv * sv)
        S.prove("cos(pitch) is positive (lemma)", c > 0)
        S.axiom(c.e > 0)
        e = U.quat_to_euler(oarr(q))
        S.prove("three angles", len(e) == 3)
        S.prove_eq("same rotation", back(S, e), quat_matrix(*q))
        S.prove_eq("euler_to_matrix of it", U.euler_to_matrix(e), quat_matrix(*q))
    V.forall("quat_to_euler", ["quat_to_euler", "euler_to_matrix"], q2e, case)

    def vertical(sign):
        def lemma(S):
            w, x, y, z = S.unit_quaternion("q")
            S.assume(2 * (w * y - x * z) == sign)
            S.prove("vertical pitch means y=%s, z=%s" % (("w", "-x") if sign > 0 else ("-w", "x")),
                    pyvc.SBool(pyvc.z3.And((y == sign * w).e, (z == -sign * x).e)))
        V.forall("vertical pitch %+d (lemma)" % sign, "quat_to_euler", lemma, case)

        def body(S):
            x = S.real("q_x", sampler=lambda r: r.uniform(-0.7, 0.7))
            w = S.real("q_w", sampler=lambda r: 0.0)
            S.samplers["q_x"] = None
            def smp(rnd, vals):
                import math
                a = rnd.choice([rnd.uniform(-3.2, 3.2), 0.0, math.pi / 2, math.pi])
                vals["q_x"], vals["q_w"] = math.sqrt(.5) * math.sin(a), math.sqrt(.5) * math.cos(a)
            smp.__name__ = "norm"
            S.samplers["q_w"] = smp
            S.axiom(w.e * w.e + x.e * x.e == pyvc.rv(0.5))
            S.ring.relate_square(w.e, pyvc.rv(0.5) - x.e * x.e)
            q = [w, x, sign * w, -sign * x]
            e = U.quat_to_euler(oarr(q))
            S.prove_eq("same rotation", back(S, e), quat_matrix(*q))
        V.forall("quat_to_euler at vertical pitch %+d" % sign, "quat_to_euler", body,
                 lambda v: {"check": "quat", "args": {"q": [v["q_w"], v["q_x"], sign * v["q_w"], -sign * v["q_x"]]}})
    vertical(1)
    vertical(-1)

    # matrix_to_euler is the composition, checked against the callees' contracts
    def m2e(S):
        calls = []
        A = quat_matrix(*S.unit_quaternion("q"))
        saved = U.__dict__["matrix_to_quat"], U.__dict__["quat_to_euler"]
        try:
            U.__dict__["matrix_to_quat"] = lambda m: calls.append(m) or ("quaternion of", m)
            U.__dict__["quat_to_euler"] = lambda q: ("Euler angles of", q)
            r = U.matrix_to_euler(A)
        finally:
            U.__dict__["matrix_to_quat"], U.__dict__["quat_to_euler"] = saved
        ok = isinstance(r, tuple) and r[0] == "Euler angles of" and isinstance(r[1], tuple) and r[1][0] == "quaternion of" and r[1][1] is A
        if not ok:
            # another implementation: judge what it computes
            w, x, y, z = [pyvc.SReal(S.inputs["q_" + c]) for c in "wxyz"]
            s = 2 * (w * y - x * z)
            lim = pyvc.frac(1) - pyvc.frac(1) / 10**6
            S.assume(s <= lim)
            S.assume(s >= -lim)
            S.prove_eq("same rotation", back(S, U.matrix_to_euler(A)), A)
        else:
            S.prove("matrix_to_euler = quat_to_euler . matrix_to_quat", ok)
    V.forall("matrix_to_euler", "matrix_to_euler", m2e, case)
