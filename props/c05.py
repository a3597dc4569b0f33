"""C05 rotations and poses: rigid-motion algebra (Rot3, Pose3)."""
import numpy as np

from load import World
from pyvc import NP, MATH, oarr, quat_matrix, SReal, SInt, sincos
from seq import SArr, prove_arr


def quatc(v, n):
    return [v["%s_%s" % (n, c)] for c in "wxyz"]


def vecc(v, n, k=3):
    return [v["%s_%d" % (n, i)] for i in range(k)]


def mm(a, b):
    return oarr([[sum((a[i, k] * b[k, j] for k in range(3)), 0) for j in range(3)] for i in range(3)])


def mv(a, p):
    return oarr([sum((a[i, k] * p[k] for k in range(3)), 0) for i in range(3)])


def tr(a):
    return oarr([[a[j, i] for j in range(3)] for i in range(3)])


def rx(s, c): return oarr([[1, 0, 0], [0, c, -s], [0, s, c]])
def ry(s, c): return oarr([[c, 0, s], [0, 1, 0], [-s, 0, c]])
def rz(s, c): return oarr([[c, -s, 0], [s, c, 0], [0, 0, 1]])


ENU0 = oarr([[1, 0, 0], [0, 0, 1], [0, -1, 0]])
MAYA0 = oarr([[1, 0, 0], [0, -1, 0], [0, 0, -1]])
I3 = oarr([[1, 0, 0], [0, 1, 0], [0, 0, 1]])


def det(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


def proper(S, name, m):
    S.prove_eq(name + ": orthonormal", mm(m, tr(m)), I3)
    S.prove_eq(name + ": determinant 1", det(m), 1)


def snap(x):
    return [v for v in np.asarray(x, dtype=object).reshape(-1).tolist()]


def frame(S, name, arr, before):
    """the operand's storage is untouched"""
    now = snap(arr)
    ok = len(now) == len(before) and all(a is b or S.ring.equal(_z(a), _z(b)) for a, b in zip(now, before))
    S.prove(name, bool(ok))


def _z(x):
    from pyvc import lift
    return lift(x)


def prove(V):
    W = World(V)
    R3 = W.load("sumo.geometry.rot3")
    P3 = W.load("sumo.geometry.pose3")
    Rot3, Pose3 = R3.Rot3, P3.Pose3
    V.trust("numpy: dot, transpose, stack, hstack, vstack, outer, eye act as their documentation says (executed on symbolic entries by numpy itself or by the pyvc shim)")
    V.assume("machine floats are treated as real numbers (replay uses the compiled float code)",
             "rotations are exactly the matrices of unit quaternions (every rotation has one)",
             "sin/cos enter through sin^2+cos^2=1, angle addition and their values at multiples of pi/2")

    def pose(S, n):
        R = S.rotation("q" + n)
        t = S.vec("t" + n)
        return R, t, Pose3(Rot3(R), t)

    def case2(check, *extra):
        def c(v):
            d = {"q1": quatc(v, "q1"), "t1": vecc(v, "t1")}
            if "q2_w" in v:
                d.update({"q2": quatc(v, "q2"), "t2": vecc(v, "t2")})
            else:
                d.update({"q2": [1, 0, 0, 0], "t2": [1, 2, 3]})
            d["p"] = vecc(v, "p") if "p_0" in v else [1.0, -2.0, 0.5]
            P = v.get("P")
            d["P"] = P if P and len(P) == 3 and len(P[0]) > 0 else [[1.0, 2.0], [0.5, -1.0], [3.0, 0.0]]
            return {"check": "algebra", "args": d}
        return c

    # --- Rot3 operators
    def rot_ops(S):
        A, B = S.rotation("q1"), S.rotation("q2")
        p = S.vec("p")
        a, b = Rot3(A), Rot3(B)
        sa, sb, sp = snap(A), snap(B), snap(p)
        S.prove_eq("matrix", a.matrix(), oarr(np.asarray(sa, dtype=object).reshape(3, 3)))
        for j in range(3):
            S.prove_eq("column %d" % j, a(j), [sa[j], sa[3 + j], sa[6 + j]])
        S.prove_eq("product of rotations", (a * b).matrix(), mm(A, B))
        S.prove_eq("inverse on the right", (a * a.inverse()).matrix(), I3)
        S.prove_eq("inverse on the left", (a.inverse() * a).matrix(), I3)
        S.prove_eq("rotate", a.rotate(p), mv(A, p))
        S.prove_eq("operator * on a point", a * p, mv(A, p))
        S.prove_eq("unrotate undoes rotate", a.unrotate(a.rotate(p)), p)
        S.prove_eq("rotate undoes unrotate", a.rotate(a.unrotate(p)), p)
        frame(S, "operand 1 unchanged", a.R, sa)
        frame(S, "operand 2 unchanged", b.R, sb)
        frame(S, "point unchanged", p, sp)
    V.forall("Rot3 operators", ["Rot3.__init__", "Rot3.matrix", "Rot3.__call__", "Rot3.inverse", "Rot3.rotate", "Rot3.unrotate", "Rot3.__mul__"],
             rot_ops, case2("algebra"))

    def rot_cols(S):
        A = S.rotation("q1")
        n = S.int("N", 0, sampler=lambda r: r.randint(0, 4))
        P = SArr.input(S, "P", (3, n))
        a = Rot3(A)
        spec = SArr((3, n), lambda i, j: sum((_at(A, i, k) * P.f(k, j) for k in range(3)), 0))
        prove_arr(S, "rotation of 3xN columns", a * P, spec)
        prove_arr(S, "rotate of 3xN columns", a.rotate(P), spec)
        prove_arr(S, "unrotate undoes rotate on 3xN", a.unrotate(a.rotate(P)), P)
    V.forall("Rot3 on 3xN", ["Rot3.__mul__", "Rot3.rotate", "Rot3.unrotate"], rot_cols, case2("algebra"))

    # --- Pose3
    def pose_ops(S):
        A, ta, a = pose(S, "1")
        B, tb, b = pose(S, "2")
        p = S.vec("p")
        sn = [snap(A), snap(ta), snap(B), snap(tb), snap(p)]
        S.prove_eq("rotation()", a.rotation().matrix(), A)
        S.prove_eq("translation()", a.translation(), ta)
        ap = oarr([x + y for x, y in zip(mv(A, p), ta)])
        S.prove_eq("transform_from is R p + t", a.transform_from(p), ap)
        S.prove_eq("operator * on a point", a * p, ap)
        S.prove_eq("transform_to undoes transform_from", a.transform_to(a.transform_from(p)), p)
        S.prove_eq("transform_from undoes transform_to", a.transform_from(a.transform_to(p)), p)
        c = a.compose(b)
        S.prove_eq("compose then apply", c.transform_from(p), a.transform_from(b.transform_from(p)))
        S.prove_eq("compose rotation", c.rotation().matrix(), mm(A, B))
        S.prove_eq("operator * composes", (a * b).matrix34(), c.matrix34())
        i = a.inverse()
        S.prove_eq("inverse left", i.compose(a).matrix34(), oarr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]))
        S.prove_eq("inverse right", a.compose(i).matrix34(), oarr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]))
        S.prove_eq("inverse maps back", i * (a * p), p)
        m34 = oarr([[A[r, 0], A[r, 1], A[r, 2], ta[r]] for r in range(3)])
        S.prove_eq("matrix34 = [R|t]", a.matrix34(), m34)
        S.prove_eq("matrix = [R|t;0 0 0 1]", a.matrix(), oarr(list(map(list, m34)) + [[0, 0, 0, 1]]))
        S.prove_eq("FromMatrix34 inverts matrix34", Pose3.FromMatrix34(a.matrix34()).matrix34(), m34)
        for nme, x, s in zip(["R1", "t1", "R2", "t2", "point"], [a.R.R, a.t, b.R.R, b.t, p], sn):
            frame(S, nme + " unchanged", x, s)
    V.forall("Pose3 operators", ["Pose3.__init__", "Pose3.rotation", "Pose3.translation", "Pose3.compose", "Pose3.inverse", "Pose3.transform_from",
                                 "Pose3.transform_to", "Pose3.__mul__", "Pose3.matrix34", "Pose3.matrix", "Pose3.FromMatrix34"],
             pose_ops, case2("algebra"))

    def pose_cols(S):
        A, ta, a = pose(S, "1")
        n = S.int("N", 0, sampler=lambda r: r.randint(0, 4))
        P = SArr.input(S, "P", (3, n))
        spec = SArr((3, n), lambda i, j: sum((_at(A, i, k) * P.f(k, j) for k in range(3)), 0) + _at(ta, i))
        prove_arr(S, "transform_all_from column by column", a.transform_all_from(P), spec)
        prove_arr(S, "operator * on 3xN", a * P, spec)
        prove_arr(S, "transform_all_to undoes transform_all_from", a.transform_all_to(spec), P)
        to = SArr((3, n), lambda i, j: sum((_at(A, k, i) * (P.f(k, j) - ta[k]) for k in range(3)), 0))
        prove_arr(S, "transform_all_to column by column", a.transform_all_to(P), to)
    V.forall("Pose3 on 3xN", ["Pose3.transform_all_from", "Pose3.transform_all_to", "Pose3.__mul__"], pose_cols, case2("algebra"))

    def default(S):
        S.prove_eq("default pose is the identity", Pose3().matrix34(), oarr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]))
        S.prove_eq("default rotation is the identity", Rot3().matrix(), I3)
        M = S.mat("M", 3, 3)
        t = S.vec("t1")
        S.prove_eq("Pose3 of a bare matrix", Pose3(M, t).rotation().matrix(), M)
        x, y, z = S.vec("x"), S.vec("y"), S.vec("z")
        c = Rot3.FromColumns(x, y, z).matrix()
        for k, v in enumerate((x, y, z)):
            S.prove_eq("FromColumns %d" % k, [c[0][k], c[1][k], c[2][k]], list(v))
        sc = [S.real("s%d" % i) for i in range(9)]
        S.prove_eq("FromScalars", Rot3.FromScalars(*sc).matrix(), oarr([sc[0:3], sc[3:6], sc[6:9]]))
    V.forall("constructors", ["Rot3.FromColumns", "Rot3.FromScalars", "Rot3.__init__", "Pose3.__init__"], default,
             lambda v: {"check": "constructors", "args": {"M": [v["s%d" % i] if "s%d" % i in v else float(i) for i in range(9)], "t": [1.0, 2.0, 3.0]}})

    # --- axis rotations
    def angcase(v):
        return {"check": "axes", "args": {"t": v.get("t", 0.3), "q": quatc(v, "q1") if "q1_w" in v else [1, 0, 0, 0]}}

    def axes(S):
        t = S.angle("t")
        s, c = sincos(t)
        for nme, f, m in (("Rx", Rot3.Rx, rx), ("Ry", Rot3.Ry, ry), ("Rz", Rot3.Rz, rz)):
            S.prove_eq(nme + " is the documented matrix", f(t).matrix(), m(s, c))
            proper(S, nme, np.asarray(f(t).matrix()).view(type(I3)))
        for k, f in enumerate((Rot3.Rx, Rot3.Ry, Rot3.Rz)):
            d = oarr([1 if i == k else 0 for i in range(3)])
            S.prove_eq("AxisAngle about axis %d agrees with the axis rotation" % k, Rot3.AxisAngle(d, t).matrix(), f(t).matrix())
    V.forall("axis rotations", ["Rot3.Rx", "Rot3.Ry", "Rot3.Rz", "Rot3.AxisAngle"], axes, angcase)

    def axis_angle(S):
        # every unit vector is the first column of some rotation
        t = S.angle("t")
        s, c = sincos(t)
        A = S.rotation("q1")
        d = oarr([A[0, 0], A[1, 0], A[2, 0]])
        m = Rot3.AxisAngle(d, t).matrix()
        S.prove_eq("axis is fixed", mv(m, d), d)
        proper(S, "AxisAngle", m)
        S.prove_eq("trace is 1 + 2 cos", m[0, 0] + m[1, 1] + m[2, 2], 1 + 2 * c)
        # sense: skew part is sin(a) * skew(d)
        S.prove_eq("right-handed sense", [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]], [2 * s * d[0], 2 * s * d[1], 2 * s * d[2]])
    V.forall("axis-angle", "Rot3.AxisAngle", axis_angle, angcase)

    # --- cameras
    def camcase(v):
        return {"check": "cameras", "args": {"roll": v.get("roll", 0.1), "pitch": v.get("pitch", 0.2), "yaw": v.get("yaw", 0.3), "p": [1.0, 2.0, 3.0]}}

    def cams(S):
        r, p, y = S.angle("roll"), S.angle("pitch"), S.angle("yaw")
        pos = S.vec("pos")
        seq = mm(mm(ry(*sincos(y)), rx(*sincos(p))), rz(*sincos(r)))
        for nme, base, f, g in (("ENU", ENU0, Rot3.ENU_camera, Pose3.ENU_camera), ("Maya", MAYA0, Rot3.Maya_camera, Pose3.Maya_camera)):
            m = f(roll=r, pitch=p, yaw=y).matrix()
            S.prove_eq(nme + " camera = default * yaw * pitch * roll", m, mm(base, seq))
            proper(S, nme + " camera", m)
            S.prove_eq(nme + " default camera", f().matrix(), base)
            P = g(roll=r, pitch=p, yaw=y, position=pos)
            S.prove_eq(nme + " pose rotation", P.rotation().matrix(), mm(base, seq))
            S.prove_eq(nme + " pose position", P.translation(), pos)
            S.prove_eq(nme + " default position", g(roll=r).translation(), [0, 0, 0])
    V.forall("cameras", ["Rot3.ENU_camera", "Rot3.Maya_camera", "Pose3.ENU_camera", "Pose3.Maya_camera"], cams, camcase)


def _at(a, *ix):
    from seq import as_sarr
    return as_sarr(a).f(*ix)
