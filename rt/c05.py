MODULES = ["sumo.geometry.rot3", "sumo.geometry.pose3", "sumo.geometry.quaternion"]
import math

import numpy as np

from common import *

RULE = ("random and special unit quaternions (axis-aligned, half turns, near-degenerate), translations of several scales, 3xN point "
        "arrays with N=0..5, angles including multiples of pi/2; distinct by content")


def setup():
    global Rot3, Pose3
    from sumo.geometry.rot3 import Rot3
    from sumo.geometry.pose3 import Pose3


def algebra(q1, t1, q2, t2, p, P):
    A, B = rot(q1), rot(q2)
    t1, t2, p = np.array(t1, float), np.array(t2, float), np.array(p, float)
    P = np.array(P, float).reshape(3, -1)
    a, b = Rot3(A), Rot3(B)
    keep = frozen(A, B, t1, t2, p, P)
    k = dict(rtol=1e-9, atol=1e-9 * (1 + max(abs(t1).max(), abs(t2).max(), abs(p).max(), abs(P).max() if P.size else 0)))
    close(a.matrix(), A, "matrix", **k)
    for j in range(3):
        close(a(j), A[:, j], "column", **k)
    close((a * b).matrix(), A @ B, "R1*R2", **k)
    require(isinstance(a * b, Rot3), "Rot3*Rot3 is a Rot3")
    close((a * a.inverse()).matrix(), np.eye(3), "R R^-1", **k)
    close((a.inverse() * a).matrix(), np.eye(3), "R^-1 R", **k)
    for v in (p, P):
        close(a.rotate(v), A @ v, "rotate", **k)
        close(a * v, A @ v, "R*v", **k)
        close(a.unrotate(a.rotate(v)), v, "unrotate(rotate)", **k)
        close(a.unrotate(v), A.T @ v, "unrotate", **k)
    X, Y = Pose3(Rot3(A), t1), Pose3(B, t2)
    close(X.rotation().matrix(), A, "rotation", **k)
    close(X.translation(), t1, "translation", **k)
    close(Y.rotation().matrix(), B, "rotation of bare matrix", **k)
    ap = A @ p + t1
    close(X.transform_from(p), ap, "transform_from", **k)
    close(X * p, ap, "pose*point", **k)
    close(X.transform_to(p), A.T @ (p - t1), "transform_to", **k)
    close(X.transform_to(ap), p, "to(from)", **k)
    aP = A @ P + t1[:, None]
    close(X.transform_all_from(P), aP, "transform_all_from", **k)
    close(X * P, aP, "pose*points", **k)
    close(X.transform_all_to(P), A.T @ (P - t1[:, None]), "transform_all_to", **k)
    close(X.transform_all_to(aP), P, "all_to(all_from)", **k)
    C = X.compose(Y)
    close(C.rotation().matrix(), A @ B, "compose R", **k)
    close(C.translation(), A @ t2 + t1, "compose t", **k)
    close((X * Y).matrix34(), C.matrix34(), "X*Y", **k)
    close(C * p, X * (Y * p), "compose then apply", **k)
    m34 = np.hstack([A, t1[:, None]])
    close(X.matrix34(), m34, "matrix34", **k)
    close(X.matrix(), np.vstack([m34, [0, 0, 0, 1]]), "matrix", **k)
    close(Pose3.FromMatrix34(m34).matrix34(), m34, "FromMatrix34", **k)
    refuses(lambda: Pose3.FromMatrix34(np.eye(3)), ValueError, "FromMatrix34 of 3x3")
    I = X.inverse()
    close(I.matrix34(), np.hstack([A.T, (-A.T @ t1)[:, None]]), "inverse", **k)
    close((I * X).matrix34(), np.eye(4)[:3], "inverse left", **k)
    close((X * I).matrix34(), np.eye(4)[:3], "inverse right", **k)
    require(X.almost_equal(Pose3(A, t1)), "almost_equal to itself")
    require(a.almost_equal(Rot3(A.copy())), "rot almost_equal to itself")
    unchanged([A, B, t1, t2, p, P], keep)
    unchanged([X.rotation().matrix(), X.translation()], [keep[0], keep[2]])


def constructors(M, t):
    close(Pose3().matrix34(), np.eye(4)[:3], "default pose")
    close(Rot3().matrix(), np.eye(3), "default rotation")
    M = np.array(M, float).reshape(3, 3)
    close(Rot3.FromScalars(*M.reshape(-1)).matrix(), M, "FromScalars")
    close(Rot3.FromColumns(M[:, 0], M[:, 1], M[:, 2]).matrix(), M, "FromColumns")
    close(Pose3(M, np.array(t, float)).rotation().matrix(), M, "Pose3(M,t)")
    a, b = Pose3(M, np.array(t, float)), Pose3(M, np.array(t, float) + 1e-3)
    require(not a.almost_equal(b, atol=1e-6, rtol=1e-9), "almost_equal compares translations")
    b = Pose3(M + 1e-3, np.array(t, float))
    require(not a.almost_equal(b, atol=1e-6, rtol=1e-9), "almost_equal compares rotations")
    require(not a.rotation().almost_equal(b.rotation(), atol=1e-6, rtol=1e-9), "rot almost_equal")


def refm(k, t):
    s, c = math.sin(t), math.cos(t)
    return [np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
            np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])][k]


def axes(t, q):
    for k, f in enumerate((Rot3.Rx, Rot3.Ry, Rot3.Rz)):
        close(f(t).matrix(), refm(k, t), "axis rotation %d" % k)
        d = np.zeros(3)
        d[k] = 1
        close(Rot3.AxisAngle(d, t).matrix(), refm(k, t), "AxisAngle on axis %d" % k)
    d = rot(q)[:, 0]
    keep = frozen(d)
    m = Rot3.AxisAngle(d, t).matrix()
    K = np.array([[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]])
    close(m, np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K), "AxisAngle (Rodrigues)")
    close(m @ m.T, np.eye(3), "AxisAngle orthonormal")
    close(np.linalg.det(m), 1.0, "AxisAngle determinant")
    unchanged([d], keep)


def cameras(roll, pitch, yaw, p):
    seq = refm(1, yaw) @ refm(0, pitch) @ refm(2, roll)
    enu = np.array([[1, 0, 0], [0, 0, 1], [0, -1, 0]], float)
    maya = np.diag([1.0, -1, -1])
    for base, f, g in ((enu, Rot3.ENU_camera, Pose3.ENU_camera), (maya, Rot3.Maya_camera, Pose3.Maya_camera)):
        close(f().matrix(), base, "default camera")
        close(f(roll=roll, pitch=pitch, yaw=yaw).matrix(), base @ seq, "camera rotation")
        close(f(roll, pitch, yaw).matrix(), base @ seq, "camera rotation (positional)")
        close(g(roll=roll, pitch=pitch, yaw=yaw, position=np.array(p)).matrix34(),
              np.hstack([base @ seq, np.array(p, float)[:, None]]), "camera pose", rtol=1e-5, atol=1e-5)
        close(g(yaw=yaw).translation(), [0, 0, 0], "default position")
        close(f().matrix(), base, "default camera after use")


CHECKS = {"algebra": algebra, "constructors": constructors, "axes": axes, "cameras": cameras}


def ang(rnd):
    return rnd.choice([rnd.uniform(-3.2, 3.2), rnd.choice([-2, -1, 0, 1, 2]) * math.pi / 2, rnd.uniform(-1e-3, 1e-3)])


def cases(rnd, tier):
    for _ in range(300 if tier == "quick" else 20000):
        n = rnd.randint(0, 5)
        yield "algebra", {"q1": rquat(rnd), "t1": rvec(rnd), "q2": rquat(rnd), "t2": rvec(rnd), "p": rvec(rnd),
                          "P": [rvec(rnd, n) if n else [] for _ in range(3)]}
        yield "axes", {"t": ang(rnd), "q": rquat(rnd)}
        yield "cameras", {"roll": ang(rnd), "pitch": ang(rnd), "yaw": ang(rnd), "p": rvec(rnd)}
        if _ % 5 == 0:
            yield "constructors", {"M": rvec(rnd, 9), "t": rvec(rnd)}
