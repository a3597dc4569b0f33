MODULES = ["sumo.geometry.rot3"]
import math

import numpy as np

from common import *

RULE = ("random and special unit quaternions (half turns, axis rotations, dominant diagonal entry of every axis, trace on either side of 0), "
        "Euler angles including vertical pitch and angles within 1e-15..1e-3 of it; distinct by content")


def setup():
    global U
    import metricstub
    metricstub.install()
    import sumo.metrics.utils as U


def refm(e):
    z, y, x = e
    cz, sz, cy, sy, cx, sx = math.cos(z), math.sin(z), math.cos(y), math.sin(y), math.cos(x), math.sin(x)
    Z = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    Y = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    X = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    return Z @ Y @ X


def finite(x, n, what):
    x = np.asarray(x, float)
    require(x.shape == n, "%s: shape %s", what, x.shape)
    require(np.all(np.isfinite(x)), "%s is not finite: %s", what, x)
    return x


TOL = dict(rtol=0, atol=1e-9)
NEAR = dict(rtol=0, atol=1e-6)      # next to vertical pitch


def quat(q):
    q = np.array(q, float)
    q = q / np.linalg.norm(q)
    A = rot(q)
    keep = frozen(q, A)
    m = finite(U.quat_to_matrix(q), (3, 3), "quat_to_matrix")
    close(m, A, "quat_to_matrix", **TOL)
    close(U.quat_to_matrix(-q), A, "quat_to_matrix of -q", **TOL)
    close(m @ m.T, np.eye(3), "orthonormal", **TOL)
    close(np.linalg.det(m), 1.0, "determinant", **TOL)
    p = finite(U.matrix_to_quat(A), (4,), "matrix_to_quat")
    close(np.linalg.norm(p), 1.0, "matrix_to_quat is a unit quaternion", **TOL)
    close(rot(p), A, "matrix_to_quat", rtol=0, atol=1e-12)
    close(U.quat_to_matrix(p), A, "matrix -> quaternion -> matrix", rtol=0, atol=1e-12)
    e = finite(U.matrix_to_euler(A), (3,), "matrix_to_euler")
    close(refm(e), A, "matrix_to_euler", **NEAR)
    close(U.euler_to_matrix(e), A, "matrix -> Euler -> matrix", **NEAR)
    e = finite(U.quat_to_euler(q), (3,), "quat_to_euler")
    close(refm(e), A, "quat_to_euler", **NEAR)
    close(refm(U.quat_to_euler(-q)), A, "quat_to_euler of -q", **NEAR)
    close(rot(U.euler_to_quat(e)), A, "quaternion -> Euler -> quaternion", **NEAR)
    unchanged([q, A], keep)


def euler(e):
    e = np.array(e, float)
    keep = frozen(e)
    A = refm(e)
    m = finite(U.euler_to_matrix(e), (3, 3), "euler_to_matrix")
    close(m, A, "euler_to_matrix", **TOL)
    q = finite(U.euler_to_quat(e), (4,), "euler_to_quat")
    close(np.linalg.norm(q), 1.0, "euler_to_quat is a unit quaternion", **TOL)
    close(rot(q), A, "euler_to_quat", **TOL)
    f = finite(U.matrix_to_euler(m), (3,), "matrix_to_euler")
    close(refm(f), A, "Euler -> matrix -> Euler", **NEAR)
    f = finite(U.quat_to_euler(q), (3,), "quat_to_euler")
    close(refm(f), A, "Euler -> quaternion -> Euler", **NEAR)
    require(abs(f[1]) <= math.pi / 2 + 1e-12, "pitch in [-pi/2, pi/2]")
    if abs(e[1]) < math.pi / 2 - 1e-2 and abs(e[0]) < 3.14 and abs(e[2]) < 3.14:
        close(f, e, "angles read back", rtol=0, atol=1e-7)
    unchanged([e], keep)


CHECKS = {"quat": quat, "euler": euler}


def cases(rnd, tier):
    h = math.pi / 2
    for p in (h, -h):
        for z in (0.0, 0.3, -2.5, h, math.pi, 3.0):
            for x in (0.0, 0.3, 1.7, -h, 3.1):
                for d in (0.0, 1e-3, 1e-5, 1e-6, 1e-7, 3e-8, 1e-8, 1e-9, 1e-12, 1e-15, 2e-16):
                    yield "euler", {"e": [z, p - d if p > 0 else p + d, x]}
    for i in range(4):
        for s in (1, -1):
            q = [0.0] * 4
            q[i] = float(s)
            yield "quat", {"q": q}
    for i in range(4):
        for j in range(4):
            if i != j:
                for s in (1, -1):
                    for eps in (0.0, 1e-3, 1e-9, 1e-16):
                        q = [eps, -eps, eps, eps]
                        q[i], q[j] = 1.0, float(s)
                        yield "quat", {"q": q}
                        q = [eps, -eps, eps, eps]
                        q[i], q[j] = 1.0, s * 0.3
                        yield "quat", {"q": q}
    # almost half a turn
    for ax in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0.6, 0, 0.8], [0.6, 0.8, 0], [0, -0.6, 0.8], [1, 1, 1], [0.1, -0.2, 0.3], [3, 2, 1]):
        n = math.sqrt(sum(v * v for v in ax))
        for d in (0.0, 1e-2, 1e-4, 1e-6, 1e-7, 3e-8, 1e-8, 1e-9, 1e-12):
            a = math.pi - d
            yield "quat", {"q": [math.cos(a / 2)] + [math.sin(a / 2) * v / n for v in ax]}
    # trace close to zero
    for i in range(30):
        ax = rvec(rnd, 3, 1.0)
        n = math.sqrt(sum(v * v for v in ax)) or 1.0
        a = 2 * math.pi / 3 + rnd.choice([0, 1e-9, -1e-9, 1e-16, 0.01, -0.01])    # trace 1+2cos = 0
        q = [math.cos(a / 2)] + [math.sin(a / 2) * v / n for v in ax]
        yield "quat", {"q": q}
    for i in range(1500 if tier == "quick" else 200000):
        yield "quat", {"q": rquat(rnd)}
        yield "euler", {"e": [rnd.uniform(-3.14, 3.14), rnd.choice([rnd.uniform(-1.57, 1.57), h, -h, rnd.uniform(-7, 7)]), rnd.uniform(-3.14, 3.14)]}
