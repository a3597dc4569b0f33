MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3"]
import itertools
import math

import numpy as np

import metricstub
from common import *

BUDGET = 20
RULE = ("pairs of rotations (random, equal, half-turns apart, nearly half-turns, related by each symmetry) under all valid symmetries in every axis order; "
        "distinct by content")
FAMILIES = (("none",) * 3, ("twoFold", "none", "none"), ("fourFold", "none", "none"), ("twoFold", "twoFold", "fourFold"), ("fourFold",) * 3, ("twoFold",) * 3,
            ("cylindrical", "none", "none"), ("cylindrical", "twoFold", "twoFold"), ("spherical",) * 3)
SYMS = sorted({p for f in FAMILIES for p in itertools.permutations(f)})


def setup():
    metricstub.install()
    global E, EV, PO, PS, Pose3, Rot3, Sym, Box3d
    from sumo.metrics import evaluator as EV
    from sumo.semantic.project_object import ProjectObject as PO
    from sumo.semantic.project_scene import ProjectScene as PS
    from sumo.semantic.object_symmetry import ObjectSymmetry as Sym
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3
    from sumo.threedee.box_3d import Box3d

    class T(EV.Evaluator):
        def _shape_similarity(self, a, b):
            return 0.0
    E = T(PS("bounding_box"), PS("bounding_box"))


def ax(axis, a):
    q = [math.cos(a / 2), 0, 0, 0]
    q[axis + 1] = math.sin(a / 2)
    return rot(q)


def obj(R, sym):
    return PO.gen_bounding_box_object("1", Box3d(np.zeros(3), np.ones(3)), Pose3(Rot3(np.array(R)), np.zeros(3)), symmetry=Sym.from_strings(list(sym)))


def angle(M):
    """Rotation angle, accurate everywhere."""
    s = math.sqrt((M[2, 1] - M[1, 2]) ** 2 + (M[0, 2] - M[2, 0]) ** 2 + (M[1, 0] - M[0, 1]) ** 2)
    return math.atan2(s, M[0, 0] + M[1, 1] + M[2, 2] - 1)


GROUPS = {}


def group(sym):
    """Generators closed under composition: discrete elements, and the cylinder axis."""
    if tuple(sym) not in GROUPS:
        GROUPS[tuple(sym)] = make_group(sym)
    return GROUPS[tuple(sym)]


def make_group(sym):
    G = [np.eye(3)]
    gens = [ax(i, math.pi) if s == "twoFold" else ax(i, math.pi / 2) for i, s in enumerate(sym) if s in ("twoFold", "fourFold")]
    grew = True
    while grew:
        grew = False
        for g, h in itertools.product(list(G), gens):
            x = g @ h
            if not any(np.allclose(x, y) for y in G):
                G.append(x)
                grew = True
    cyl = [i for i, s in enumerate(sym) if s == "cylindrical"]
    return G, cyl[0] if cyl else None


def best(Rd, Rg, sym):
    if "spherical" in sym:
        return 0.0
    G, cyl = group(sym)
    out = []
    for g in G:
        M = Rd.T @ Rg @ g
        if cyl is None:
            out.append(angle(M))
        else:
            # trace of M * Raxis(t) = c + a cos t + b sin t, so the largest is c + hypot(a, b)
            j, k = (cyl + 1) % 3, (cyl + 2) % 3
            t = math.atan2(M[j, k] - M[k, j], M[j, j] + M[k, k])
            out.append(min(angle(M @ ax(cyl, t)), angle(M @ ax(cyl, t + math.pi))))
    return min(out)


TOL = 3e-7


def error(Rd, Rg, sym, dsym=("none",) * 3):
    d, g = obj(Rd, dsym), obj(Rg, sym)
    e = E.rotation_error_1(d, g)
    require(isinstance(e, (int, float, np.floating)), "error is a %s", type(e))
    e = float(e)
    require(-1e-12 <= e <= math.pi + 1e-6, "error %s is outside [0, pi]", e)
    same(d.pose.R.matrix(), np.array(Rd), "rotation of the detection")
    same(g.pose.R.matrix(), np.array(Rg), "rotation of the ground truth")
    return e


def pair(qd, qg, qc, sym):
    Rd, Rg, C = rot(qd), rot(qg), rot(qc)
    e = error(Rd, Rg, sym)
    w = best(Rd, Rg, sym)
    require(abs(e - w) < TOL, "error %s under %s, expected %s", e, sym, w)
    require(abs(error(C @ Rd, C @ Rg, sym) - e) < TOL, "error changes when both are rotated")
    plain = error(Rd, Rg, ("none",) * 3)
    require(abs(plain - angle(Rd.T @ Rg)) < TOL, "error without symmetry %s, expected %s", plain, angle(Rd.T @ Rg))
    require(abs(plain - error(Rg, Rd, ("none",) * 3)) < TOL, "error without symmetry is not symmetric")
    require(e <= plain + TOL, "error %s with symmetry %s is larger than %s without", e, sym, plain)
    require(error(Rd, Rd, sym) < TOL, "error of equal rotations %s", error(Rd, Rd, sym))
    # the symmetry of the detection does not matter
    require(abs(error(Rd, Rg, sym, FAMILIES[4]) - e) < TOL, "error depends on the symmetry of the detection")


def allowed(qd, qg, sym, k, t):
    """Composing the detection with an allowed rotation changes nothing."""
    Rd, Rg = rot(qd), rot(qg)
    G, cyl = group(sym)
    h = G[k % len(G)]
    if cyl is not None:
        h = h @ ax(cyl, t)
    if "spherical" in sym:
        h = rot([math.cos(t), math.sin(t), 0.3, -0.2])
    e = error(Rd, Rg, sym)
    e2 = error(Rd @ h, Rg, sym)
    require(abs(e - e2) < TOL, "error %s becomes %s when the detection is rotated by a symmetry of %s", e, e2, sym)
    z = error(Rg @ h, Rg, sym)
    require(z < TOL, "error %s of the ground truth rotated by a symmetry of %s", z, sym)


def helpers(q, axis, a):
    R = Rot3(rot(q))
    same(E.symmetric_rot(R, axis, a).R, rot(q) @ ax(axis, a), "symmetric_rot", exact=False, atol=1e-12)


CHECKS = {"pair": pair, "allowed": allowed, "helpers": helpers}


def cases(rnd, tier):
    h = 0.5 ** 0.5
    for axis in range(3):
        for a in (0.0, 1.0, math.pi, -math.pi / 2):
            yield "helpers", {"q": rquat(rnd), "axis": axis, "a": a}
    for s in SYMS:
        for k in range(2):
            yield "allowed", {"qd": rquat(rnd), "qg": rquat(rnd), "sym": list(s), "k": rnd.randrange(64), "t": rnd.uniform(-4, 4)}
    for s in [x for x in SYMS if x != ("fourFold",) * 3] + SYMS:
        for i in rnd.sample(range(4), 1):
            q = rquat(rnd)
            # half-turns, and close to half-turns
            for eps in rnd.sample((0.0, 1e-3, 1e-7, 1e-10), 2):
                p = [eps, 0.0, 0.0, 0.0]
                p[1 + i % 3] = 1.0
                if i == 3:
                    p = [eps, 0.6, 0.0, 0.8]
                w, x, y, z = q
                a, b, c, d = p
                prod = [w * a - x * b - y * c - z * d, w * b + x * a + y * d - z * c, w * c - x * d + y * a + z * b, w * d + x * c - y * b + z * a]
                yield "pair", {"qd": q, "qg": prod, "qc": rquat(rnd), "sym": list(s)}
    for i in range(50000):
        s = list(SYMS[i % len(SYMS)])
        yield "pair", {"qd": rquat(rnd), "qg": rquat(rnd), "qc": rquat(rnd), "sym": s}
        yield "allowed", {"qd": rquat(rnd), "qg": rquat(rnd), "sym": s, "k": rnd.randrange(64), "t": rnd.uniform(-4, 4)}
