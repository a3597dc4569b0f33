"""C09 the mesh of a box."""
import itertools

import numpy as np

import pyvc
from pyvc import oarr, SBool, z3
from c05 import snap
from c08 import box_world


class MeshArgs:
    """Contract of the Mesh and TexturedMesh constructors: the mesh holds what it is given (contract: C14)."""

    def __init__(self, indices, vertices, normals, uv_coords=None, base_color=None, *a):
        self.indices, self.vertices, self.normals, self.uv, self.color = indices, vertices, normals, uv_coords, base_color


def is_axis(n):
    return sorted(abs(float(x)) for x in n) == [0, 0, 1]


def geometry(S, what, m, lo, hi, out):
    I, P, N = m.indices, m.vertices, m.normals
    if not S.prove(what + ": 24 vertices, 24 normals, 36 indices", np.shape(P) == (3, 24) and np.shape(N) == (3, 24) and np.shape(I) == (36,)):
        return
    I = [int(i) for i in I]
    if not S.prove(what + ": indices in range, all vertices used", sorted(set(I)) == list(range(24))):
        return
    pos = []
    for j in range(24):
        q = []
        for k in range(3):
            v = pyvc.lift(P[k, j])
            q.append(0 if S.ring.equal(v, pyvc.lift(lo[k])) else 1 if S.ring.equal(v, pyvc.lift(hi[k])) else None)
        pos.append(tuple(q))
    if not S.prove(what + ": every vertex is a corner", all(None not in q for q in pos)):
        return
    Nn = [[pyvc.cur().ev(pyvc.lift(N[k, j]), {}) for k in range(3)] for j in range(24)]
    if not S.prove(what + ": normals are axis directions", all(is_axis(n) for n in Nn)):
        return
    uses = {}
    for q, n in zip(pos, Nn):
        uses.setdefault(q, set()).add(tuple(n))
    S.prove(what + ": each corner is used by three faces", len(uses) == 8 and all(len(u) == 3 for u in uses.values()))
    full = set(itertools.product([0, 1], repeat=2))
    sides = {}
    for t in range(12):
        ix = I[3 * t:3 * t + 3]
        ns = {tuple(Nn[i]) for i in ix}
        if not S.prove(what + ": triangle %d: one normal" % t, len(ns) == 1):
            continue
        n = next(iter(ns))
        k = max(range(3), key=lambda a: abs(n[a]))
        side = 1 if (n[k] > 0) == out else 0
        S.prove(what + ": triangle %d lies on the side of its normal" % t, all(pos[i][k] == side for i in ix))
        o = [a for a in range(3) if a != k]
        sides.setdefault((k, side), []).append({tuple(pos[i][a] for a in o) for i in ix})
        p = [oarr([P[a, i] for a in range(3)]) for i in ix]
        u, w = p[1] - p[0], p[2] - p[0]
        c = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        area = (hi[o[0]] - lo[o[0]]) * (hi[o[1]] - lo[o[1]])
        # twice the oriented area: half a side, turned as the stored normal says
        S.prove_eq(what + ": triangle %d: winding agrees with the normal" % t, c, [x * area for x in n])
    S.prove(what + ": two triangles on each of the six sides", len(sides) == 6 and all(len(v) == 2 for v in sides.values()))
    S.prove(what + ": they tile the side", all(len(a) == 3 and len(b) == 3 and (lambda x, y: x == (1 - y[0], 1 - y[1]))(next(iter(full - a)), next(iter(full - b)))
                                              for a, b in (v for v in sides.values() if len(v) == 2)))


def prove(V):
    W = box_world(V)
    import types
    W.contracts["sumo.threedee.mesh"] = types.SimpleNamespace(Mesh=MeshArgs)
    W.contracts["sumo.threedee.textured_mesh"] = types.SimpleNamespace(TexturedMesh=MeshArgs)
    Box3d = W.load("sumo.threedee.box_3d").Box3d
    V.assume("machine floats are treated as real numbers (vertices are stored as float32)")
    V.trust("numpy: empty, column_stack, negative, resize, reshape, zeros, full",
            "Mesh and TexturedMesh constructors keep the arrays they are given (checked by C14)")

    def setup(S):
        a, b = S.vec("a"), S.vec("b")
        B = Box3d(a, b)
        return B, snap(B.min_corner), snap(B.max_corner)

    def case(out, tex):
        def f(v):
            from c05 import vecc
            d = {"c1": vecc(v, "a"), "c2": vecc(v, "b"), "out": out}
            if tex is None:
                return {"check": "mesh", "args": dict(d, kind="f8")}
            return {"check": "textured", "args": dict(d, color=[int(v.get("c_%d" % k, 7 + k)) for k in range(3)], shape=tex)}
        return f

    for out in (True, False):
        def plain(S, out=out):
            B, lo, hi = setup(S)
            geometry(S, "normals_out=%s" % out, B.to_mesh(out), lo, hi, out)
            geometry(S, "normals_out=%s by name" % out, B.to_mesh(normals_out=out), lo, hi, out)
            if out:
                geometry(S, "default", B.to_mesh(), lo, hi, True)
            S.prove("box unchanged", all(x is y for x, y in zip(snap(B.min_corner) + snap(B.max_corner), lo + hi)))
        V.forall("to_mesh(%s)" % out, ["Box3d.to_mesh", "Box3d._to_mesh_helper", "Box3d.corners"], plain, case(out, None))

        for shape in ("col", "row", "flat", "default"):
            def tex(S, out=out, shape=shape):
                B, lo, hi = setup(S)
                col = [S.int("c_%d" % k, 0, 255) for k in range(3)]
                arg = {"col": oarr(col).reshape(3, 1), "row": oarr(col).reshape(1, 3), "flat": oarr(col), "default": None}[shape]
                m = B.to_textured_mesh(out) if shape == "default" else B.to_textured_mesh(out, arg)
                if shape == "default":
                    col = [255, 255, 255]
                what = "textured, colour as %s" % shape
                geometry(S, what, m, lo, hi, out)
                S.prove(what + ": one texture coordinate per vertex", np.shape(m.uv) == (2, 24))
                uv = [pyvc.cur().ev(pyvc.lift(x), {}) for x in np.asarray(m.uv, dtype=object).reshape(-1)]
                S.prove(what + ": texture coordinates inside the texture", all(0 <= x <= 1 for x in uv))
                t = np.asarray(m.color, dtype=object)
                if S.prove(what + ": a colour texture", t.ndim == 3 and t.shape[2] == 3 and t.size > 0):
                    for y in range(t.shape[0]):
                        for x in range(t.shape[1]):
                            S.prove_eq(what + ": pixel %d,%d" % (y, x), list(t[y, x]), col)
            V.forall("to_textured_mesh(%s), %s" % (out, shape), ["Box3d.to_textured_mesh", "Box3d._to_mesh_helper", "Box3d.corners"], tex, case(out, shape))
