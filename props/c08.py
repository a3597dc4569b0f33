"""C08 boxes and bounding boxes."""
import types

import numpy as np

import pyvc
from load import World
from pyvc import oarr, SBool, SInt, SReal, z3
from seq import SArr, SSeq, in_range, bound_and_attained, exists, witnesses
from c05 import vecc, snap

ORDER = [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]


def box_world(V):
    W = World(V)
    for m, n in (("mesh", "Mesh"), ("textured_mesh", "TexturedMesh")):
        W.contracts["sumo.threedee." + m] = types.SimpleNamespace(**{n: None})
    return W


def lohi(a, b):
    return oarr([pyvc.smin2(x, y) for x, y in zip(a, b)]), oarr([pyvc.smax2(x, y) for x, y in zip(a, b)])


def prove(V):
    W = box_world(V)
    Box3d = W.load("sumo.threedee.box_3d").Box3d
    CB = W.load("sumo.threedee.compute_bbox")
    ComputeBbox = CB.ComputeBbox
    V.assume("machine floats are treated as real numbers (minimum, maximum and comparison are exact on floats; volume and centre are rounded)")
    V.trust("numpy: column_stack, amin, amax, prod, array_equal, allclose (|a-b| <= atol + rtol*|b| with the documented defaults)")

    def bcase(v):
        return {"check": "box", "args": {"c1": vecc(v, "a"), "c2": vecc(v, "b"), "kind": "f8"}}

    def ctor(S):
        a, b = S.vec("a"), S.vec("b")
        a0, b0 = snap(a), snap(b)
        lo, hi = lohi(a, b)
        for mask in range(8):
            u = [(a if mask >> k & 1 else b)[k] for k in range(3)]
            w = [(b if mask >> k & 1 else a)[k] for k in range(3)]
            for form, conv in (("array", oarr), ("list", list)):
                B = Box3d(conv(u), conv(w))
                S.prove_eq("opposite corners %d as %s: min corner" % (mask, form), B.min_corner, lo)
                S.prove_eq("opposite corners %d as %s: max corner" % (mask, form), B.max_corner, hi)
        B = Box3d(a, b)
        S.prove_eq("volume", B.volume(), (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]))
        S.prove_eq("center", B.center(), [(lo[k] + hi[k]) / 2 for k in range(3)])
        c = B.corners()
        S.prove("eight corners", tuple(np.shape(c)) == (3, 8))
        S.prove_eq("corners in the documented order", c, oarr([[(lo, hi)[o[k]][k] for o in ORDER] for k in range(3)]))
        S.prove_eq("min corner after use", B.min_corner, lo)
        S.prove_eq("max corner after use", B.max_corner, hi)
        S.prove("operands unchanged", all(x is y for x, y in zip(snap(a) + snap(b), a0 + b0)))
        S.prove("default box is the zero box", list(Box3d().min_corner) == [0, 0, 0] and list(Box3d().max_corner) == [0, 0, 0])
    V.forall("box from two corners", ["Box3d.__init__", "Box3d.min_corner", "Box3d.max_corner", "Box3d.volume", "Box3d.center", "Box3d.corners"], ctor, bcase)

    def inside(S):
        a, b, p = S.vec("a"), S.vec("b"), S.vec("p")
        lo, hi = lohi(a, b)
        want = z3.And(*[z3.And(pyvc.lift(lo[k]) < pyvc.lift(p[k]), pyvc.lift(p[k]) < pyvc.lift(hi[k])) for k in range(3)])
        got = bool(Box3d(a, b).point_in_box(p))
        S.prove("strictly inside on every axis", SBool(want if got else z3.Not(want)))
    V.forall("containment", "Box3d.point_in_box", inside, bcase)

    def ecase(v):
        a, b, c, d = [vecc(v, n) for n in "abcd"]
        return {"check": "pair", "args": {"a": a, "b": b, "c": c, "d": d, "rtol": abs(v.get("rtol", 1e-5)), "atol": abs(v.get("atol", 1e-8))}}

    def equality(S):
        a, b, c, d = [S.vec(n) for n in "abcd"]
        (l1, h1), (l2, h2) = lohi(a, b), lohi(c, d)
        B, C = Box3d(a, b), Box3d(c, d)
        same = z3.And(*[pyvc.lift(x) == pyvc.lift(y) for x, y in zip(list(l1) + list(h1), list(l2) + list(h2))])
        got = bool(B == C)
        S.prove("== compares both corners", SBool(same if got else z3.Not(same)))
        S.prove("!= is the complement", bool(B != C) == (not got))
    V.forall("equality", "Box3d.__eq__", equality, ecase)

    def almost(S):
        a, b, c, d = [S.vec(n) for n in "abcd"]
        rt, at = S.real("rtol", 0), S.real("atol", 0)
        (l1, h1), (l2, h2) = lohi(a, b), lohi(c, d)
        B, C = Box3d(a, b), Box3d(c, d)
        ab = lambda x: z3.If(x >= 0, x, -x)

        def near(rt, at):
            return z3.And(*[ab(pyvc.lift(x) - pyvc.lift(y)) <= at + rt * ab(pyvc.lift(y)) for x, y in zip(list(l1) + list(h1), list(l2) + list(h2))])
        S.branch = None
        k = S.choose(4)
        if k == 0:
            got, want = B.almost_equal(C), near(z3.RealVal("1/100000"), z3.RealVal("1/100000000"))
        elif k == 1:
            got, want = B.almost_equal(C, rtol=0, atol=at), near(z3.RealVal(0), pyvc.lift(at))
        elif k == 2:
            got, want = B.almost_equal(C, 0, at), near(z3.RealVal(0), pyvc.lift(at))
        else:
            got, want = B.almost_equal(C, rtol=rt, atol=0), near(pyvc.lift(rt), z3.RealVal(0))
        got = bool(got)
        S.prove("almost_equal compares both corners within the tolerance (%d)" % k, SBool(want if got else z3.Not(want)))
    V.forall("almost equality", "Box3d.almost_equal", almost, ecase)

    # --- any number of boxes
    def boxes(S, n):
        """n boxes: corners are functions of the index, ordered by the constructor's contract."""
        lo, hi = SArr.input(S, "lo", (n, 3)), SArr.input(S, "hi", (n, 3))

        S.universals.append((1, lambda ix: [S.axiom(pyvc.lift(lo.at(ix[0], k)) <= pyvc.lift(hi.at(ix[0], k))) for k in range(3)]))

        def at(i):
            return types.SimpleNamespace(min_corner=oarr([lo.at(i, k) for k in range(3)]), max_corner=oarr([hi.at(i, k) for k in range(3)]),
                                         _min_corner=oarr([lo.at(i, k) for k in range(3)]), _max_corner=oarr([hi.at(i, k) for k in range(3)]))
        return SSeq(n, at), lo, hi

    def tight(S, what, B, n, lo, hi, has=None):
        """B is the smallest box containing lo(i), hi(i) for every i < n with has(i)."""
        S.prove(what + ": three coordinates", np.shape(B.min_corner) == (3,) and np.shape(B.max_corner) == (3,))
        for k in range(3):
            bound_and_attained(S, "%s: min corner %d" % (what, k), "min", B.min_corner[k], n, lambda i: lo(i, k), has)
            bound_and_attained(S, "%s: max corner %d" % (what, k), "max", B.max_corner[k], n, lambda i: hi(i, k), has)

    def zero(S, what, B):
        S.prove(what + " is the zero box", [float(x) for x in B.min_corner] == [0, 0, 0] and [float(x) for x in B.max_corner] == [0, 0, 0])

    def mcase(v):
        n = int(v["n"])
        return {"check": "merge", "args": {"corners": [[[float(x) for x in v["lo"][i]], [float(x) for x in v["hi"][i]]] for i in range(min(n, len(v["lo"])))]}}

    def merge(S):
        n = S.int("n", 1, sampler=lambda r: r.randint(1, 4))
        L, lo, hi = boxes(S, n)
        tight(S, "merged box", Box3d.merge(L), n, lambda i, k: lo.at(i, k), lambda i, k: hi.at(i, k))
        zero(S, "merge of nothing", Box3d.merge([]))
    V.forall("merging boxes", "Box3d.merge", merge, mcase)

    # --- points
    def pcase(v):
        n = int(v["n"])
        P = v["P"]
        return {"check": "points", "args": {"cols": [[float(P[k][j]) for k in range(3)] for j in range(min(n, len(P[0])))], "kind": "float64"}}

    def cloud(S, n, name="P"):
        return SArr.input(S, name, (3, n))

    def points(S):
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        P = cloud(S, n)
        B = ComputeBbox().from_point_cloud(P)
        if pyvc.cur().fork(pyvc.ilift(n) == 0):
            return zero(S, "box of no points", B)
        tight(S, "box of points", B, n, lambda i, k: P.at(k, i), lambda i, k: P.at(k, i))
    V.forall("bounding box of points", "ComputeBbox.from_point_cloud", points, pcase)

    def mesh1(S):
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        P = cloud(S, n)
        mesh = types.SimpleNamespace(vertices=lambda: P, num_vertices=lambda: n)
        B = ComputeBbox().from_mesh(mesh)
        if pyvc.cur().fork(pyvc.ilift(n) == 0):
            return zero(S, "box of an empty mesh", B)
        tight(S, "box of a mesh", B, n, lambda i, k: P.at(k, i), lambda i, k: P.at(k, i))
    V.forall("bounding box of a mesh", "ComputeBbox.from_mesh", mesh1,
             lambda v: {"check": "meshes", "args": {"items": [[pcase(v)["args"]["cols"], [], False]]}})

    # --- meshes: the callee from_mesh by its contract (a box per non-empty mesh, the zero box for an empty one)
    class Callee(ComputeBbox):
        def from_mesh(self, mesh):
            return mesh.box

    def scase(v):
        n = int(v["n"])
        items = []
        for i in range(min(n, len(v["lo"]))):
            lo, hi = [float(x) for x in v["lo"][i]], [float(x) for x in v["hi"][i]]
            items.append([[] if int(v["nv"][i]) == 0 else [lo, hi], [] if int(v["nv"][i]) == 0 else [0, 1, 1], bool(i % 2)])
        return {"check": "meshes", "args": {"items": items}}

    def meshes(S, run, what):
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        nv = SArr.input(S, "nv", (n,), "int", 0, 3)
        L, lo, hi = boxes(S, n)

        def at(i):
            b, c = L.at(i), pyvc.ilift(nv.at(i)) == 0
            z = lambda v: oarr([pyvc.ite(c, SReal(pyvc.rv(0)), x) for x in v])
            box = types.SimpleNamespace(min_corner=z(b.min_corner), max_corner=z(b.max_corner), _min_corner=z(b.min_corner), _max_corner=z(b.max_corner))
            return types.SimpleNamespace(box=box, num_vertices=lambda: nv.at(i))
        B = run(SSeq(n, at))
        has = lambda i: SBool(pyvc.ilift(nv.at(i)) > 0)
        i = SInt(S.fresh_int("some"))
        S.axiom(in_range(i, n))
        some = exists((n,), lambda i: has(i))
        S.instantiate(i)
        for w in witnesses(S):
            S.instantiate(w)
        if not bool(some):
            return zero(S, "box of no vertices", B)
        tight(S, what, B, n, lambda i, k: lo.at(i, k), lambda i, k: hi.at(i, k), has)

    V.forall("bounding box of meshes", "ComputeBbox.from_meshes", lambda S: meshes(S, lambda L: Callee().from_meshes(L), "box of meshes"), scase)
    V.forall("bounding box of a glTF model", "ComputeBbox.from_gltf_object",
             lambda S: meshes(S, lambda L: Callee().from_gltf_object(types.SimpleNamespace(primitive_meshes=lambda: L)), "box of a model"), scase)
    V.trust("Mesh.vertices and Mesh.num_vertices (3 x n float array of the n vertices), GltfModel.primitive_meshes (contract: C14)")
