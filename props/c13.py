"""C13 face and vertex normals."""
import itertools

import numpy as np

import cppmodel
import pyvc
from pyvc import SBool, SInt, SReal, z3, ilift, lift
from seq import in_range, prove_arr, reduction
from meshlib import MeshIn, world, zand, zor

FACE = ["Mesh::CalculateFaceNormals", "Mesh.calculate_face_normals", "uint32s_of_array", "vector3fs_of_array", "array_of_vector3fs"]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def prove(V):
    W = world(V, True)
    me = W.load("sumo.threedee.mesh")
    tm = W.load("sumo.threedee.textured_mesh")
    V.notes += W.notes

    def normal(m, t):
        """the vector along the face normal, by the corners in order"""
        p = [m.corner(t, c) for c in range(3)]
        return cross([x - y for x, y in zip(p[1], p[0])], [x - y for x, y in zip(p[2], p[0])])

    def unit(S, what, F, c):
        a, U = cppmodel.unit(S, c)
        S.assume(zor(*[SBool(q != 0) for q in a]))
        S.prove_eq(what + ": along the cross product of its edges", np.array(F, dtype=object), np.array([SReal(u) for u in U], dtype=object))
        S.prove(what + ": of length one", SBool(z3.Sum(*[u * u for u in U]) == 1))
        S.prove(what + ": perpendicular to the triangle", SBool(z3.And(*[U[i] * a[j] == U[j] * a[i] for i in range(3) for j in range(i)])))
        S.prove(what + ": on the side from which the corners appear counter-clockwise", SBool(z3.Sum(*[u * q for u, q in zip(U, a)]) > 0))

    def faces(S):
        m = MeshIn(S)
        R = me.Mesh.calculate_face_normals(m.indices, m.vertices)
        S.prove("one face normal per triangle", R.ndim == 2 and pyvc.eq(R.shape[1], m.T) if R.ndim == 2 and R.shape[0] == 3 else False)
        t = SInt(S.fresh_int("face"))
        S.axiom(in_range(t, m.T))
        c = normal(m, t)
        unit(S, "face normal", [R.f(k, t) for k in range(3)], c)

    def case(which):
        def f(v):
            a = MeshIn.case(v)
            return {"check": which, "args": {"idx": a["idx"], "V": a["V"]}}
        return f
    V.forall("face normals", FACE, faces, case("raw_faces"))

    def verts(S):
        m = MeshIn(S)
        R = me.Mesh.estimate_normals(m.indices, m.vertices)
        if not S.prove("one normal per vertex", R.ndim == 2 and R.shape[0] == 3):
            return
        S.prove("as many normals as vertices", pyvc.eq(R.shape[1], m.n))
        v = SInt(S.fresh_int("vertex"))
        S.axiom(in_range(v, m.n))

        def inc(k):
            def body(t):
                U = cppmodel.unit(S, normal(m, t))[1]
                return sum((pyvc.ite(pyvc.eq(m.index(t * 3 + r), v), SReal(U[k]), SReal(pyvc.rv(0))) for r in range(3)), SReal(pyvc.rv(0)))
            return body
        s = [reduction("sum", m.T, inc(k)) for k in range(3)]
        a, U = cppmodel.unit(S, s)
        S.prove_eq("vertex normal: along the sum of the normals of the faces at its corners", np.array([R.f(k, v) for k in range(3)], dtype=object), np.array([SReal(u) for u in U], dtype=object))
    V.forall("vertex normals", ["Mesh::EstimateNormals", "Mesh.estimate_normals"] + FACE, verts, case("raw_vertex"))

    def unused(S):
        m = MeshIn(S)
        v = S.int("v", 0)
        S.assume(in_range(v, m.n))
        # no corner of any triangle is v
        free = lambda i: S.axiom(z3.Implies(in_range(i, m.T * 3), ilift(m.index(i)) != v.e))
        S.universals.append((1, lambda ix: free(ix[0])))
        R = me.Mesh.estimate_normals(m.indices, m.vertices)
        t = SInt(S.fresh_int("face"))
        S.axiom(in_range(t, m.T))
        for r in range(3):
            S.instantiate(t * 3 + r)

        def inc(k):
            def body(t):
                U = cppmodel.unit(S, normal(m, t))[1]
                return sum((pyvc.ite(pyvc.eq(m.index(t * 3 + r), v), SReal(U[k]), SReal(pyvc.rv(0))) for r in range(3)), SReal(pyvc.rv(0)))
            return body
        for k in range(3):
            if S.prove("no face adds to the normal of an unused vertex", pyvc.eq(inc(k)(t), SReal(pyvc.rv(0)))):
                S.axiom(pyvc.lift(reduction("sum", m.T, inc(k))) == 0)      # a sum of zeros
        S.prove("unused vertices have normal zero", zand(*[pyvc.eq(R.f(k, v), SReal(pyvc.rv(0))) for k in range(3)]))
    V.forall("vertex normals: unused vertices", ["Mesh::EstimateNormals", "Mesh.estimate_normals"] + FACE, unused,
             lambda v: {"check": "raw_unused", "args": dict({k: MeshIn.case(v)[k] for k in ("idx", "V")}, v=int(v["v"]))})

    def box(S, what, M, half, inward):
        I, P, N = M.indices(), M.vertices(), M.normals()
        if not S.prove(what + ": twelve triangles", I.shape == (36,)) or not S.prove(what + ": one normal per vertex", P.ndim == 2 and P.shape[0] == 3 and N.shape == P.shape):
            return
        I = [number(I[i]) for i in range(36)]
        n = P.shape[1]
        if not S.prove(what + ": indices are valid", all(0 <= i < n for i in I)):
            return
        pos = [[P[a, j] for a in range(3)] for j in range(n)]
        nor = [[N[a, j] for a in range(3)] for j in range(n)]
        # the sign of each coordinate, from the exact value of coordinate / half
        sg = []
        for j in range(n):
            s = []
            for a in range(3):
                q = S.decide(pyvc.lift(pos[j][a]) > 0)
                s.append(1 if q is True else -1)
                S.prove(what + ": vertices at corners of the cube", pyvc.eq(pos[j][a], s[-1] * half))
            sg.append(tuple(s))
        S.prove(what + ": all eight corners are used", len({sg[i] for i in I}) == 8)
        e = {}
        for t in range(12):
            c = [sg[i] for i in I[3 * t:3 * t + 3]]
            for a in range(3):
                e[c[a], c[(a + 1) % 3]] = e.get((c[a], c[(a + 1) % 3]), 0) + 1
        S.prove(what + ": closed: every edge belongs to two triangles, once in each direction", all(a != b and k == 1 and e.get((b, a)) == 1 for (a, b), k in e.items()))
        d = -1 if inward else 1
        for t in range(12):
            c = [sg[i] for i in I[3 * t:3 * t + 3]]
            nn = cross([x - y for x, y in zip(c[1], c[0])], [x - y for x, y in zip(c[2], c[0])])
            S.prove(what + ": every triangle lies in a side of the cube", sorted(map(abs, nn)) == [0, 0, 4])
            S.prove(what + ": triangles face the requested way", d * dot(nn, c[0]) > 0)
        for j in range(n):
            S.prove(what + ": normals face the requested way", dot(nor[j], pos[j]) * d > 0)
            S.prove(what + ": normals have length one", pyvc.eq(dot(nor[j], nor[j]), SReal(pyvc.rv(1))))

    def number(x):
        if isinstance(x, pyvc.Sym):
            x = z3.simplify(x.e).as_long()
        return int(x)

    def example(default, inward):
        def b(S):
            if default:
                M = me.Mesh.example() if inward is None else me.Mesh.example(inward=inward)
                box(S, "example", M, SReal(pyvc.rv(1)), bool(inward))
            else:
                L = S.real("length")
                S.assume(SBool(L.e > 0))
                M = me.Mesh.example(L) if inward is None else me.Mesh.example(L, inward)
                box(S, "example", M, L / 2, bool(inward))
        return b
    EX = ["Mesh::Example", "Mesh.example", "Mesh::EstimateNormals", "Mesh::CalculateFaceNormals", "Mesh_copy"]
    for df in (True, False):
        for inw in (None, False, True):
            V.forall("example: %s length, inward=%s" % ("default" if df else "any", inw), EX, example(df, inw),
                     lambda v, df=df, inw=inw: {"check": "example", "args": {"length": None if df else float(v["length"]), "inward": inw}})

    def cube(kind):
        def b(S):
            if kind == "Mesh.cube":
                M = me.Mesh.cube()
            elif kind == "TexturedMesh.example":
                M = tm.TexturedMesh.example()
            else:
                z = S.int("size", 1)
                T = [pyvc_image(S, k, z) for k in "ab"]
                M = tm.TexturedMesh.cube(*T)
            box(S, kind, M, SReal(pyvc.rv(1)), True)
        return b

    def pyvc_image(S, k, z):
        from seq import SArr
        return SArr.input(S, k, (z, z * 6, 3), "int")
    for kind in ("Mesh.cube", "TexturedMesh.example", "TexturedMesh.cube"):
        V.forall(kind, [kind, "Mesh.__init__", "TexturedMesh.__init__", "Mesh::Mesh", "TexturedMesh::TexturedMesh"], cube(kind),
                 lambda v, kind=kind: {"check": "cubes", "args": {"kind": kind, "size": int(v.get("size", 1))}})
