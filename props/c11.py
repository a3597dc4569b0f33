"""C11 merging, replacing and renumbering."""
import itertools

import numpy as np

import pyvc
from pyvc import SBool, SInt, SReal, z3, ilift, lift
from seq import SArr, SSeq, in_range, pick, prove_arr
from meshlib import MeshIn, world, zand, zor

LONG = ("N", "normals"), ("U", "texture coordinates")


def prove(V):
    W = world(V, True)
    me = W.load("sumo.threedee.mesh")
    tm = W.load("sumo.threedee.textured_mesh")
    V.notes += W.notes

    def make(m, textured):
        if textured:
            return tm.TexturedMesh(m.indices, m.vertices, m.normals, m.uv)
        return me.Mesh(m.indices, m.vertices, m.normals)

    def data(M, textured):
        return [("vertices", M.vertices(), 3), ("normals", M.normals(), 3)] + ([("texture coordinates", M.uv_coords(), 2)] if textured else [])

    def given(m, textured):
        return [m.vertices, m.normals] + ([m.uv] if textured else [])

    def untouched(S, what, M, m, textured):
        prove_arr(S, what + ": indices unchanged", M.indices(), m.indices)
        for (nm, a, d), g in zip(data(M, textured), given(m, textured)):
            prove_arr(S, "%s: %s unchanged" % (what, nm), a, g)

    def counts(S, M, textured, I, D):
        S.prove("num_indices", pyvc.eq(M.num_indices(), I.shape[0]))
        S.prove("num_vertices", pyvc.eq(M.num_vertices(), D[0][1].shape[1]))
        for nm, a, d in D[1:]:
            S.prove("as many %s as vertices" % nm, a.ndim == 2 and a.shape[0] == d and pyvc.eq(a.shape[1], D[0][1].shape[1]))

    def image(S, name):
        h, w = (S.int(name + c, 1, sampler=lambda r: r.randint(1, 3)) for c in "hw")
        return SArr.input(S, name, (h, w, 3), "int")

    def material(S, what, X, tex, twin):
        S.prove(what + ": the material is kept", X.has_same_material(twin))
        for nm, a, t in (("base colour", X.base_color(), tex[0]), ("metallic roughness", X.metallic_roughness(), tex[1])):
            prove_arr(S, "%s: %s kept" % (what, nm), a, t)

    def materials(how):
        def b(S):
            x, y = MeshIn(S, "x"), MeshIn(S, "y")
            tx = [image(S, "a"), image(S, "b")]
            X, Z = [tm.TexturedMesh(x.indices, x.vertices, x.normals, x.uv, *tx) for _ in range(2)]
            if how != "renumber":
                Y = tm.TexturedMesh(y.indices, y.vertices, y.normals, y.uv, image(S, "c"), image(S, "d"))
                if how == "merge":
                    X.merge(Y)
                else:
                    X.replace_geometry(Y)
            else:
                X.renumber(x.n, SSeq(x.n, lambda i: i))
            material(S, how, X, tx, Z)
        return b
    for how in ("merge", "replace", "renumber"):
        V.forall("material: " + how, ["TexturedMesh::merge", "TexturedMesh::replaceGeometry", "TexturedMesh::renumber", "Mesh::hasSameMaterial", "Mesh.has_same_material",
                                      "TexturedMesh.base_color", "TexturedMesh.metallic_roughness"], materials(how), lambda v, how=how: {"check": "raw_material", "args": {"how": how}})

    def merge(textured, other, k0):
        def b(S):
            x, y = MeshIn(S, "x"), MeshIn(S, "y")
            k = 0 if k0 else S.int("k", 0, sampler=lambda r: r.randint(0, 2))
            if not k0:
                S.assume(SBool(z3.And(k.e <= ilift(x.n), k.e <= ilift(y.n))))
            gx, gy = given(x, textured), given(y, textured)

            def shared(ix):
                j = ix[0]
                S.axiom(z3.Implies(in_range(j, k), z3.And(*[lift(p.f(c, j)) == lift(q.f(c, j)) for p, q in zip(gx, gy) for c in range(p.shape[0])])))
            S.universals.append((1, shared))
            X, Y = make(x, textured), make(y, other)
            if k0:
                X.merge(Y)
            else:
                X.merge(Y, k)
            untouched(S, "the other mesh", Y, y, other)
            I, D = X.indices(), data(X, textured)
            counts(S, X, textured, I, D)
            S.prove("triangles of both meshes", pyvc.eq(I.shape[0], (x.T + y.T) * 3))
            i = SInt(S.fresh_int("corner"))
            S.axiom(in_range(i, x.T * 3))
            S.prove("existing triangles stay", pyvc.eq(I.f(i), x.index(i)))
            for (nm, a, d), g in zip(D, gx):
                S.prove("existing and new " + nm, pyvc.eq(a.shape[1], x.n + y.n - k))
                j = SInt(S.fresh_int("old"))
                S.axiom(in_range(j, x.n))
                S.prove_eq("existing %s stay" % nm, np.array([a.f(c, j) for c in range(d)], dtype=object), np.array([g.f(c, j) for c in range(d)], dtype=object))
            for (nm, a, d), g in zip(D, gy):
                j = SInt(S.fresh_int("new"))
                S.axiom(in_range(j, y.n - k))
                S.prove_eq("the other's %s follow" % nm, np.array([a.f(c, x.n + j) for c in range(d)], dtype=object), np.array([g.f(c, k + j) for c in range(d)], dtype=object))
            t = SInt(S.fresh_int("corner2"))
            S.axiom(in_range(t, y.T * 3))
            was, now = y.index(t), I.f(x.T * 3 + t)
            S.instantiate(was)
            S.prove("indices of the appended triangles are valid", SBool(in_range(now, x.n + y.n - k)))
            for (nm, a, d), g in zip(D, gy):
                S.prove_eq("appended triangles keep the %s of their corners" % nm, np.array([a.f(c, now) for c in range(d)], dtype=object), np.array([g.f(c, was) for c in range(d)], dtype=object))
        return b

    def both(v, **kw):
        return dict(kw, a=MeshIn.case(v, "x"), b=MeshIn.case(v, "y"))
    cpp = ["Mesh::Mesh", "TexturedMesh::TexturedMesh", "Mesh::numVertices", "Mesh::indices", "Mesh::vertices", "Mesh::normals", "TexturedMesh::uvCoords"]
    py = ["Mesh.__init__", "TexturedMesh.__init__", "uint32s_of_array", "array_of_uint32s", "vector3fs_of_array", "array_of_vector3fs",
          "vector2fs_of_array", "array_of_vector2fs", "Mesh.num_indices", "Mesh.num_vertices"]
    FM = ["Mesh::merge", "Mesh.merge", "TexturedMesh::merge", "TexturedMesh.merge"] + cpp + py
    for tx, ot in ((False, False), (False, True), (True, True)):
        for k0 in (True, False):
            V.forall("merge: %s with %s, %s shared" % ("textured" if tx else "plain", "textured" if ot else "plain", "none" if k0 else "k"), FM, merge(tx, ot, k0),
                     lambda v, tx=tx, ot=ot, k0=k0: {"check": "raw_merge", "args": both(v, textured=tx, other=ot, k=None if k0 else int(v["k"]))})

    def replace(textured, other):
        def b(S):
            x, y = MeshIn(S, "x"), MeshIn(S, "y")
            X, Y = make(x, textured), make(y, other)
            X.replace_geometry(Y)
            untouched(S, "the other mesh", Y, y, other)
            I, D = X.indices(), data(X, textured)
            counts(S, X, textured, I, D)
            prove_arr(S, "exactly the other's indices", I, y.indices)
            for (nm, a, d), g in zip(D, given(y, textured)):
                prove_arr(S, "exactly the other's " + nm, a, g)
        return b
    FR = ["Mesh::replaceGeometry", "Mesh.replace_geometry", "TexturedMesh::replaceGeometry", "TexturedMesh.replace_geometry"] + FM
    for tx, ot in ((False, False), (False, True), (True, True)):
        V.forall("replace: %s by %s" % ("textured" if tx else "plain", "textured" if ot else "plain"), FR, replace(tx, ot),
                 lambda v, tx=tx, ot=ot: {"check": "raw_replace", "args": both(v, textured=tx, other=ot)})

    def renumber(whole):
        def b(S):
            x = MeshIn(S, "x")
            L = x.n if whole else S.int("L", 0, sampler=lambda r: r.randint(0, 2))
            N = S.int("N", 0, sampler=lambda r: r.randint(0, 5))
            S.assume(SBool(z3.And(ilift(L) <= N.e, ilift(L) <= ilift(x.n))))
            P = SArr.input(S, "P", (L,), "int")
            inside = lambda i: S.axiom(z3.Implies(in_range(i, L), in_range(P.f(i), N)))
            injective = lambda i, j: S.axiom(z3.Implies(z3.And(in_range(i, L), in_range(j, L), ilift(P.f(i)) == ilift(P.f(j))), ilift(i) == ilift(j)))
            S.universals.append((2, lambda ix: injective(*ix)))

            def place(i):
                q = P.f(i)
                S.keep.append(q.e)
                inside(i)
                return q
            X = make(x, True)
            X.renumber(N, SArr((L,), place, int))
            I, D = X.indices(), data(X, True)
            counts(S, X, True, I, D)
            S.prove("as many corners as before", pyvc.eq(I.shape[0], x.T * 3))
            for nm, a, d in D:
                S.prove("number of %s" % nm, pyvc.eq(a.shape[1], x.n - L + N))
            j = SInt(S.fresh_int("vertex"))
            S.axiom(in_range(j, L))
            q = place(j)
            at = {}
            for (nm, a, d), g in zip(D, given(x, True)):
                at[nm] = [a.f(c, q) for c in range(d)]
            S.instantiate(j)
            for w in list(S.scattered):
                S.instantiate(SInt(w(ilift(q))), j)
            for (nm, a, d), g in zip(D, given(x, True)):
                S.prove_eq("%s of the renumbered block are permuted" % nm, np.array(at[nm], dtype=object), np.array([g.f(c, j) for c in range(d)], dtype=object))
            if not whole:
                r = SInt(S.fresh_int("behind"))
                S.axiom(in_range(r, x.n - L))
                for (nm, a, d), g in zip(D, given(x, True)):
                    S.prove_eq("%s behind the block follow" % nm, np.array([a.f(c, N + r) for c in range(d)], dtype=object), np.array([g.f(c, L + r) for c in range(d)], dtype=object))
            i = SInt(S.fresh_int("corner"))
            S.axiom(in_range(i, x.T * 3))
            was = x.index(i)
            S.axiom(in_range(was, L))
            S.prove("indices follow the renumbering", pyvc.eq(I.f(i), place(was)))
            S.prove("indices are valid", SBool(in_range(I.f(i), x.n - L + N)))
        return b
    for whole in (True, False):
        V.forall("renumber: %s" % ("all vertices" if whole else "a leading block"), ["TexturedMesh::renumber", "TexturedMesh.renumber"] + cpp + py, renumber(whole),
                 lambda v, whole=whole: {"check": "raw_renumber", "args": {"a": MeshIn.case(v, "x"), "size": int(v["N"]), "perm": [int(q) for q in v["P"]]}})

    QUADS = [[0, 5, 4, 6], [5, 1, 6, 8], [4, 6, 2, 7], [6, 8, 7, 3]]

    def quadrants(S):
        ms = [MeshIn(S, "q%d" % i, n=4) for i in range(4)]
        # the quadrants share the vertices of the same number
        P = {}
        for q, m in zip(QUADS, ms):
            for a, v in enumerate(q):
                for g, d, nm in ((m.vertices, 3, "V"), (m.normals, 3, "N"), (m.uv, 2, "U")):
                    for c in range(d):
                        if (nm, v, c) in P:
                            S.assume(pyvc.eq(g[c, a], P[nm, v, c]))
                        else:
                            P[nm, v, c] = g[c, a]
        Ms = [make(m, True) for m in ms]
        R = tm.TexturedMesh.merge_quadrant_meshes(*Ms)
        I, D = R.indices(), data(R, True)
        for (nm, a, d), key in zip(D, "VNU"):
            if S.prove("nine " + nm, pyvc.eq(a.shape[1], 9)):
                for v in range(9):
                    S.prove_eq("%s of vertex %d" % (nm, v), np.array([a[c, v] for c in range(d)], dtype=object), np.array([P[key, v, c] for c in range(d)], dtype=object))
        off = 0
        S.prove("triangles of all quadrants", pyvc.eq(I.shape[0], sum(m.T for m in ms) * 3))
        for q, m in zip(QUADS, ms):
            i = SInt(S.fresh_int("corner"))
            S.axiom(in_range(i, m.T * 3))
            S.prove("indices of a quadrant's triangles", pyvc.eq(I.f(off + i), pick(q, m.index(i))))
            off = off + m.T * 3
    V.forall("merge_quadrant_meshes", ["TexturedMesh.merge_quadrant_meshes", "TexturedMesh::renumber"] + FM, quadrants, lambda v: {"check": "quadrants", "args": {"seed": 1}})
