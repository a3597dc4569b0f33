"""C12 mesh clean-up."""
import pyvc
from pyvc import SBool, SInt, SReal, z3, ilift
from seq import in_range, prove_arr
from meshlib import MeshIn, world, zand, zor


def far(p, q, th):
    """the distance of p and q exceeds the threshold"""
    d2 = sum((a - b) * (a - b) for a, b in zip(p, q))
    return zor(SBool(pyvc.lift(th) < 0), SBool(pyvc.lift(d2) > pyvc.lift(th * th)))


def selected(S, what, got, m, keep, drop):
    """`got` is, in order, the triangles of m for which keep is provable; those left out satisfy drop"""
    F = [f for f in S.memo.get("filters", [])][-1] if S.memo.get("filters") else None
    n = got.shape[0]
    if F is None:
        return S.prove(what + ": a selection of the triangles", False)
    S.prove(what + ": number of indices", pyvc.eq(n, SInt(F.m) * 3))
    t = SInt(S.fresh_int("anytri"))
    S.axiom(in_range(t, m.T))
    c = F.lam.at(t.e)
    S.prove(what + ": a triangle that stays satisfies the condition", SBool(z3.Implies(c, keep(t))))
    S.prove(what + ": a triangle that goes violates it", SBool(z3.Implies(z3.Not(c), drop(t))))
    j = SInt(S.fresh_int("anyout"))
    S.axiom(in_range(j, SInt(F.m)))
    F.position(j.e)
    for r in range(3):
        S.prove(what + ": corner %d of the j-th triangle that stays" % r, pyvc.eq(got.f(j * 3 + r), m.index(SInt(F.pos(j.e)) * 3 + r)))
    S.prove(what + ": so the second clean-up keeps every triangle", SBool(keep(SInt(F.pos(j.e)))))
    return F


def prove(V):
    W = world(V, True)
    me = W.load("sumo.threedee.mesh")
    tm = W.load("sumo.threedee.textured_mesh")
    V.notes += W.notes

    def make(S, textured, m):
        if textured:
            return tm.TexturedMesh(m.indices, m.vertices, m.normals, m.uv)
        return me.Mesh(m.indices, m.vertices, m.normals)

    def untouched(S, what, M, m, textured):
        prove_arr(S, what + ": vertices unchanged", M.vertices(), m.vertices)
        prove_arr(S, what + ": normals unchanged", M.normals(), m.normals)
        if textured:
            prove_arr(S, what + ": texture coordinates unchanged", M.uv_coords(), m.uv)

    def long(textured, default):
        def b(S):
            m = MeshIn(S)
            M = make(S, textured, m)
            if default:
                th = SReal(pyvc.rv(5))
                M.cleanup_long_edges()
            else:
                th = S.real("threshold")
                M.cleanup_long_edges(th)
            cs = lambda t: [m.corner(t, c) for c in range(3)]
            drop = lambda t: pyvc.blift(zor(*[far(p, q, th) for p, q in zip(cs(t), cs(t)[1:] + cs(t)[:1])]))
            F = selected(S, "long edges", M.indices(), m, lambda t: z3.Not(drop(t)), drop)
            untouched(S, "long edges", M, m, textured)
        return b

    def origin(textured):
        def b(S):
            m = MeshIn(S)
            M = make(S, textured, m)
            M.cleanup_edges_to_origin()
            cs = lambda t: [m.corner(t, c) for c in range(3)]
            zero = lambda p: z3.And(*[pyvc.lift(x) == 0 for x in p])
            near = lambda p: z3.And(*[z3.And(pyvc.lift(x) <= pyvc.rv(TINY), pyvc.lift(x) >= -pyvc.rv(TINY)) for x in p])
            F = selected(S, "origin", M.indices(), m, lambda t: z3.Not(z3.Or(*[zero(p) for p in cs(t)])), lambda t: z3.Or(*[near(p) for p in cs(t)]))
            untouched(S, "origin", M, m, textured)
        return b
    def case(textured, how):
        def f(v):
            a = dict(MeshIn.case(v), textured=textured)
            if how == "origin":
                return {"check": "raw_origin", "args": a}
            return {"check": "raw_long", "args": dict(a, threshold=float(v["threshold"]) if how == "long" else None)}
        return f
    cpp = ["Mesh::Mesh", "Mesh::begin", "Mesh::end", "Mesh::triangle::triangle", "Mesh::triangle_iterator (all operations)"]
    py = ["Mesh.__init__", "Mesh.indices", "Mesh.vertices", "Mesh.normals", "TexturedMesh.__init__", "TexturedMesh.uv_coords", "TexturedMesh::TexturedMesh",
          "uint32s_of_array", "array_of_uint32s", "vector3fs_of_array", "array_of_vector3fs", "vector2fs_of_array", "array_of_vector2fs"]
    FL = ["Mesh::cleanupLongEdges", "Mesh.cleanup_long_edges"] + cpp + py
    FO = ["Mesh::cleanupEdgesToOrigin", "Mesh.cleanup_edges_to_origin"] + cpp + py
    for tx in (False, True):
        k = "TexturedMesh" if tx else "Mesh"
        V.forall("%s: long edges" % k, FL, long(tx, False), case(tx, "long"))
        V.forall("%s: long edges, default threshold" % k, FL, long(tx, True), case(tx, "default"))
        V.forall("%s: origin" % k, FO, origin(tx), case(tx, "origin"))


TINY = 1e-9
