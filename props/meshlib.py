"""The mesh code: C++ classes translated from clang's AST, Cython wrappers translated from their sources."""
import cppmodel
from cppmodel import ctor_
import cpplib
from load import World


def world(V, textured=False):
    api = V.repo + "/sumo-api"
    notes = []
    units = ["sumo/threedee/Mesh.cpp"] + (["sumo/threedee/TexturedMesh.cpp"] if textured else [])
    mods = []
    for u in units:
        m, n, t = cppmodel.load(V, api, u)
        mods.append(m)
        notes += ["%s: %s" % (u, x) for x in n]
    C = cppmodel.link(*mods)
    W = World(V, api)
    W.notes = notes
    V.trust("clang's AST of the translation unit and its translation to the engine's language (vlib/cppfront.py); recompiled and rerun in the replay")
    V.trust("std::vector, Eigen fixed-size vectors, std::map, tinygltf::Material and cv::Mat_ by their documented contracts (vlib/cppmodel.py, vlib/cpplib.py); element accesses carry index obligations")
    V.assume("machine floats are treated as real numbers; sizes and indices as mathematical integers below 2^32")
    V.assume("mesh indices are valid and there are as many normals (and texture coordinates) as vertices; the number of indices is a multiple of 3")
    W.C = C
    W.cvector = lambda t: ctor_("std::" + t.replace("[", "<").replace("]", ">").replace("CVector", "Vector"), [])
    ev = {"CVector%s" % k: (lambda k: lambda *a: ctor_("Vector" + k, list(a)))(k) for k in ("2", "2f", "3", "3f", "4")}
    W.inject["sumo.base.vector"] = ev
    W.cworld = ("sumo.base.vector", "sumo.threedee.mesh", "sumo.threedee.textured_mesh", "sumo.opencv.wrap")
    W.contracts["sumo.opencv.wrap"] = cpplib.WRAP
    W.inject["sumo.threedee.mesh"] = {"CMesh": C.Mesh}
    W.new["CMesh"] = C.Mesh
    if textured:
        W.inject["sumo.threedee.textured_mesh"] = {"CTexturedMesh": C.TexturedMesh}
        W.new["CTexturedMesh"] = C.TexturedMesh
    return W


class MeshIn:
    """Arrays of a mesh: T triangles, n vertices, any numbers; the indices are valid (precondition)."""

    def __init__(self, S, name="m", tris=None, uv=False, n=None, valid=True):
        from pyvc import SInt, SReal, z3, ilift
        from seq import SArr, in_range
        self.S, self.name = S, name
        T = S.int(name + "T", 0, sampler=lambda r: r.randint(0, 3)) if tris is None else tris
        n = S.int(name + "n", 0, sampler=lambda r: r.randint(1, 5)) if n is None else n
        self.T, self.n = T, n
        cnt = lambda vals: int(S.ev(ilift(n), vals)) - 1
        I = SArr.input(S, name + "I", (T * 3,), "int")
        S.arrays[name + "I"] = S.arrays[name + "I"][:3] + (0, cnt)

        def index(i):
            x = I.f(i)
            S.keep.append(x.e)
            if valid:
                S.axiom(z3.Implies(in_range(i, T * 3), in_range(x, n)))
            return x
        self.index = index
        self.indices = SArr((T * 3,), index, int)
        self.vertices = SArr.input(S, name + "V", (3, n))
        self.normals = SArr.input(S, name + "N", (3, n))
        self.uv = SArr.input(S, name + "U", (2, n))

    def vertex(self, j):
        return [self.vertices.f(a, j) for a in range(3)]

    @staticmethod
    def case(v, name="m"):
        f = lambda a: [[float(x) for x in r] for r in a]
        return {"idx": [int(x) for x in v[name + "I"]], "V": f(v[name + "V"]), "N": f(v[name + "N"]), "U": f(v[name + "U"])}

    def corner(self, t, c):
        """position of corner c of triangle t"""
        from pyvc import SReal, ilift
        return self.vertex(self.index(t * 3 + c))


def zor(*cs):
    import pyvc
    return pyvc.SBool(pyvc.z3.Or(*[pyvc.blift(c) for c in cs]))


def zand(*cs):
    import pyvc
    return pyvc.SBool(pyvc.z3.And(*[pyvc.blift(c) for c in cs]))
