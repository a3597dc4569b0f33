"""C18 track conversion."""
import types

import pyvc
from load import World
from opaque import Tok, Opaque
from pyvc import SBool, SInt, oarr, ilift
from seq import in_range
from c05 import snap
import c17

KINDS = c17.KINDS
OK = [("meshes", "voxels"), ("meshes", "bounding_box"), ("voxels", "bounding_box")]


class Grid(Opaque):
    """A voxel grid; its tight bounds are the contract of VoxelGrid.bounds (C10)."""

    def bounds(self):
        return Opaque("bounds of " + self._name, *self._args)

    def __copy__(self): return Grid(self._name, *self._args)
    def __deepcopy__(self, memo): return Grid(self._name, *self._args)


class ComputeBbox:
    def from_gltf_object(self, m):
        if not isinstance(m, Opaque) or m._name != "meshes":
            raise pyvc.Unsupported("bounds of something else")
        return Opaque("bounds of meshes", *m._args)


class Voxelizer:
    def run(self, m):
        if not isinstance(m, Opaque) or m._name != "meshes":
            raise pyvc.Unsupported("voxelization of something else")
        return Grid("voxelization", *m._args)


class Scene(c17.Scene):
    def opaque(self, name, i):
        return Grid(name, i) if name == "voxels" else Opaque(name, i)


def prove(V):
    W = c17.world(V)
    W.contracts["sumo.threedee.compute_bbox"] = types.SimpleNamespace(ComputeBbox=ComputeBbox)
    W.contracts["sumo.threedee.voxelizer"] = types.SimpleNamespace(Voxelizer=Voxelizer)
    PC = W.load("sumo.semantic.project_converter").ProjectConverter
    PS = W.load("sumo.semantic.project_scene").ProjectScene
    POD = W.load("sumo.semantic.project_object_dict").ProjectObjectDict
    V.trust("symbolic loop summary: one generic iteration stands for all (loops.py)")
    V.trust("ComputeBbox.from_gltf_object gives the tight bounds (contract proved under C08), VoxelGrid.bounds (C10), Voxelizer.run with its default voxel size (C10, C19)")
    V.assume("the elements of a project have the project's type and are stored under their own ids")

    def converted(S, X, what, q, i, target):
        S.prove(what + ": class", type(q) is X.PO)
        S.prove(what + ": type", q.project_type == target)
        R, t = X.rt(i)
        S.prove_eq(what + ": rotation", q.pose.R.matrix(), R)
        S.prove_eq(what + ": translation", q.pose.t, t)
        X.plain(what, q, i)
        S.prove(what + ": no mesh", q.meshes is None)
        if target == "bounding_box":
            S.prove(what + ": no voxels", q.voxels is None)
            S.prove(what + ": tight bounds", q.bounds == Opaque("bounds of " + X.kind, i))
        else:
            S.prove(what + ": voxelization of its own mesh", q.voxels == Opaque("voxelization", i))
            S.prove(what + ": bounds of the voxelization", q.bounds == Opaque("bounds of voxelization", i))

    def element(S):
        source, target = OK[S.choose(3)]
        X = Scene(S, W, source)
        o = X.val(0)
        q = PC().convert_element(o, target)
        S.prove("a new object", q is not o)
        converted(S, X, "converted", q, 0, target)
        X.unchanged("conversion")
    V.forall("element", "ProjectConverter.convert_element", element, lambda v: {"check": "element", "args": {"seed": 1, "source": "meshes", "target": "voxels"}})

    def text(S):
        e = S.fresh_int("text")
        return Tok(e)

    def refusal(S, act, source):
        """any text that is not an allowed target of the source type"""
        k = S.choose(4)
        t = text(S) if k == 3 else KINDS[k]
        if k == 3:
            for w in KINDS:
                S.assume(t != w)
        elif (source, t) in OK:
            return
        try:
            act(t)
            ok = False
        except (AssertionError, ValueError, TypeError, KeyError):
            ok = True
        S.prove("refused", ok)

    def refused(S):
        source = KINDS[S.choose(3)]
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        X = Scene(S, W, source, n, keyid=True)
        e = POD.symbolic(n, X.key, X.val)
        p = PS(source, e)
        seg = e.seg
        refusal(S, lambda t: PC().run(p, t), source)
        S.prove("the refused project is unchanged", p.elements is e and e.seg is seg and p.project_type == source)
        X.unchanged("refused")
    rcase = lambda v: {"check": "refused", "args": {"seed": 1, "source": "voxels", "target": "meshes", "n": 1}}
    V.forall("refused projects", "ProjectConverter.run", refused, rcase)

    def refused1(S):
        source = KINDS[S.choose(3)]
        X = Scene(S, W, source)
        o = X.val(0)
        refusal(S, lambda t: PC().convert_element(o, t), source)
        X.unchanged("refused")
    V.forall("refused elements", "ProjectConverter.convert_element", refused1, rcase)

    def project(S):
        source, target = OK[S.choose(3)]
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        X = Scene(S, W, source, n, keyid=True)
        e = POD.symbolic(n, X.key, X.val)
        settings = {"version": "v", "categories_id": "c", "categories_url": "u", "more": ["x"]}
        p = PS(source, e, settings)
        seg = e.seg
        q = PC().run(p, target)
        S.prove("class", type(q) is PS)
        S.prove("container", type(q.elements) is POD and q.elements is not e)
        S.prove("type", q.project_type == target)
        S.prove("settings", q.settings == {"version": "v", "categories_id": "c", "categories_url": "u", "more": ["x"]})
        new = q.elements
        if new.seg is None:
            S.prove("number of objects", SBool(ilift(n) == dict.__len__(new)))
        else:
            m, key, val = new.seg
            S.prove("number of objects", SBool(ilift(m) == ilift(n)))
            i = SInt(S.fresh_int("i"))
            S.axiom(in_range(i, n))
            S.instantiate(i)
            S.prove("key", key(i) == X.key(i))
            converted(S, X, "object", val(i), i, target)
        X.unchanged("conversion")
        S.prove("the input project", p.elements is e and e.seg is seg and p.project_type == source and p.settings is settings
                and settings == {"version": "v", "categories_id": "c", "categories_url": "u", "more": ["x"]})
    V.forall("project", ["ProjectConverter.run", "ProjectScene.__init__", "ProjectObjectDict.__setitem__"], project,
             lambda v: {"check": "project", "args": {"seed": 1, "source": "meshes", "target": "bounding_box", "n": max(2, min(6, int(v.get("n", 2))))}})

    # --- the voxelizer: every sampled point, nothing else, in a grid that starts at their smallest coordinates
    from seq import SArr, bound_and_attained
    import c08
    W2 = c08.box_world(V)
    made = []

    class Sampler:
        def __init__(self, density=None, *a):
            made.append(density)

        def run(self, model):
            return model.points

    class Recorded:
        def __init__(self, voxel_size=1, min_corner=None, points=None):
            self.voxel_size, self.min_corner, self.points = voxel_size, min_corner, [points] if points is not None else []

        def add_points(self, points):
            self.points.append(points)
    W2.contracts["sumo.threedee.model_sampler"] = types.SimpleNamespace(ModelSampler=Sampler)
    W2.contracts["sumo.threedee.voxel_grid"] = types.SimpleNamespace(VoxelGrid=Recorded)
    for m, n in (("gltf_model", "GltfModel"), ("point_cloud", "PointCloud")):
        W2.contracts["sumo.threedee." + m] = types.SimpleNamespace(**{n: None})
    Vox = W2.load("sumo.threedee.voxelizer").Voxelizer

    def voxelizer(S):
        n = S.int("n", 1, sampler=lambda r: r.randint(1, 4))
        P = SArr.input(S, "P", (n, 6))
        size, dens = S.real("size", 0), S.real("density", 0)
        k = S.choose(2)
        g = (Vox(dens, size) if k else Vox()).run(types.SimpleNamespace(points=P))
        S.prove("a grid of the requested voxel size", SBool(pyvc.lift(g.voxel_size) == (pyvc.lift(size) if k else pyvc.rv(0.1))))
        S.prove("the requested density", len(made) > 0 and (not k or made[-1] is dens))
        S.prove("one set of points", len(g.points) == 1)
        Q = g.points[0]
        S.prove("three coordinates per point", SBool(ilift(Q.shape[0]) == ilift(n)) if Q.shape[1] == 3 else False)
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n))
        S.instantiate(i)
        for c in range(3):
            S.prove_eq("sampled point, coordinate %d" % c, Q.at(i, c), P.at(i, c))
            bound_and_attained(S, "grid origin, coordinate %d" % c, "min", g.min_corner[c], n, lambda j, c=c: P.at(j, c), lambda j: SBool(pyvc.z3.BoolVal(True)))
    V.forall("voxelizer", ["Voxelizer.run", "Voxelizer.__init__"], voxelizer, lambda v: {"check": "element", "args": {"seed": 1, "source": "meshes", "target": "voxels"}})
