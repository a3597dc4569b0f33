"""C17 re-posing objects and scenes."""
import types

import numpy as np

import pyvc
from load import World
from loops import SDict
from opaque import Tok, Opaque
from pyvc import SBool, SInt, SReal, oarr, ilift, blift
from seq import SArr, in_range
from c05 import mm, mv, snap

KINDS = ["bounding_box", "voxels", "meshes"]


def world(V):
    W = World(V)
    none = lambda **k: types.SimpleNamespace(**k)
    W.contracts["sumo.threedee.gltf_model"] = none(GltfModel=None)
    W.contracts["sumo.threedee.voxel_grid"] = none(VoxelGrid=None)
    W.contracts["sumo.threedee.compute_bbox"] = none(ComputeBbox=None)
    W.contracts["libfb.py"] = none(parutil=None)
    return W


class Scene:
    """n objects of the given kind with arbitrary attributes; every object handed out is kept, with its state"""

    def __init__(self, S, W, kind, n=None, tag="", keyid=False):
        self.S, self.kind, self.n = S, kind, n
        self.PO = W.load("sumo.semantic.project_object").ProjectObject
        self.Pose3 = W.load("sumo.geometry.pose3").Pose3
        self.Rot3 = W.load("sumo.geometry.rot3").Rot3
        m = n if n is not None else 1
        self.R, self.t = SArr.input(S, tag + "R", (m, 3, 3)), SArr.input(S, tag + "t", (m, 3))
        self.score, self.ev = SArr.input(S, tag + "score", (m,)), SArr.input(S, tag + "evaluated", (m,), "int", 0, 1)
        self.hb = SArr.input(S, tag + "hasbounds", (m,), "int", 0, 1)
        self.made = {}
        self.ids = pyvc.z3.Function(tag + "id", pyvc.z3.IntSort(), pyvc.z3.IntSort())
        self.keyf = self.ids if keyid else pyvc.z3.Function(tag + "key", pyvc.z3.IntSort(), pyvc.z3.IntSort())

    def opaque(self, name, i):
        return Opaque(name, i)

    def key(self, i):
        return Tok(self.keyf(ilift(i)), origin=i)

    def val(self, i):
        k = pyvc.z3.simplify(ilift(i)).get_id()
        if k not in self.made:
            S = self.S
            S.keep.append(pyvc.z3.simplify(ilift(i)))
            R = oarr([[self.R.at(i, a, b) for b in range(3)] for a in range(3)])
            t = oarr([self.t.at(i, a) for a in range(3)])
            R0, t0 = snap(R), snap(t)
            pose = self.Pose3(self.Rot3(R), t)
            op = lambda name: self.opaque(name, i)
            o = self.PO(id=Tok(self.ids(ilift(i))), project_type=self.kind, bounds=op("bounds"), voxels=op("voxels"), meshes=op("meshes"), pose=pose,
                        category=op("category"), symmetry=op("symmetry"), score=self.score.at(i), evaluated=SBool(ilift(self.ev.at(i)) == 1))
            for f in ("bounds", "voxels", "meshes", "category", "symmetry", "score", "evaluated"):
                v = getattr(o, f)
                S.prove("constructor stores " + f, v is None if f in ("voxels", "meshes") and f != self.kind else v is not None)
            S.prove("constructor stores the pose", o.pose is pose)
            self.made[k] = (o, dict(vars(o)), pose, dict(vars(pose)), dict(vars(pose.R)), R, t, R0, t0)
        return self.made[k][0]

    def unchanged(self, what):
        S = self.S
        for o, v, pose, pv, rv, R, t, R0, t0 in list(self.made.values()):
            same = lambda a, b: set(a) == set(b) and all(a[x] is b[x] for x in a)
            S.prove(what + ": attributes of the original", same(vars(o), v))
            S.prove(what + ": pose of the original", same(vars(pose), pv) and same(vars(pose.R), rv))
            S.prove(what + ": numbers of the original pose", all(x is y for x, y in zip(snap(R) + snap(t), R0 + t0)))

    def rt(self, i, M=None, d=None):
        R = oarr([[self.R.at(i, a, b) for b in range(3)] for a in range(3)])
        t = oarr([self.t.at(i, a) for a in range(3)])
        if M is None:
            return R, t
        p = mv(M, t)
        return mm(M, R), oarr([p[k] + d[k] for k in range(3)])

    def carried(self, what, q, i, M, d):
        """q is object i with only its pose changed"""
        S = self.S
        S.prove(what + ": class", type(q) is self.PO)
        R, t = self.rt(i, M, d)
        S.prove_eq(what + ": rotation", q.pose.R.matrix(), R)
        S.prove_eq(what + ": translation", q.pose.t, t)
        S.prove(what + ": type", q.project_type == self.kind)
        for f in ("bounds", "voxels", "meshes"):
            v, w = getattr(q, f), Opaque(f, i)
            S.prove("%s: %s" % (what, f), v is None if f in ("voxels", "meshes") and f != self.kind else v == w)
        self.plain(what, q, i)

    def plain(self, what, q, i):
        S = self.S
        S.prove(what + ": id", q.id == Tok(self.ids(ilift(i))))
        for f in ("category", "symmetry"):
            S.prove("%s: %s" % (what, f), getattr(q, f) == Opaque(f, i))
        S.prove(what + ": score", SBool(pyvc.lift(q.score) == pyvc.lift(self.score.at(i))))
        S.prove(what + ": evaluated", SBool(blift(q.evaluated) == (ilift(self.ev.at(i)) == 1)))


def prove(V):
    W = world(V)
    PS = W.load("sumo.semantic.project_scene").ProjectScene
    POD = W.load("sumo.semantic.project_object_dict").ProjectObjectDict
    Pose3, Rot3 = W.load("sumo.geometry.pose3").Pose3, W.load("sumo.geometry.rot3").Rot3
    V.assume("machine floats are treated as real numbers")
    V.trust("symbolic loop summary: one generic iteration stands for all (loops.py)")

    def rigid(S, name):
        M, d = S.mat(name + "R", 3, 3), S.vec(name + "t")
        return M, d, Pose3(Rot3(M), d)

    def obj(S):
        kind = KINDS[S.choose(3)]
        X = Scene(S, W, kind)
        o = X.val(0)
        M, d, P = rigid(S, "a")
        N, e, Q = rigid(S, "b")
        m0, n0 = snap(M) + snap(d), snap(N) + snap(e)
        q = o.transform_pose(P)
        S.prove("a new object", q is not o)
        X.carried("transformed", q, 0, M, d)
        X.unchanged("transform")
        NM, ne = mm(N, M), oarr([x + y for x, y in zip(mv(N, d), e)])
        v = dict(vars(q))
        q2 = q.transform_pose(Q)
        X.carried("transformed twice", q2, 0, NM, ne)
        S.prove("second transform leaves the first result alone", all(vars(q)[k] is v[k] for k in v) and set(v) == set(vars(q)))
        X.carried("transformed by the composition", o.transform_pose(Q.compose(P)), 0, NM, ne)
        X.unchanged("second transform")
        S.prove("transforms unchanged", all(x is y for x, y in zip(snap(M) + snap(d) + snap(N) + snap(e), m0 + n0)))
    V.forall("object", ["ProjectObject.transform_pose", "ProjectObject.__init__"], obj, lambda v: {"check": "obj", "args": {"seed": 1, "kind": "meshes"}})

    def scene(S, custom):
        kind = KINDS[S.choose(3)]
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        X = Scene(S, W, kind, n)
        e = POD.symbolic(n, X.key, X.val)
        settings = {"version": "v", "categories_id": "c", "categories_url": "u"} if custom else None
        p = PS(kind, e, settings)
        want, had = dict(p.settings), p.settings
        M, d, P = rigid(S, "a")
        N, f, Q = rigid(S, "b")
        NM, ne = mm(N, M), oarr([x + y for x, y in zip(mv(N, d), f)])
        seg = e.seg

        def check(q, M, d, what):
            S.prove(what + ": class", type(q) is PS)
            S.prove(what + ": container", type(q.elements) is POD)
            S.prove(what + ": its own container", q.elements is not e)
            S.prove(what + ": type", q.project_type == kind)
            S.prove(what + ": settings", dict(q.settings) == want)
            ne = q.elements
            if ne.seg is None:
                S.prove(what + ": number of objects", SBool(ilift(n) == dict.__len__(ne)))
                return
            m, key, val = ne.seg
            S.prove(what + ": number of objects", SBool(ilift(m) == ilift(n)))
            i = SInt(S.fresh_int("i"))
            S.axiom(in_range(i, n))
            S.instantiate(i)
            S.prove(what + ": key", key(i) == X.key(i))
            X.carried(what, val(i), i, M, d)
        q = p.transform_pose(P)
        check(q, M, d, "transformed scene")
        q2 = q.transform_pose(Q)
        check(q2, NM, ne, "scene transformed twice")
        check(p.transform_pose(Q.compose(P)), NM, ne, "scene transformed by the composition")
        check(q, M, d, "first result afterwards")
        X.unchanged("scene transform")
        S.prove("the original scene", p.elements is e and e.seg is seg and p.project_type == kind and p.settings is had and dict(had) == want)
    for custom in (True, False):
        V.forall("scene with %s settings" % ("its own" if custom else "default"), ["ProjectScene.transform_pose", "ProjectScene.__init__", "ProjectObjectDict.__setitem__"],
                 lambda S: scene(S, custom), lambda v: {"check": "scene", "args": {"seed": 1, "kind": "meshes", "n": max(2, min(6, int(v.get("n", 2))))}})
