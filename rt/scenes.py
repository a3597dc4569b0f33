"""Objects, dictionaries and scenes with a plain reference description (shared by c16, c17, c18)."""
import copy

import numpy as np

from common import *

FAMILIES = (("none",) * 3, ("twoFold", "none", "none"), ("fourFold", "none", "none"), ("twoFold", "twoFold", "fourFold"), ("fourFold",) * 3,
            ("twoFold",) * 3, ("cylindrical", "none", "none"), ("cylindrical", "twoFold", "twoFold"), ("spherical",) * 3)
WORDS = ["chair", "bed", "unknown", "a b", "<x> & \"y'", "\u00fcber \u4e2d", "wall", "0", "None"]


def load():
    global PO, POD, PS, Pose3, Rot3, Sym, ST, Box3d, VoxelGrid, Mesh, TexturedMesh, GltfModel
    from sumo.semantic.project_object import ProjectObject as PO
    from sumo.semantic.project_object_dict import ProjectObjectDict as POD
    from sumo.semantic.project_scene import ProjectScene as PS
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3
    from sumo.semantic.object_symmetry import ObjectSymmetry as Sym, SymmetryType as ST
    from sumo.threedee.box_3d import Box3d
    from sumo.threedee.voxel_grid import VoxelGrid
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    from sumo.threedee.gltf_model import GltfModel


def description(r, kind, id):
    """Plain data of an object."""
    fam = list(FAMILIES[r.randint(9)])
    r.shuffle(fam)
    q = r.normal(size=4)
    if r.rand() < 0.2:
        q = np.eye(4)[r.randint(4)]
    d = {"id": id, "kind": kind, "category": WORDS[r.randint(len(WORDS))], "symmetry": fam,
         "score": [-1, 0, 0.5, 1.0, 1e-7, 12345.678901234567, float(r.rand())][r.randint(7)],
         "evaluated": bool(r.randint(2)), "R": rot(q), "t": r.uniform(-1, 1, 3) * [1, 10, 1000][r.randint(3)]}
    if kind == "bounding_box":
        d["corners"] = np.sort(r.uniform(-3, 3, (2, 3)), axis=0)
    elif kind == "voxels":
        d["size"] = [0.1, 0.25, 1.0][r.randint(3)]
        d["min"] = r.uniform(-2, 2, 3)
        d["points"] = d["min"] + r.uniform(0, 2, (r.randint(1, 30), 3))
    else:
        d["meshes"] = []
        for k in range(r.randint(1, 4)):
            n = r.randint(3, 9)
            m = [r.randint(0, n, 3 * r.randint(1, 5)).astype(np.uint32), r.uniform(-2, 2, (3, n)).astype(np.float32), r.uniform(-1, 1, (3, n)).astype(np.float32)]
            if r.rand() < 0.5:
                m += [r.uniform(0, 1, (2, n)).astype(np.float32), r.randint(0, 256, (3, 2, 3)).astype(np.uint8), r.randint(0, 256, (2, 2, 3)).astype(np.uint8)]
            d["meshes"].append(m)
    return d


def make(d, via="factory"):
    pose = Pose3(Rot3(d["R"].copy()), d["t"].copy())
    sym = Sym.from_strings(list(d["symmetry"]))
    kw = dict(id=d["id"], pose=pose, category=d["category"], symmetry=sym, score=d["score"], evaluated=d["evaluated"])
    if d["kind"] == "bounding_box":
        kw["bounds"] = Box3d(d["corners"][0], d["corners"][1])
        f = PO.gen_bounding_box_object
    elif d["kind"] == "voxels":
        kw["voxels"] = VoxelGrid(d["size"], d["min"].copy(), d["points"].copy())
        if d.get("with_bounds"):
            kw["bounds"] = kw["voxels"].bounds()
        f = PO.gen_voxels_object
    else:
        kw["meshes"] = model(d)
        f = PO.gen_meshes_object
    if via == "init":
        kw["project_type"] = d["kind"]
        return PO(**kw)
    return f(**kw)


def model(d):
    m = GltfModel()
    for a in d["meshes"]:
        m.add_primitive_mesh(Mesh(*a)) if len(a) == 3 else m.add_textured_primitive_mesh(TexturedMesh(*a))
    return m


def cells(d):
    return {tuple(c) for c in np.floor((d["points"] - d["min"]) * (1 / d["size"])).astype(int).tolist()}


def true_bounds(d):
    """(min, max) of the geometry."""
    if d["kind"] == "bounding_box":
        return d["corners"][0], d["corners"][1]
    if d["kind"] == "voxels":
        c = np.array(sorted(cells(d)))
        return d["min"] + c.min(0) * d["size"], d["min"] + (c.max(0) + 1) * d["size"]
    V = np.concatenate([m[1] for m in d["meshes"]], axis=1)
    return V.min(1), V.max(1)


def check_geometry(o, d, what):
    if d["kind"] == "voxels":
        require(isinstance(o.voxels, VoxelGrid), "%s: voxels is %r", what, type(o.voxels))
        require(abs(o.voxels.voxel_size - d["size"]) < 1e-9, "%s: voxel size %s", what, o.voxels.voxel_size)
        close(o.voxels.min_corner, d["min"], what + ": minimum corner")
        got = (o.voxels.voxel_centers() - d["min"]) / d["size"] - 0.5
        close(got, np.rint(got), what + ": voxel centres", atol=1e-6)
        got = [tuple(c) for c in np.rint(got).astype(int).tolist()]
        require(len(got) == len(set(got)) and set(got) == cells(d), "%s: voxels %s, expected %s", what, sorted(got)[:9], sorted(cells(d))[:9])
    else:
        require(o.voxels is None, "%s: has voxels", what)
    if d["kind"] == "meshes":
        ms = o.meshes.primitive_meshes()
        require(len(ms) == len(d["meshes"]), "%s: %d meshes for %d", what, len(ms), len(d["meshes"]))
        for i, (m, a) in enumerate(zip(ms, d["meshes"])):
            same(m.indices(), a[0], what + ": indices")
            same(m.vertices(), a[1], what + ": vertices")
            same(m.normals(), a[2], what + ": normals")
            require(m.is_textured() == (len(a) > 3), "%s: mesh %d textured is %s", what, i, m.is_textured())
            if len(a) > 3:
                same(m.uv_coords(), a[3], what + ": texture coordinates")
    else:
        require(o.meshes is None, "%s: has meshes", what)


def check_attributes(o, d, what, pose=True, tol=1e-7):
    require(isinstance(o, PO), "%s: class %s", what, type(o))
    require(o.id == d["id"], "%s: id %r, expected %r", what, o.id, d["id"])
    require(o.project_type == d["kind"], "%s: type %r, expected %r", what, o.project_type, d["kind"])
    require(o.category == d["category"], "%s: category %r, expected %r", what, o.category, d["category"])
    s = [x.name for x in (o.symmetry.x_symmetry, o.symmetry.y_symmetry, o.symmetry.z_symmetry)]
    require(s == list(d["symmetry"]), "%s: symmetry %s, expected %s", what, s, d["symmetry"])
    require(o.score == d["score"], "%s: score %r, expected %r", what, o.score, d["score"])
    require(o.evaluated is d["evaluated"], "%s: evaluated %r, expected %r", what, o.evaluated, d["evaluated"])
    if pose:
        close(o.pose.R.matrix(), d["R"], what + ": rotation", atol=tol)
        close(o.pose.t, d["t"], what + ": translation", rtol=1e-7, atol=tol)


def check_bounds(b, want, what):
    require(b is not None, "%s: no bounds", what)
    close(b.min_corner, want[0], what + ": minimum corner of the bounds", rtol=1e-6, atol=2e-7)
    close(b.max_corner, want[1], what + ": maximum corner of the bounds", rtol=1e-6, atol=2e-7)


def check(o, d, what, **k):
    check_attributes(o, d, what, **k)
    check_geometry(o, d, what)
