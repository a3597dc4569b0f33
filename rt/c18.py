MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3", "sumo.threedee.model_sampler", "sumo.threedee.voxelizer"]
import copy
import warnings

import numpy as np

import scenes
from scenes import WORDS
from common import *

BUDGET = 12
RULE = ("projects of meshes and voxels with 0 to 5 objects, every attribute varied, all ordered pairs of types (known and unknown) for projects and objects; "
        "distinct by content")
IDS = ["1", "b", "x y", "7", "\u00fc", "0"]


def setup():
    scenes.load()
    global PC
    from sumo.semantic.project_converter import ProjectConverter as PC


def snapshot(o):
    d = dict(vars(o))
    d["arrays"] = (np.array(o.pose.R.matrix()), np.array(o.pose.t))
    return d


def on_surface(p, tris, tol):
    """Smallest distance of p to the triangles (T x 3 x 3)."""
    best = np.inf
    for a, b, c in tris:
        ab, ac, ap = b - a, c - a, p - a
        n = np.cross(ab, ac)
        if np.dot(n, n) > 1e-18:
            M = np.stack([ab, ac, n], axis=1)
            u, v, w = np.linalg.solve(M, ap)
            if u > -1e-9 and v > -1e-9 and u + v < 1 + 1e-9:
                best = min(best, abs(w) * np.linalg.norm(n))
                continue
        for x, y in ((a, b), (b, c), (c, a)):
            d = y - x
            t = 0 if np.dot(d, d) == 0 else np.clip(np.dot(p - x, d) / np.dot(d, d), 0, 1)
            best = min(best, np.linalg.norm(p - x - t * d))
    return best


def check(n, d, target, what, full=True):
    e = dict(d, kind=target)
    scenes.check_attributes(n, e, what, tol=1e-12)
    require(n.meshes is None, "%s: has meshes", what)
    if target == "bounding_box":
        require(n.voxels is None, "%s: has voxels", what)
        scenes.check_bounds(n.bounds, scenes.true_bounds(d), what)
        return
    g = n.voxels
    require(isinstance(g, scenes.VoxelGrid), "%s: voxels are %s", what, type(g))
    c, s = g.voxel_centers(), g.voxel_size
    require(abs(s - 0.1) < 1e-9, "%s: voxel size %s", what, s)
    require(len(c) > 0, "%s: no voxels", what)
    scenes.check_bounds(n.bounds, (c.min(0) - s / 2, c.max(0) + s / 2), what)
    tris = np.concatenate([m[1].T[m[0]].reshape(-1, 3, 3) for m in d["meshes"]]).astype(float)
    lo, hi = tris.reshape(-1, 3).min(0), tris.reshape(-1, 3).max(0)
    require(np.all(g.min_corner >= lo - 1e-6) and np.all(g.min_corner <= hi + 1e-6), "%s: grid starts at %s, surface is in %s..%s", what, g.min_corner, lo, hi)
    # every voxel touches the surface, in object coordinates
    r = np.random.RandomState(len(c))
    for i in r.permutation(len(c))[:40]:
        dist = on_surface(c[i], tris, s)
        require(dist <= s * 3 ** 0.5 / 2 + 1e-6, "%s: voxel centre %s is %s from the surface", what, c[i], dist)
    # and large parts of the surface are covered
    for a, b, e in tris:
        m = (a + b + e) / 3
        area = np.linalg.norm(np.cross(b - a, e - a)) / 2
        if area > 1:
            require(np.min(np.max(np.abs(c - m), axis=1)) < 4 * s, "%s: no voxel near the middle of a triangle of area %s", what, area)


def project(seed, source, target, n):
    r = np.random.RandomState(seed)
    np.random.seed(seed % (1 << 32))
    ds = [scenes.description(r, source, IDS[i]) for i in range(n)]
    p = scenes.PS(source, None, {"version": WORDS[r.randint(9)], "categories_id": "c", "categories_url": "u", "more": ["x"]})
    for d in ds:
        x = scenes.make(d)
        if r.rand() < 0.5:
            x.bounds = scenes.Box3d(np.array([-9.0, -9, -9]), np.array([9.0, 9, 9]))
        p.elements[d["id"]] = x
    want = copy.deepcopy(p.settings)
    objs = dict(p.elements)
    snaps = {k: snapshot(x) for k, x in objs.items()}
    q = PC().run(p, target)
    require(type(q) is scenes.PS and type(q.elements) is scenes.POD, "result is a %s of %s", type(q), type(q.elements))
    require(q.project_type == target, "type %s, expected %s", q.project_type, target)
    require(q.settings == want, "settings %s, expected %s", q.settings, want)
    require(list(q.elements) == [d["id"] for d in ds], "ids %s, expected %s", list(q.elements), [d["id"] for d in ds])
    for d in ds:
        check(q.elements[d["id"]], d, target, "%s to %s, object %r" % (source, target, d["id"]))

    def untouched():
        require(p.settings == want and p.project_type == source and dict(p.elements) == objs, "the input project was modified")
        for k, x in objs.items():
            t = snapshot(x)
            for a in t:
                if a != "arrays":
                    require(t[a] is snaps[k][a] or t[a] == snaps[k][a], "attribute %s of an input object was modified", a)
            same(t["arrays"][0], snaps[k]["arrays"][0], "rotation of an input object")
            same(t["arrays"][1], snaps[k]["arrays"][1], "translation of an input object")
        for d in ds:
            scenes.check(p.elements[d["id"]], d, "input object", tol=1e-12)
    untouched()
    # the result can be changed without changing the input
    q.settings["version"] = "changed"
    q.settings["more"].append("y")
    for x in q.elements.values():
        x.pose.t[:] = 7
        x.category = "changed"
    if n:
        del q.elements[ds[0]["id"]]
    untouched()


def element(seed, source, target):
    r = np.random.RandomState(seed)
    d = scenes.description(r, source, "e")
    x = scenes.make(d)
    n = PC().convert_element(x, target)
    check(n, d, target, "element from %s to %s" % (source, target))
    scenes.check(x, d, "input element", tol=1e-12)


def refused(seed, source, target, n):
    r = np.random.RandomState(seed)
    p = scenes.PS(source)
    ds = [scenes.description(r, source, IDS[i]) for i in range(n)]
    for d in ds:
        p.elements[d["id"]] = scenes.make(d)
    refuses(lambda: PC().run(p, target), Exception, "conversion of a project from %s to %s" % (source, target))
    for d in ds:
        refuses(lambda: PC().convert_element(p.elements[d["id"]], target), Exception, "conversion of an object from %s to %s" % (source, target))
        scenes.check(p.elements[d["id"]], d, "input object of a refused conversion", tol=1e-12)
    require(p.project_type == source and len(p.elements) == n, "a refused conversion changed the project")


CHECKS = {"project": project, "element": element, "refused": refused}
OK = [("meshes", "voxels"), ("meshes", "bounding_box"), ("voxels", "bounding_box")]


def cases(rnd, tier):
    for s in ("bounding_box", "voxels", "meshes"):
        for t in ("bounding_box", "voxels", "meshes", "mesh", "", "unknown", None):
            if (s, t) not in OK:
                for n in (0, 2):
                    yield "refused", {"seed": rnd.randrange(1 << 30), "source": s, "target": t, "n": n}
    for i in range(4000):
        s, t = OK[i % 3]
        yield "project", {"seed": rnd.randrange(1 << 30), "source": s, "target": t, "n": (i // 3) % 6}
        yield "element", {"seed": rnd.randrange(1 << 30), "source": s, "target": t}
