MODULES = ["sumo.base.vector", "sumo.opencv.wrap", "sumo.threedee.mesh", "sumo.threedee.textured_mesh", "sumo.threedee.box_3d", "sumo.threedee.compute_bbox", "sumo.threedee.gltf", "sumo.threedee.gltf_model", "sumo.threedee.glb_converter"]
import itertools

import numpy as np

from common import *

RULE = ("corner pairs in random and swapped orders (also degenerate, integer and float32), lists of 0-6 boxes in several orders, point arrays of 0-40 "
        "points of several element types (one-sided ranges, duplicates, single points), mesh lists with empty meshes, glTF models mixing plain and "
        "textured primitives; distinct by content")


def setup():
    global Box3d, ComputeBbox, Mesh, TexturedMesh, GltfModel
    from sumo.threedee.box_3d import Box3d
    from sumo.threedee.compute_bbox import ComputeBbox
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    from sumo.threedee.gltf_model import GltfModel


def is_box(b, lo, hi, what):
    same(b.min_corner, lo, what + ": min corner")
    same(b.max_corner, hi, what + ": max corner")


def box(c1, c2, kind):
    conv = {"f8": lambda v: np.array(v, float), "f4": lambda v: np.array(v, np.float32), "list": list, "tuple": tuple}[kind]
    a, b = conv(c1), conv(c2)
    x, y = np.array(a, dtype=float), np.array(b, dtype=float)
    keep = frozen(x, y)
    lo, hi = np.minimum(x, y), np.maximum(x, y)
    for p, q in itertools.product([0, 1], repeat=2):
        pass
    for mask in range(8):
        u = [(x if mask >> k & 1 else y)[k] for k in range(3)]
        v = [(y if mask >> k & 1 else x)[k] for k in range(3)]
        is_box(Box3d(conv(u), conv(v)), lo, hi, "box from corners %s %s" % (u, v))
    B = Box3d(a, b)
    close(B.volume(), float((hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])), "volume", rtol=1e-5 if kind == "f4" else 1e-12, atol=1e-30)
    close(B.center(), (lo + hi) / 2, "center", rtol=1e-5 if kind == "f4" else 1e-12, atol=1e-12)
    cs = np.asarray(B.corners(), dtype=float)
    order = [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
    want = np.array([[(lo, hi)[o[k]][k] for k in range(3)] for o in order]).T
    same(cs, want, "corners")
    # containment: strictly inside on every axis
    vals = [[lo[k] - 1.0, lo[k], (lo[k] + hi[k]) / 2, hi[k], hi[k] + 1.0] for k in range(3)]
    for p in itertools.product(*vals):
        p = np.array(p)
        inside = bool(np.all(p > lo) and np.all(p < hi))
        require(bool(B.point_in_box(p)) == inside, "point_in_box(%s) in %s is %s", p, B, not inside)
    is_box(B, lo, hi, "box after use")
    unchanged([np.array(a, dtype=float), np.array(b, dtype=float)], keep, "corner")


def equality(c1, c2, axis, corner, eps, atol):
    B = Box3d(np.array(c1), np.array(c2))
    C = Box3d(np.array(c2), np.array(c1))
    require((B == C) is True or bool(B == C), "equal boxes compare different")
    require(not (B != C), "!= of equal boxes")
    require(bool(B.almost_equal(C)), "almost_equal of equal boxes")
    lo, hi = B.min_corner.copy(), B.max_corner.copy()
    (lo if corner == 0 else hi)[axis] += eps * (-1 if corner == 0 else 1)
    D = Box3d(lo, hi)
    differs = not (np.array_equal(D.min_corner, B.min_corner) and np.array_equal(D.max_corner, B.max_corner))
    require(bool(B == D) == (not differs) and bool(D == B) == (not differs), "== ignores corner %d axis %d", corner, axis)
    require(bool(B.almost_equal(D, rtol=0, atol=atol)) == bool(eps <= atol), "almost_equal with difference %s, tolerance %s", eps, atol)


def pair(a, b, c, d, rtol, atol):
    B, C = Box3d(np.array(a), np.array(b)), Box3d(np.array(c), np.array(d))
    x = np.concatenate([np.minimum(a, b), np.maximum(a, b)])
    y = np.concatenate([np.minimum(c, d), np.maximum(c, d)])
    require(bool(B == C) == bool(np.all(x == y)), "== of %s and %s", B, C)
    require(bool(B != C) == (not np.all(x == y)), "!= of %s and %s", B, C)
    for kw in ({}, {"rtol": 0, "atol": atol}, {"rtol": rtol, "atol": 0}):
        gap = np.abs(x - y) - (kw.get("atol", 1e-8) + kw.get("rtol", 1e-5) * np.abs(y))
        if np.abs(gap).min() < 1e-12 * (1 + np.abs(y).max()):
            continue
        require(bool(B.almost_equal(C, **kw)) == bool(np.all(gap <= 0)), "almost_equal of %s and %s with %s", B, C, kw)


def merge(corners):
    boxes = [Box3d(np.array(a), np.array(b)) for a, b in corners]
    keep = [(b.min_corner.copy(), b.max_corner.copy()) for b in boxes]
    if not boxes:
        is_box(Box3d.merge([]), np.zeros(3), np.zeros(3), "merge of nothing")
        return
    lo = np.array([min(b.min_corner[k] for b in boxes) for k in range(3)])
    hi = np.array([max(b.max_corner[k] for b in boxes) for k in range(3)])
    for perm in [boxes, boxes[::-1], boxes[1:] + boxes[:1]]:
        is_box(Box3d.merge(list(perm)), lo, hi, "merge of %d boxes" % len(boxes))
    for b, (l, h) in zip(boxes, keep):
        is_box(b, l, h, "merged box")


def tight(pts):
    return (pts.min(axis=1), pts.max(axis=1)) if pts.shape[1] else (np.zeros(3), np.zeros(3))


def points(cols, kind):
    P = np.array(cols, dtype=kind).reshape(-1, 3).T
    K = P.copy()
    lo, hi = tight(P)
    is_box(ComputeBbox().from_point_cloud(P), lo, hi, "bounding box of %d points" % P.shape[1])
    is_box(ComputeBbox().from_point_cloud(P[:, ::-1]), lo, hi, "bounding box of reversed points")
    same(P, K, "points")


def mesh_of(cols, tris, textured):
    v = np.array(cols, np.float32).reshape(-1, 3).T.copy()
    n = np.zeros_like(v)
    i = np.array(tris, np.uint32).reshape(-1)
    if textured:
        return TexturedMesh(i, v, n, np.zeros((2, v.shape[1]), np.float32)), v
    return Mesh(i, v, n), v


def meshes(items):
    ms = [mesh_of(*it) for it in items]
    for m, v in ms:
        lo, hi = tight(v)
        is_box(ComputeBbox().from_mesh(m), lo, hi, "bounding box of a mesh of %d vertices" % v.shape[1])
    full = [v for _, v in ms if v.shape[1]]
    allv = np.concatenate(full, axis=1) if full else np.zeros((3, 0), np.float32)
    lo, hi = tight(allv)
    is_box(ComputeBbox().from_meshes([m for m, _ in ms]), lo, hi, "bounding box of %d meshes" % len(ms))
    is_box(ComputeBbox().from_meshes([m for m, _ in ms[::-1]]), lo, hi, "bounding box of reversed meshes")
    g = GltfModel()
    for m, v in ms:
        if v.shape[1] and m.num_indices():
            g.add_mesh(m)
    full = [v for m, v in ms if v.shape[1] and m.num_indices()]
    allv = np.concatenate(full, axis=1) if full else np.zeros((3, 0), np.float32)
    lo, hi = tight(allv)
    is_box(ComputeBbox().from_gltf_object(g), lo, hi, "bounding box of a glTF model of %d primitives" % len(full))


CHECKS = {"box": box, "equality": equality, "pair": pair, "merge": merge, "points": points, "meshes": meshes}


def cases(rnd, tier):
    yield "merge", {"corners": []}
    yield "points", {"cols": [], "kind": "float64"}
    yield "meshes", {"items": []}
    yield "meshes", {"items": [[[], [], False]]}
    for n in range(4000 if tier == "thorough" else 250):
        side = rnd.choice([-1, 1, 0])
        off = [side * rnd.uniform(5, 50) for _ in range(3)]
        v = lambda: [x + o for x, o in zip(rvec(rnd), off)]
        a, b = v(), v()
        if rnd.random() < 0.2:
            b[rnd.randrange(3)] = a[0]
        yield "box", {"c1": a, "c2": b, "kind": rnd.choice(["f8", "f8", "f4", "list", "tuple"])}
        if n % 3 == 0:
            yield "box", {"c1": [rnd.randint(-4, 4) for _ in range(3)], "c2": [rnd.randint(-4, 4) for _ in range(3)], "kind": "list"}
        yield "equality", {"c1": a, "c2": b, "axis": rnd.randrange(3), "corner": rnd.randrange(2),
                           "eps": rnd.choice([0.0, 1e-3, 0.5, 2.0]), "atol": rnd.choice([1e-2, 1.0])}
        yield "merge", {"corners": [[v(), v()] for _ in range(rnd.choice([0, 1, 2, 3, 6]))]}
        yield "points", {"cols": [v() for _ in range(rnd.choice([0, 1, 2, 5, 40]))], "kind": rnd.choice(["float64", "float32", "int64"])}
        items = []
        for _ in range(rnd.choice([1, 2, 4])):
            k = rnd.choice([0, 1, 3, 8])
            items.append([[v() for _ in range(k)], [rnd.randrange(k) for _ in range(3 * rnd.choice([1, 2]))] if k else [], rnd.random() < 0.5])
        yield "meshes", {"items": items}
