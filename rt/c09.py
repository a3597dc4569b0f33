MODULES = ["sumo.base.vector", "sumo.opencv.wrap", "sumo.threedee.mesh", "sumo.threedee.textured_mesh", "sumo.threedee.box_3d"]
import itertools

import numpy as np

from common import *

RULE = ("boxes of several positions, sizes and element types (also flat ones), both orientations, and colours of several shapes; distinct by content")


def setup():
    global Box3d
    from sumo.threedee.box_3d import Box3d


def geometry(idx, V, N, lo, hi, out, what):
    require(V.shape == (3, 24) and N.shape == (3, 24), "%s: %s vertices, %s normals", what, V.shape, N.shape)
    require(idx.shape == (36,), "%s: %s indices", what, idx.shape)
    lo, hi = np.asarray(lo, np.float32), np.asarray(hi, np.float32)
    corners = [tuple((lo, hi)[s[k]][k] for k in range(3)) for s in itertools.product([0, 1], repeat=3)]
    ext = hi - lo
    solid = bool(np.all(ext > 0))
    for j in range(24):
        require(tuple(V[:, j]) in corners, "%s: vertex %d %s is not a corner", what, j, V[:, j])
        n = N[:, j]
        require(sorted(np.abs(n).tolist()) == [0.0, 0.0, 1.0], "%s: normal %d %s is not an axis direction", what, j, n)
        # the vertex lies on the side its normal belongs to
        k = int(np.argmax(np.abs(n)))
        s = (1 if n[k] > 0 else -1) * (1 if out else -1)
        require(V[k, j] == (hi if s > 0 else lo)[k], "%s: vertex %d %s is not on the side of normal %s", what, j, V[:, j], n)
    require(int(idx.max()) < 24, "%s: index out of range", what)
    tris = idx.reshape(12, 3)
    sides = {}
    for t in tris:
        ns = [tuple(N[:, i]) for i in t]
        require(len(set(ns)) == 1, "%s: triangle %s has different normals %s", what, t, ns)
        n = N[:, t[0]].astype(float)
        p = [V[:, i].astype(float) for i in t]
        c = np.cross(p[1] - p[0], p[2] - p[0])
        if solid:
            require(c.dot(n) > 0 and np.allclose(np.cross(c, n), 0, atol=1e-3 * np.abs(c).max()), "%s: winding of triangle %s disagrees with its normal %s", what, t, n)
        k = int(np.argmax(np.abs(n)))
        sides.setdefault((k, n[k] * (1 if out else -1)), []).append((t, p))
    require(len(sides) == 6 and all(len(v) == 2 for v in sides.values()), "%s: sides %s", what, {k: len(v) for k, v in sides.items()})
    for (k, s), two in sides.items():
        face = (hi if s > 0 else lo)[k]
        o = [i for i in range(3) if i != k]
        if not solid:
            continue
        sets = []
        for t, p in two:
            require(all(np.float32(q[k]) == face for q in p), "%s: triangle %s is off its side", what, t)
            # in normalised side coordinates: three distinct corners of the unit square
            q = [tuple(int(round((x[i] - lo[i]) / ext[i])) for i in o) for x in p]
            require(len(set(q)) == 3, "%s: degenerate triangle %s", what, t)
            sets.append(set(q))
        full = set(itertools.product([0, 1], repeat=2))
        # two right triangles tile the square iff they miss opposite corners
        m = [next(iter(full - x)) for x in sets]
        require(m[0] == (1 - m[1][0], 1 - m[1][1]), "%s: the triangles of side %s overlap", what, (k, s))
    if solid:
        uses = {}
        for j in range(24):
            uses.setdefault(tuple(V[:, j]), set()).add(tuple(N[:, j]))
        require(len(uses) == 8 and all(len(u) == 3 for u in uses.values()), "%s: corner use %s", what, {k: len(v) for k, v in uses.items()})
        require(len(set(idx.tolist())) == 24, "%s: unused vertices", what)


def mesh(c1, c2, out, kind):
    B = Box3d(np.array(c1, kind), np.array(c2, kind))
    lo, hi = B.min_corner.copy(), B.max_corner.copy()
    for m, what in ((B.to_mesh(out), "to_mesh(%s)" % out), (B.to_mesh(normals_out=out), "to_mesh(normals_out=%s)" % out)):
        require(not m.is_textured() if hasattr(m, "is_textured") else True, "plain mesh")
        geometry(m.indices(), m.vertices(), m.normals(), lo, hi, out, what)
    if out:
        m = B.to_mesh()
        geometry(m.indices(), m.vertices(), m.normals(), lo, hi, True, "to_mesh()")
    same(B.min_corner, lo, "min corner")
    same(B.max_corner, hi, "max corner")


def textured(c1, c2, out, color, shape):
    B = Box3d(np.array(c1), np.array(c2))
    c = np.array(color, np.uint8)
    arg = {"col": c.reshape(3, 1), "row": c.reshape(1, 3), "flat": c, "default": None}[shape]
    if arg is None:
        m, c = B.to_textured_mesh(out), np.array([255, 255, 255], np.uint8)
    else:
        k = arg.copy()
        m = B.to_textured_mesh(out, arg)
        same(arg, k, "colour argument")
    p = B.to_mesh(out)
    geometry(m.indices(), m.vertices(), m.normals(), B.min_corner, B.max_corner, out, "to_textured_mesh(%s)" % out)
    same(m.indices(), p.indices(), "indices of the textured version")
    same(m.vertices(), p.vertices(), "vertices of the textured version")
    same(m.normals(), p.normals(), "normals of the textured version")
    uv = m.uv_coords()
    require(uv.shape == (2, 24), "%s texture coordinates", uv.shape)
    require(np.all(uv >= 0) and np.all(uv <= 1), "texture coordinates outside the texture")
    t = m.base_color()
    require(t.ndim == 3 and t.size > 0 and t.shape[2] == 3 and t.dtype == np.uint8, "texture %s", t.shape)
    same(t, np.broadcast_to(c, t.shape), "texture")


CHECKS = {"mesh": mesh, "textured": textured}


def cases(rnd, tier):
    for n in range(6000 if tier == "thorough" else 500):
        s = rnd.choice([1.0, 1.0, 10.0, 0.1])
        off = [rnd.choice([0, 5, -5]) * rnd.random() for _ in range(3)]
        a = [rnd.uniform(-s, s) + o for o in off]
        b = [x + rnd.choice([1, -1]) * rnd.uniform(0.2, 3) * s for x in a]
        if rnd.random() < 0.1:
            b[rnd.randrange(3)] = a[0]
        yield "mesh", {"c1": a, "c2": b, "out": rnd.random() < 0.5, "kind": rnd.choice(["f8", "f4"])}
        yield "textured", {"c1": a, "c2": b, "out": rnd.random() < 0.5, "color": [rnd.randrange(256) for _ in range(3)],
                           "shape": rnd.choice(["col", "row", "flat", "default"])}
