MODULES = ["sumo.threedee.mesh", "sumo.threedee.textured_mesh"]
import numpy as np

from common import *

BUDGET = 15
RULE = ("plain and textured meshes with lattice coordinates (edge lengths exactly at, just below and above the threshold, decided in exact arithmetic), "
        "corners at the origin in any position, near-origin corners, repeated corners, no triangles; distinct by content")


def setup():
    global Mesh, TexturedMesh
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh


def make(seed, n, t, textured, mode):
    r = np.random.RandomState(seed)
    if mode == "axis":
        V = r.choice([0, 3, 4, 5, -3, -4], (3, n)).astype(np.float32)
    elif mode == "one":
        V = np.zeros((3, n), np.float32)
        for j in range(n):
            V[r.randint(3), j] = r.choice([0, 1, -1, 5, 1e-3])
    else:
        V = r.randint(-6, 7, (3, n)).astype(np.float32)
    if r.rand() < 0.5 and n:
        V[:, r.randint(n)] = r.choice([0.0, -0.0])
    N = r.uniform(-1, 1, (3, n)).astype(np.float32)
    U = r.uniform(0, 1, (2, n)).astype(np.float32)
    idx = r.randint(0, n, (3 * t,)).astype(np.uint32)
    m = TexturedMesh(idx, V, N, U) if textured else Mesh(idx, V, N)
    return m, idx, V, N, U


def check(m, keep, idx, V, N, U, textured, what):
    got = m.indices()
    want = idx.reshape(-1, 3)[np.array(keep, bool)].reshape(-1) if len(idx) else idx
    same(got, want, what + ": triangles kept")
    require(m.num_indices() == len(want), "%s: num_indices", what)
    same(m.vertices(), V, what + ": vertices")
    same(m.normals(), N, what + ": normals")
    if textured:
        same(m.uv_coords(), U, what + ": texture coordinates")


def long_edges(seed, n, t, textured, mode, threshold):
    m, idx, V, N, U = make(seed, n, t, textured, mode)
    th = 5.0 if threshold is None else float(np.float32(threshold))
    keep = []
    for tr in idx.reshape(-1, 3):
        p = [V[:, i].astype(float) for i in tr]
        e = [float(((p[i] - p[(i + 1) % 3]) ** 2).sum()) for i in range(3)]
        # squared lengths are exact; the threshold is never within rounding of a length unless equal
        keep.append(all(x <= th * th for x in e))
        for x in e:
            if x != th * th and abs(x - th * th) < 1e-4 * (x + 1e-9):
                raise Skip()
    for k in range(2):
        if threshold is None:
            m.cleanup_long_edges()
        else:
            m.cleanup_long_edges(threshold)
        check(m, keep, idx, V, N, U, textured, "cleanup_long_edges(%s) run %d" % (threshold, k + 1))


def origin(seed, n, t, textured, mode):
    m, idx, V, N, U = make(seed, n, t, textured, mode)
    keep = [all(np.any(V[:, i] != 0) for i in tr) for tr in idx.reshape(-1, 3)]
    for k in range(2):
        m.cleanup_edges_to_origin()
        check(m, keep, idx, V, N, U, textured, "cleanup_edges_to_origin run %d" % (k + 1))


def both(seed, n, t, textured, mode, threshold):
    """The two clean-ups compose."""
    m, idx, V, N, U = make(seed, n, t, textured, mode)
    a, *_ = make(seed, n, t, textured, mode)
    m.cleanup_long_edges(threshold)
    m.cleanup_edges_to_origin()
    a.cleanup_edges_to_origin()
    a.cleanup_long_edges(threshold)
    same(m.indices(), a.indices(), "clean-ups in either order")


def raw(idx, V, N, U, textured):
    idx, V, N, U = np.array(idx, np.uint32), np.array(V, np.float32).reshape(3, -1), np.array(N, np.float32).reshape(3, -1), np.array(U, np.float32).reshape(2, -1)
    if len(idx) % 3 or len(idx) and idx.max() >= V.shape[1]:
        raise Skip()
    return (TexturedMesh(idx, V, N, U) if textured else Mesh(idx, V, N)), idx, V, N, U


def raw_long(idx, V, N, U, textured, threshold):
    m, idx, V, N, U = raw(idx, V, N, U, textured)
    th = 5.0 if threshold is None else float(np.float32(threshold))
    keep = []
    for tr in idx.reshape(-1, 3):
        p = [V[:, i].astype(float) for i in tr]
        e = [float(np.sqrt(((p[i] - p[(i + 1) % 3]) ** 2).sum())) for i in range(3)]
        keep.append(all(x <= th for x in e))
        if any(abs(x - th) < 1e-4 * (x + 1e-9) and x != th for x in e):
            raise Skip()
    m.cleanup_long_edges() if threshold is None else m.cleanup_long_edges(threshold)
    check(m, keep, idx, V, N, U, textured, "cleanup_long_edges(%s)" % threshold)


def raw_origin(idx, V, N, U, textured):
    m, idx, V, N, U = raw(idx, V, N, U, textured)
    if ((V != 0) & (abs(V) < 1e-5)).any():
        raise Skip()
    m.cleanup_edges_to_origin()
    check(m, [all(np.any(V[:, i] != 0) for i in tr) for tr in idx.reshape(-1, 3)], idx, V, N, U, textured, "cleanup_edges_to_origin")


CHECKS = {"raw_long": raw_long, "raw_origin": raw_origin, "long_edges": long_edges, "origin": origin, "both": both}


def cases(rnd, tier):
    for n in range(20000 if tier == "thorough" else 3000):
        a = {"seed": rnd.randrange(1 << 30), "n": rnd.choice([1, 2, 3, 6, 12]), "t": rnd.choice([0, 1, 2, 8, 20]), "textured": rnd.random() < 0.4,
             "mode": rnd.choice(["axis", "one", "int", "int"])}
        yield "origin", a
        th = rnd.choice([None, 5.0, 0.0, 1.0, 3.0, 4.5, 10.0, 13.0, 100.0, 6.0, -1.0 + 1.0])
        yield "long_edges", dict(a, threshold=th)
        if n % 5 == 0:
            yield "both", dict(a, threshold=5.0)
