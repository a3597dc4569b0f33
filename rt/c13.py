MODULES = ["sumo.threedee.mesh", "sumo.threedee.textured_mesh"]
import itertools

import numpy as np

from common import *

BUDGET = 12
RULE = ("triangles of many shapes, sizes and positions, vertices used by no, one and many faces, unused vertices added, example boxes of many side "
        "lengths in both orientations; distinct by content")


def setup():
    global Mesh, TexturedMesh
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh


def normals_of(idx, V):
    out = []
    for a, b, c in idx.reshape(-1, 3).astype(int):
        p, q, r = [V[:, i].astype(float) for i in (a, b, c)]
        n = np.cross(q - p, r - p)
        l = np.linalg.norm(n)
        e = max(np.linalg.norm(q - p), np.linalg.norm(r - p))
        # a thin triangle has no normal to float32 accuracy; one with equal corners has none at all
        if len({a, b, c}) < 3:
            out.append(np.zeros(3))
        elif l < 0.05 * e * e or l < 1e-12:
            raise Skip()
        else:
            out.append(n / l)
    return np.array(out).T.reshape(3, -1)


def faces(seed, n, t, scale, offset):
    r = np.random.RandomState(seed)
    V = ((r.uniform(-1, 1, (3, n)) + offset) * scale).astype(np.float32)
    idx = np.concatenate([r.choice(n, 3, replace=False) for _ in range(t)]).astype(np.uint32) if t else np.zeros(0, np.uint32)
    keepV, keepI = V.copy(), idx.copy()
    want = normals_of(idx, V)
    got = Mesh.calculate_face_normals(idx, V)
    require(got.shape == (3, t), "%s face normals for %d triangles", got.shape, t)
    close(got, want, "face normals", 0, 1e-4)
    require(t == 0 or np.allclose(np.linalg.norm(got.astype(float), axis=0), 1, atol=1e-5), "face normals are not unit vectors")
    # cyclic order does not matter, reversal flips
    if t:
        rolled = idx.reshape(-1, 3)[:, [1, 2, 0]].reshape(-1).copy()
        close(Mesh.calculate_face_normals(rolled, V), want, "face normals of rolled corners", 0, 1e-4)
        flipped = idx.reshape(-1, 3)[:, [0, 2, 1]].reshape(-1).copy()
        close(Mesh.calculate_face_normals(flipped, V), -want, "face normals of reversed corners", 0, 1e-4)
    same(V, keepV, "vertices argument")
    same(idx, keepI, "indices argument")


def vertex(seed, n, t, scale, extra, degenerate):
    r = np.random.RandomState(seed)
    V = (r.uniform(-1, 1, (3, n)) * scale).astype(np.float32)
    tri = [r.choice(n, 3, replace=False) for _ in range(t)]
    if degenerate and t:
        tri[0] = np.array([tri[0][0]] * 3)
    idx = np.concatenate(tri).astype(np.uint32) if t else np.zeros(0, np.uint32)
    F = normals_of(idx, V)
    S = np.zeros((3, n))
    used = np.zeros(n, bool)
    for f, t3 in enumerate(idx.reshape(-1, 3)):
        for i in t3:
            S[:, i] += F[:, f]
            used[i] = used[i] or bool(np.any(F[:, f] != 0))
    L = np.linalg.norm(S, axis=0)
    clear = (L > 0.05)
    want = np.where(clear, S / np.where(L > 0, L, 1), 0)

    def compare(got, what):
        require(got.shape == (3, n), "%s: %s normals for %d vertices", what, got.shape, n)
        for i in range(n):
            if used[i] and not clear[i]:
                continue       # the normals cancel: direction not determined
            close(got[:, i], want[:, i], "%s: normal of vertex %d" % (what, i), 0, 2e-3 if L[i] < 0.5 else 1e-4)
            if not used[i]:
                require(np.all(got[:, i] == 0), "%s: unused vertex %d has normal %s", what, i, got[:, i])

    compare(Mesh.estimate_normals(idx, V), "estimate_normals")
    if extra:
        # vertices appended, and inserted in front
        W = (r.uniform(-1, 1, (3, extra)) * scale).astype(np.float32)
        got = Mesh.estimate_normals(idx, np.ascontiguousarray(np.hstack([V, W])))
        require(np.all(got[:, n:] == 0), "normals of appended unused vertices")
        compare(got[:, :n], "with vertices appended")
        got = Mesh.estimate_normals((idx + extra).astype(np.uint32), np.ascontiguousarray(np.hstack([W, V])))
        require(np.all(got[:, :extra] == 0), "normals of unused vertices in front")
        compare(got[:, extra:], "with vertices in front")


def closed(idx, V, what):
    """Every directed edge between positions occurs once and its reverse once."""
    e = {}
    for t in idx.reshape(-1, 3):
        p = [tuple(V[:, i]) for i in t]
        require(len(set(p)) == 3, "%s: degenerate triangle %s", what, t)
        for a in range(3):
            k = (p[a], p[(a + 1) % 3])
            e[k] = e.get(k, 0) + 1
    for (a, b), n in e.items():
        require(n == 1 and e.get((b, a)) == 1, "%s: edge %s-%s is not shared by two triangles", what, a, b)


def box(m, half, inward, what):
    idx, V, N = m.indices(), m.vertices(), m.normals()
    require(idx.shape == (36,), "%s: %s indices", what, idx.shape)
    require(V.shape == N.shape, "%s: %s normals", what, N.shape)
    require(int(idx.max()) < V.shape[1], "%s: index out of range", what)
    h = np.float32(half)
    want = set(tuple(np.float32(s) * h for s in c) for c in itertools.product([-1, 1], repeat=3))
    got = set(tuple(v) for v in V.T)
    require(all(any(np.allclose(a, b, rtol=1e-6) for b in want) for a in got) and len(got) == 8, "%s: corners %s", what, got)
    closed(idx, V, what)
    s = -1 if inward else 1
    for t in idx.reshape(-1, 3):
        p = [V[:, i].astype(float) for i in t]
        n = np.cross(p[1] - p[0], p[2] - p[0])
        require(s * n.dot(p[0]) > 0, "%s: triangle %s faces the wrong way", what, t)
        k = int(np.argmax(np.abs(n)))
        require(abs(abs(n[k]) - 4 * half * half) < 1e-4 * half * half and np.allclose(np.delete(n, k), 0, atol=1e-5 * half * half),
                "%s: triangle %s is not half of a side", what, t)
    for i in range(V.shape[1]):
        require(s * float(N[:, i].astype(float).dot(V[:, i].astype(float))) > 0, "%s: normal %d faces the wrong way", what, i)
        require(abs(np.linalg.norm(N[:, i].astype(float)) - 1) < 1e-5, "%s: normal %d is not a unit vector", what, i)
    vol = sum(np.dot(V[:, a].astype(float), np.cross(V[:, b].astype(float), V[:, c].astype(float))) for a, b, c in idx.reshape(-1, 3)) / 6
    require(abs(s * vol - (2 * half) ** 3) < 1e-4 * (2 * half) ** 3, "%s: volume %s", what, vol)


def example(length, inward):
    if length is None:
        m = Mesh.example() if inward is None else Mesh.example(inward=inward)
    else:
        m = Mesh.example(length) if inward is None else Mesh.example(length, inward)
    box(m, (2.0 if length is None else length) / 2.0, bool(inward), "Mesh.example(%s, %s)" % (length, inward))
    close(m.normals(), Mesh.estimate_normals(m.indices(), m.vertices()), "example normals", 0, 1e-5)


def cubes(kind, size):
    # the textured cubes are viewed from inside
    m = {"Mesh.cube": Mesh.cube, "TexturedMesh.example": TexturedMesh.example}.get(kind)
    if m is None:
        m = lambda: TexturedMesh.cube(np.zeros((size, 6 * size, 3), np.uint8), np.zeros((size, 6 * size, 3), np.uint8))
    for k in range(3):
        junk = np.full(36, 7, np.uint32) * (k + 1)    # memory a lazy allocation may reuse
        del junk
        box(m(), 1.0, True, kind)


def arrays(idx, V):
    idx, V = np.array(idx, dtype=np.uint32), np.array(V, dtype=np.float64).reshape(3, -1)
    if V.size and np.abs(V).max() > 1e15:
        raise Skip()
    return idx, np.ascontiguousarray(V.astype(np.float32))


def raw_faces(idx, V):
    idx, V = arrays(idx, V)
    want = normals_of(idx, V)
    got = Mesh.calculate_face_normals(idx, V)
    require(got.shape == (3, len(idx) // 3), "%s face normals for %d indices", got.shape, len(idx))
    close(got, want, "face normals", 0, 1e-3)


def raw_vertex(idx, V):
    idx, V = arrays(idx, V)
    F = normals_of(idx, V)
    got = Mesh.estimate_normals(idx, V)
    require(got.shape == V.shape, "%s normals for %s vertices", got.shape, V.shape)
    S = np.zeros(V.shape)
    for f, t3 in enumerate(idx.reshape(-1, 3)):
        for i in t3:
            S[:, i] += F[:, f]
    for i in range(V.shape[1]):
        l = np.linalg.norm(S[:, i])
        if i not in idx:
            require(np.all(got[:, i] == 0), "unused vertex %d has normal %s", i, got[:, i])
        elif l > 0.05:
            close(got[:, i], S[:, i] / l, "normal of vertex %d" % i, 0, 5e-3)


def raw_unused(idx, V, v):
    raw_vertex(idx, V)


CHECKS = {"raw_faces": raw_faces, "raw_vertex": raw_vertex, "raw_unused": raw_unused, "faces": faces, "vertex": vertex, "example": example, "cubes": cubes}


def cases(rnd, tier):
    for length in (None, 2.0, 1.0, 0.5, 3.0, 10.0, 0.01, 1234.5):
        for inward in (None, True, False):
            yield "example", {"length": length, "inward": inward}
    for k in ("Mesh.cube", "TexturedMesh.example", "TexturedMesh.cube"):
        for s in (1, 3, 8):
            yield "cubes", {"kind": k, "size": s}
    for n in range(20000 if tier == "thorough" else 2500):
        s = rnd.choice([1.0, 10.0, 0.01, 100.0])
        yield "faces", {"seed": rnd.randrange(1 << 30), "n": rnd.choice([3, 4, 8]), "t": rnd.choice([0, 1, 1, 2]), "scale": s,
                        "offset": rnd.choice([0, 0, 2])}
        yield "vertex", {"seed": rnd.randrange(1 << 30), "n": rnd.choice([3, 4, 6, 10]), "t": rnd.choice([0, 1, 2, 3, 4]), "scale": s,
                         "extra": rnd.choice([0, 1, 4]), "degenerate": rnd.random() < 0.2}
        if n % 20 == 0:
            yield "example", {"length": rnd.uniform(0.01, 50), "inward": rnd.random() < 0.5}
