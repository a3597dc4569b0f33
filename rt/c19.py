MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3", "sumo.threedee.model_sampler", "sumo.threedee.voxelizer"]
import math

import numpy as np

import metricstub
from common import *

BUDGET = 12
RULE = ("models of 0 to 4 plain and textured meshes whose triangles lie apart from each other (large, tiny, needle-shaped, degenerate to a line or a point, shared "
        "and unused vertices), texture sizes from 1x1 to 7x5, texture coordinates inside, on the border of and outside [0,1], densities from 0 to 2000, poses, "
        "ordinary and extreme random draws; distinct by content")


def setup():
    metricstub.install()
    global Mesh, TexturedMesh, GltfModel, MS, ms, ME, PO, Pose3, Rot3, Voxelizer
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    from sumo.threedee.gltf_model import GltfModel
    from sumo.threedee.model_sampler import ModelSampler as MS
    import sumo.threedee.model_sampler as ms
    from sumo.threedee.voxelizer import Voxelizer
    import sumo.metrics.mesh_evaluator as ME
    from sumo.semantic.project_object import ProjectObject as PO
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3


def build(seed, nmesh, step=16.0, big=2.0):
    """(meshes, triangles): every triangle with its corners (float32), corner colours."""
    r = np.random.RandomState(seed)
    meshes, tris = [], []
    cell = 0
    for m in range(nmesh):
        nt = r.choice([0, 1, 2, 5]) if nmesh > 1 else r.choice([1, 3, 6])
        V, T = [], []
        for t in range(nt):
            o = np.array([step * cell, step * r.randint(-3, 3), 0.0])
            cell += 1
            k = r.randint(8)
            a, b, c = r.uniform(-big, big, (3, 3))
            if k == 0:
                b, c = a + (b - a) * 1e-3, a + (c - a) * 1e-3
            elif k == 1:
                c = a + (b - a) * r.choice([0.0, 0.5, 1.0, 2.0])
            elif k == 2:
                b = c = a
            elif k == 3:
                a, b, c = np.array([0.0, 0, 0]), np.array([2.0, 0, 0]), np.array([0.0, 1.0, 0])
            T.append([len(V), len(V) + 1, len(V) + 2])
            V += [o + a, o + b, o + c]
        for _ in range(r.randint(3)):
            V.append(np.array([0.5, 0.5, 0.5]))
        perm = r.permutation(len(V))
        P = np.zeros((3, len(V)), np.float32)
        for i, v in enumerate(V):
            P[:, perm[i]] = v
        idx = np.array([perm[i] for t in T for i in t], dtype=np.uint32)
        N = np.zeros_like(P)
        kind = r.randint(4)
        if kind == 0:
            meshes.append(Mesh(idx, P, N))
            col = lambda i: (128.0, 128.0, 128.0)
        else:
            h, w = (0, 0) if kind == 1 else (r.randint(1, 8), r.randint(1, 8))
            tex = r.randint(0, 256, (h, w, 3)).astype(np.uint8)
            uv = r.uniform(-0.5, 1.5, (2, len(V))).astype(np.float32)
            k = r.rand(2, len(V)) < 0.3
            uv[k] = r.choice([0.0, 1.0, 0.5, -1.0, 2.0], int(k.sum()))
            meshes.append(TexturedMesh(idx, P, N, uv, tex, np.zeros((0, 0, 3), np.uint8)))
            if h == 0:
                col = lambda i: (128.0, 128.0, 128.0)
            else:
                def col(i, uv=uv, tex=tex, h=h, w=w):
                    u, v = float(uv[0, i]), float(uv[1, i])
                    return tuple(float(x) for x in tex[math.floor(np.float32(v) * np.float32(h)) % h, math.floor(np.float32(u) * np.float32(w)) % w])
        for t in range(nt):
            ii = idx[3 * t:3 * t + 3]
            tris.append((P[:, ii].T.astype(float), np.array([col(i) for i in ii])))
    return meshes, tris


class Draws:
    """Replaces the uniform random draws by extreme ones."""

    def __init__(self, on, seed):
        self.on = on
        self.r = np.random.RandomState(seed)

    def __enter__(self):
        self.old = np.random.uniform
        if self.on:
            def uniform(low=0.0, high=1.0, size=None):
                v = self.r.choice([0.0, 1 - 2 ** -53, 1e-300, 0.5, 1e-9, 1 - 1e-9, self.r.rand()], size=size)
                return low + (high - low) * v
            np.random.uniform = uniform
        else:
            np.random.seed(self.r.randint(1 << 31))

    def __exit__(self, *a):
        np.random.uniform = self.old


def verify(S, tris, density, step, what, tol):
    require(S.ndim == 2 and S.shape[1] == 6, "%s: result has shape %s", what, S.shape)
    require(np.all(np.isfinite(S)), "%s: result is not finite", what)
    mids = np.array([t[0].mean(0) for t in tris]).reshape(-1, 3)
    require(len(tris) or not len(S), "%s: points without a triangle", what)
    who = np.argmin(np.linalg.norm(mids[None] - S[:, None, :3], axis=2), axis=1) if len(S) else np.zeros(0, int)
    counts = np.bincount(who, minlength=len(tris))
    for k, ((A, B, C), col) in enumerate(tris):
        P, K = S[who == k, :3], S[who == k, 3:]
        e = [B - A, C - A]
        n = np.cross(*e)
        if np.dot(n, n) > 1e-12 * (np.dot(e[0], e[0]) + np.dot(e[1], e[1])) ** 2:
            u, v, w = np.linalg.solve(np.stack([e[0], e[1], n], axis=1), (P - A).T)
            size = np.sqrt(np.dot(n, n)) / max(np.linalg.norm(e[0]), np.linalg.norm(e[1]), np.linalg.norm(B - C))
            require(np.all(np.abs(w) * np.linalg.norm(n) < tol), "%s: a point is off the plane of its triangle %s", what, (A, B, C))
            eps = 10 * tol / size
            ok = (u > -eps) & (v > -eps) & (u + v < 1 + eps)
            require(np.all(ok), "%s: point %s is outside its triangle %s", what, P[~ok][:1], (A, B, C))
            c = np.outer(1 - u - v, col[0]) + np.outer(u, col[1]) + np.outer(v, col[2])
            if eps < 1e-3:
                close(K, c, "%s: colours of the points" % what, atol=1e-2 + 2000 * eps)
        else:
            lo, hi = np.minimum(np.minimum(A, B), C), np.maximum(np.maximum(A, B), C)
            require(np.all(P >= lo - tol) and np.all(P <= hi + tol), "%s: points of a degenerate triangle are off it", what)
        require(np.all(K >= col.min(0) - 1e-3) and np.all(K <= col.max(0) + 1e-3), "%s: colours %s of corners %s", what, K[:3].tolist(), col.tolist())
    for k, ((A, B, C), _) in enumerate(tris):
        x = density * np.linalg.norm(np.cross(A - C, B - C)) / 2
        lo, hi = max(1, math.floor(x - 1e-4 * (1 + x))), max(1, math.floor(x + 1e-4 * (1 + x)))
        require(lo <= counts[k] <= hi, "%s: %d points on a triangle of area times density %s", what, counts[k], x)


def sampler(seed, nmesh, density, extreme):
    meshes, tris = build(seed, nmesh)
    m = GltfModel()
    for x in meshes:
        m.add_mesh(x)
    keep = [(x.indices(), x.vertices()) for x in m.primitive_meshes()]
    with Draws(extreme, seed):
        S = (MS(density) if seed % 2 else MS(sampling_density=density)).run(m)
    verify(S, tris, density, 16.0, "ModelSampler", 1e-4)
    for x, k in zip(m.primitive_meshes(), keep):
        unchanged([x.indices(), x.vertices()], k, "array of the model")
    # the same in room coordinates
    r = np.random.RandomState(seed)
    R, t = rot(r.normal(size=4)), r.uniform(-3, 3, 3)
    o = PO.gen_meshes_object("1", meshes=m, pose=Pose3(Rot3(R.copy()), t.copy()))
    with Draws(extreme, seed + 1):
        S = ME.sample_element(o, density) if density != 625 else ME.sample_element(o)
    require(S.ndim == 2 and S.shape[1] == 6, "sample_element: result has shape %s", S.shape)
    S = np.concatenate([(S[:, :3] - t) @ R, S[:, 3:]], axis=1)
    verify(S, tris, density, 16.0, "sample_element", 2e-4)


def helper(seed, n, d, extreme):
    """The two sampling helpers on their own arrays, with any number of columns to interpolate."""
    r = np.random.RandomState(seed)
    F = np.zeros((3 * n, d))
    for i in range(n):
        o = np.array([16.0 * i, 0, 0])
        F[3 * i:3 * i + 3, :3] = o + r.uniform(-1, 1, (3, 3))
        if r.rand() < 0.2:
            F[3 * i + 1:3 * i + 3, :3] = F[3 * i, :3]
    L = r.normal(size=(3, d - 3))
    F[:, 3:] = F[:, :3] @ L          # linear in the position, so it is on every sample
    keep = F.copy()
    fs = [(getattr(o, n, None), n) for o, n in ((ms, "_sample_mesh"), (ME, "sample_mesh"))]
    for f, what in [x for x in fs if x[0] is not None]:
        with Draws(extreme, seed):
            S = f(F, 50.0)
        require(S.ndim == 2 and S.shape[1] == d, "%s: shape %s for %d columns", what, S.shape, d)
        require(np.array_equal(F, keep), "%s modified its argument", what)
        close(S[:, 3:], S[:, :3] @ L, what + ": interpolated columns", atol=1e-9)
        tris = [(F[3 * i:3 * i + 3, :3], np.zeros((3, 3))) for i in range(n)]
        verify(np.concatenate([S[:, :3], np.zeros((len(S), 3))], axis=1), tris, 50.0, 16.0, what, 1e-9)


def voxels(seed, nmesh, size, density):
    meshes, tris = build(seed, nmesh, 3.0, 1.0)
    m = GltfModel()
    for x in meshes:
        m.add_mesh(x)
    np.random.seed(seed % (1 << 31))
    pts = []
    old = MS.run

    def spy(self, model):
        p = old(self, model)
        pts.append(np.array(p))
        return p
    MS.run = spy
    try:
        g = (Voxelizer(density, size) if seed % 2 else Voxelizer(voxel_size=size, sampling_density=density)).run(m)
    finally:
        MS.run = old
    require(abs(g.voxel_size - size) < 1e-9 * size, "voxel size %s, expected %s", g.voxel_size, size)
    c = g.voxel_centers()
    if not tris:
        require(len(c) == 0, "voxels of an empty model")
        return
    P = np.concatenate([t[0] for t in tris])
    lo, hi = P.min(0), P.max(0)
    require(len(c) > 0, "no voxels")
    require(np.all(g.min_corner >= lo - 1e-6) and np.all(g.min_corner <= hi + 1e-6), "grid starts at %s, surface is in %s..%s", g.min_corner, lo, hi)
    b = g.bounds()
    close(b.min_corner, g.min_corner, "minimum corner of the bounds", atol=1e-6)
    # every voxel centre is within half a diagonal of the surface
    for p in c[:60]:
        d = min(dist(p, *t[0]) for t in tris)
        require(d <= size * 3 ** 0.5 / 2 + 1e-5, "voxel %s is %s from the surface", p, d)
    if pts:
        S = pts[0][:, :3]
        require(len(pts) == 1, "the model was sampled %d times", len(pts))
        same(np.asarray(g.min_corner), S.min(0), "anchor of the grid")
        want = {tuple(x) for x in np.floor((S - S.min(0)) * (1 / size)).astype(int).tolist()}
        got = np.rint((c - S.min(0)) / size - 0.5).astype(int).tolist()
        require(len(got) == len(want) and {tuple(x) for x in got} == want, "voxels do not match the samples")
        require(np.all(b.max_corner >= S.max(0) - 1e-6), "bounds %s do not contain the samples", b.max_corner)


def dist(p, a, b, c):
    n = np.cross(b - a, c - a)
    best = np.inf
    if np.dot(n, n) > 1e-18:
        u, v, w = np.linalg.solve(np.stack([b - a, c - a, n], axis=1), p - a)
        if u >= 0 and v >= 0 and u + v <= 1:
            return abs(w) * np.linalg.norm(n)
    for x, y in ((a, b), (b, c), (c, a)):
        d = y - x
        t = 0 if np.dot(d, d) == 0 else np.clip(np.dot(p - x, d) / np.dot(d, d), 0, 1)
        best = min(best, np.linalg.norm(p - x - t * d))
    return best


CHECKS = {"sampler": sampler, "helper": helper, "voxels": voxels}


def cases(rnd, tier):
    for n in (0, 1, 2, 4):
        for d in (0, 1, 50, 625.0):
            yield "sampler", {"seed": rnd.randrange(1 << 30), "nmesh": n, "density": d, "extreme": False}
            yield "sampler", {"seed": rnd.randrange(1 << 30), "nmesh": n, "density": d, "extreme": True}
    for n in (0, 1, 2, 5):
        for d in (3, 4, 6, 9):
            yield "helper", {"seed": rnd.randrange(1 << 30), "n": n, "d": d, "extreme": d == 4}
    for i in range(5000):
        yield "sampler", {"seed": rnd.randrange(1 << 30), "nmesh": rnd.randrange(5), "density": rnd.choice([0, 0.5, 3, 10, 47.5, 150]), "extreme": rnd.random() < 0.5}
        yield "helper", {"seed": rnd.randrange(1 << 30), "n": rnd.randrange(6), "d": rnd.randint(3, 8), "extreme": rnd.random() < 0.5}
        yield "voxels", {"seed": rnd.randrange(1 << 30), "nmesh": rnd.randrange(4), "size": rnd.choice([0.1, 0.25, 1.0, 3.0]), "density": rnd.choice([10, 100, 625])}
