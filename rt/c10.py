MODULES = ["sumo.base.vector", "sumo.opencv.wrap", "sumo.threedee.mesh", "sumo.threedee.textured_mesh", "sumo.threedee.box_3d"]
BUDGET = 12
import math
import os
import tempfile
from fractions import Fraction

import numpy as np

from common import *

RULE = ("histories of 1-8 insertions (empty, single, repeated, growing and shrinking extents, points on cell borders and on the minimum corner, refused batches) "
        "with save/load at random places, dyadic and decimal voxel sizes, positive and negative minimum corners, float32 and float64 points, far-away "
        "points; distinct by content")


def setup():
    global VoxelGrid
    from sumo.threedee.voxel_grid import VoxelGrid


def cells_of(P, mc, size):
    """(admissible cell sets per point): exact cell, plus the neighbour when within rounding of a border."""
    out = []
    for p in P:
        opts = [[]]
        for k in range(3):
            x = (Fraction(float(p[k])) - Fraction(float(mc[k]))) / Fraction(float(size))
            f = math.floor(x)
            tol = max(1, abs(x)) * Fraction(1, 10 ** 6 if P.dtype == np.float32 else 10 ** 9)
            c = {f}
            if not dyadic(size):
                if x - f < tol:
                    c.add(f - 1)
                if f + 1 - x < tol:
                    c.add(f + 1)
            opts = [o + [v] for o in opts for v in c]
        out.append(set(map(tuple, opts)))
    return out


def dyadic(x):
    return math.log2(x) == int(math.log2(x))


def occupied(g, size, mc):
    c = g.voxel_centers()
    require(c.ndim == 2 and c.shape[1] == 3, "voxel_centers has shape %s", c.shape)
    x = (c - mc) / size - 0.5
    r = np.rint(x)
    require(np.all(np.abs(x - r) < 1e-3 * np.maximum(1, 1e-4 * np.abs(x))), "voxel centres are not half a voxel inside their cells: %s", short(x))
    s = [tuple(int(v) for v in q) for q in r]
    require(len(set(s)) == len(s), "duplicate voxels")
    return set(s)


def history(size, mc, mctype, ops, init):
    mc = np.array(mc, np.float32 if mctype == "f4" else float)
    want = []          # admissible cells of every point
    pts = []
    kinds = []
    mk = mc.copy()
    if init is not None:
        P = np.array(init[0], init[1]).reshape(-1, 3)
        g = VoxelGrid(size, mc, P)
        want += cells_of(P, mc, size)
        pts += P.tolist()
    else:
        g = VoxelGrid(size, mc)
    with tempfile.TemporaryDirectory() as t:
        for n, (op, data, kind) in enumerate(ops):
            if op == "add":
                P = np.array(data, kind).reshape(-1, 3)
                K = P.copy()
                w = cells_of(P, mc, size)
                if any(all(min(c) < 0 for c in o) for o in w):
                    before = occupied(g, size, mc)
                    refuses(lambda: g.add_points(P), ValueError, "a batch with a point below the minimum corner")
                    require(occupied(g, size, mc) == before, "a refused batch changed the grid")
                    continue
                if any(any(min(c) < 0 for c in o) for o in w):
                    continue
                g.add_points(P)
                same(P, K, "points argument")
                want += w
                pts += P.tolist()
            elif op == "reload":
                f = os.path.join(t, "g%d.h5" % n)
                g.save(f)
                old = g
                g = VoxelGrid.from_file(f)
                require(np.isclose(g.voxel_size, old.voxel_size, rtol=1e-12, atol=0), "voxel size %s loaded as %s", old.voxel_size, g.voxel_size)
                close(np.array(g.min_corner, float), np.array(mc, float), "loaded minimum corner", rtol=1e-7)
                require(occupied(g, size, mc) == occupied(old, size, mc), "loaded grid has other voxels")
            got = occupied(g, size, mc)
            check(got, want, n, op)
            if got:
                c = np.array(sorted(got), float)
                b = g.bounds()
                lo, hi = np.array(mc, float) + c.min(axis=0) * size, np.array(mc, float) + (c.max(axis=0) + 1) * size
                s = 1e-5 * max(1.0, float(np.abs([lo, hi]).max()))
                close(b.min_corner, lo, "bounds min corner", rtol=0, atol=s)
                close(b.max_corner, hi, "bounds max corner", rtol=0, atol=s)
                ctr = g.voxel_centers()
                A = np.array(pts, float).reshape(-1, 3)
                for p in A[:: max(1, len(A) // 20)]:
                    d = np.abs(ctr - p).max(axis=1).min()
                    require(d <= size / 2 * (1 + 1e-5) + s * 1e-1, "point %s is %s from the nearest voxel centre (size %s)", p, d, size)
            require(abs(g.voxel_size - size) <= 1e-12 * size, "voxel size %s, expected %s", g.voxel_size, size)
            close(np.array(g.min_corner, float), np.array(mc, float), "min corner", rtol=1e-7)
    same(mc, mk, "minimum corner argument")


def check(got, want, n, op):
    sure = {next(iter(o)) for o in want if len(o) == 1}
    all_ = set().union(*want) if want else set()
    require(sure <= got, "after step %d (%s): voxel %s is missing", n, op, sorted(sure - got)[:3])
    require(got <= all_, "after step %d (%s): voxel %s was never hit", n, op, sorted(got - all_)[:3])
    for o in want:
        require(o & got, "after step %d (%s): no voxel for a point in %s", n, op, sorted(o))


def sizes(size):
    refuses(lambda: VoxelGrid(size), ValueError, "voxel size %s" % size)
    refuses(lambda: VoxelGrid(voxel_size=size, min_corner=np.zeros(3), points=np.zeros((1, 3))), ValueError, "voxel size %s" % size)


def files(kind, data):
    g = VoxelGrid(0.5, np.zeros(3), np.array(data, float).reshape(-1, 3))
    before = occupied(g, 0.5, np.zeros(3))
    with tempfile.TemporaryDirectory() as t:
        if kind == "nodir":
            refuses(lambda: g.save(os.path.join(t, "no", "g.h5")), IOError, "save into a missing folder")
        elif kind == "isdir":
            refuses(lambda: g.save(t), IOError, "save onto a folder")
        elif kind == "missing":
            refuses(lambda: VoxelGrid.from_file(os.path.join(t, "no.h5")), IOError, "load of a missing file")
            refuses(lambda: g.load(os.path.join(t, "no.h5")), IOError, "load of a missing file")
        else:
            p = os.path.join(t, "x.h5")
            g.save(p)
            b = open(p, "rb").read()
            open(p, "wb").write(b"not a voxel file" if kind == "text" else b"" if kind == "empty" else b[:100])
            refuses(lambda: VoxelGrid.from_file(p), IOError, "load of a damaged file (%s)" % kind)
            refuses(lambda: g.load(p), IOError, "load of a damaged file (%s)" % kind)
    if kind in ("nodir", "isdir"):
        require(occupied(g, 0.5, np.zeros(3)) == before, "a failed save changed the grid")


CHECKS = {"history": history, "sizes": sizes, "files": files}


def batch(rnd, size, mc, big):
    n = rnd.choice([0, 1, 1, 2, 5, 30])
    ext = rnd.choice([0.9, 2, 5, 20] + ([3000, 20000] if big else []))
    axis = rnd.randrange(5)
    out = []
    for _ in range(n):
        e = [ext] * 3
        if axis < 3:
            e[axis] *= rnd.choice([0.0, 0.1, 10])
        p = []
        for k in range(3):
            u = rnd.random() * e[k]
            if rnd.random() < 0.3:
                u = float(int(u))          # on a cell border
            elif rnd.random() < 0.3:
                u = int(u) + 0.5
            p.append(mc[k] + u * size)
        out.append(p)
    if out and rnd.random() < 0.3:
        out += [rnd.choice(out) for _ in range(3)]
    return out


def cases(rnd, tier):
    for size in (0, 0.0, -1, -0.5, -1e-9):
        yield "sizes", {"size": size}
    for kind in ("nodir", "isdir", "missing", "text", "empty", "cut"):
        yield "files", {"kind": kind, "data": [[0.1, 0.2, 3.0], [5.0, 5.0, 0.1]]}
    yield "history", {"size": 1.0, "mc": [0.0, 0.0, 0.0], "mctype": "f8", "ops": [["add", [], "float64"], ["reload", None, None], ["add", [[0.5, 0.5, 0.5]], "float64"], ["reload", None, None]], "init": None}
    for n in range(20000 if tier == "thorough" else 2500):
        d = rnd.random() < 0.6
        size = 2.0 ** rnd.randint(-4, 3) if d else rnd.choice([0.1, 0.3, 0.7, 1.1, rnd.uniform(0.01, 3)])
        mc = [float(rnd.randint(-8, 8)) * rnd.choice([1.0, 0.5, 0.25]) for _ in range(3)]
        big = rnd.random() < 0.2
        ops = []
        for _ in range(rnd.choice([1, 2, 3, 8])):
            if rnd.random() < 0.25:
                ops.append(["reload", None, None])
            b = batch(rnd, size, mc, big)
            if b and rnd.random() < 0.15:
                k = rnd.randrange(3)
                b[rnd.randrange(len(b))][k] = mc[k] - size * rnd.choice([0.01, 0.5, 1, 3.3])
            ops.append(["add", b, rnd.choice(["float64", "float64", "float32"]) if d else "float64"])
        adds = [o for o in ops if o[0] == "add" and o[1]]
        if adds and rnd.random() < 0.4:
            ops.append(["add", rnd.choice(adds)[1], "float64"])
        init = None
        if rnd.random() < 0.4:
            b = batch(rnd, size, mc, big)
            init = [b, "float64"]
        yield "history", {"size": size, "mc": mc, "mctype": rnd.choice(["f8", "f4"]), "ops": ops, "init": init}
