MODULES = ["sumo.images.rgbdci_360"]
import ctypes
import math
import os
import shlex
import subprocess
import tempfile

import numpy as np

from common import *

BUDGET = 12
RULE = ("every pixel of images of many sizes (also not cube maps of six square faces), range values (zero, negative, infinite, not a number, tiny, huge), "
        "both all-points settings; CubeMap compiled from the current header at pixel centres, edges, corners and random positions; distinct by content")

CPP = r"""
#include "sumo/images/CubeMap.h"
extern "C" int unproject(unsigned long side, double x, double y, double* out) {
  try {
    sumo::CubeMap m(side);
    Eigen::Vector3d v = m.unproject(Eigen::Vector2d(x, y));
    out[0] = v.x(); out[1] = v.y(); out[2] = v.z();
    return 0;
  } catch (...) { return 1; }
}
extern "C" void dims(unsigned long side, unsigned long* out) {
  sumo::CubeMap m(side); auto s = m.size(); out[0] = s.first; out[1] = s.second;
}
extern "C" void centre(unsigned long r, unsigned long c, double* out) {
  Eigen::Vector2d v = sumo::CubeMap::pixelCoordinates(r, c); out[0] = v.x(); out[1] = v.y();
}
"""


def setup():
    global Rgbdci360, lib
    from sumo.images.rgbdci_360 import Rgbdci360
    d = tempfile.mkdtemp()
    open(d + "/h.cpp", "w").write(CPP)
    src = os.environ["SUMO_SRC"]
    subprocess.run(["g++", "-std=c++14", "-O1", "-shared", "-fPIC", "-I" + src, "-I/usr/include/eigen3", "-I/usr/local/include/eigen3",
                    d + "/h.cpp", "-o", d + "/h.so"], check=True)
    lib = ctypes.CDLL(d + "/h.so")
    lib.unproject.argtypes = [ctypes.c_ulong, ctypes.c_double, ctypes.c_double, ctypes.c_void_p]


def unproject(side, x, y):
    out = (ctypes.c_double * 3)()
    require(lib.unproject(side, x, y, out) == 0, "unproject(%s, %s) of side %s refused", x, y, side)
    return np.array(out)


# independent oracle: (face axis, sign), image right and image down direction, as documented in the figure of CubeMap.h
FACES = [  # centre, right, down
    ((0, 0, -1), (-1, 0, 0), (0, 1, 0)),   # back
    ((-1, 0, 0), (0, 0, 1), (0, 1, 0)),    # left
    ((0, 0, 1), (1, 0, 0), (0, 1, 0)),     # front
    ((1, 0, 0), (0, 0, -1), (0, 1, 0)),    # right
    ((0, -1, 0), (1, 0, 0), (0, 0, 1)),    # up
    ((0, 1, 0), (1, 0, 0), (0, 0, -1)),    # down
]


def expect(side, x, y, face=None):
    f = min(int(x // side), 5) if face is None else face
    c, r, d = [np.array(v, float) for v in FACES[f]]
    return c + r * (2 * (x - f * side) / side - 1) + d * (2 * y / side - 1)


def ray(side, x, y):
    if x >= 6 * side:
        want = expect(side, 0.0, y)
    else:
        want = expect(side, x, y)
    close(unproject(side, x, y), want, "unproject(%s, %s) side %s" % (x, y, side), 1e-9, 1e-9)


def seams(side, t):
    """Faces meet at shared edges (t along the edge)."""
    y = t * side
    e = 1e-9 * side
    for k in (1, 2, 3):
        a, b = unproject(side, k * side - e, y), unproject(side, k * side, y)
        close(a, b, "edge between faces %d and %d at height %s" % (k - 1, k, y), 1e-6, 1e-6)
    close(unproject(side, 4 * side - e, y), unproject(side, 0.0, y), "edge between right and back", 1e-6, 1e-6)
    close(unproject(side, 6 * side, y), unproject(side, 0.0, y), "right image border at height %s" % y)
    x = t * side
    # up face: bottom edge meets front's top edge, etc.
    close(unproject(side, 4 * side + x * (1 - 1e-12), side), unproject(side, 2 * side + x * (1 - 1e-12), 0.0), "up-front edge", 1e-6, 1e-6)
    close(unproject(side, 5 * side + x * (1 - 1e-12), 0.0), unproject(side, 2 * side + x * (1 - 1e-12), side), "down-front edge", 1e-6, 1e-6)
    close(unproject(side, 4 * side + x * (1 - 1e-12), 0.0), unproject(side, (side - x) * (1 - 1e-12), 0.0), "up-back edge", 1e-6, 1e-6)
    close(unproject(side, 5 * side + x * (1 - 1e-12), side), unproject(side, (side - x) * (1 - 1e-12), side), "down-back edge", 1e-6, 1e-6)
    close(unproject(side, 4 * side, y), unproject(side, side + y * (1 - 1e-12), 0.0), "up-left edge", 1e-6, 1e-6)
    close(unproject(side, 5 * side - e, side - y), unproject(side, 3 * side + y * (1 - 1e-12), 0.0), "up-right edge", 1e-6, 1e-6)
    close(unproject(side, 5 * side, side - y), unproject(side, side + y * (1 - 1e-12), side), "down-left edge", 1e-6, 1e-6)
    close(unproject(side, 6 * side - e, y), unproject(side, 3 * side + y * (1 - 1e-12), side), "down-right edge", 1e-6, 1e-6)
    o = (ctypes.c_ulong * 2)()
    lib.dims(ctypes.c_ulong(side), o)
    require(tuple(o) == (6 * side, side), "size() is %s for side %s", tuple(o), side)
    c = (ctypes.c_double * 2)()
    lib.centre(ctypes.c_ulong(side), ctypes.c_ulong(3 * side), c)
    require(tuple(c) == (3 * side + 0.5, side + 0.5), "pixelCoordinates(%s, %s) is %s", side, 3 * side, tuple(c))


SPECIAL = [0.0, np.inf, -1.0, 1e-30, 1e30, 3.4e38, 1e-45, -np.inf, 1.0]


def cloud(seed, side, faces, p_bad, all_points, nan):
    r = np.random.RandomState(seed)
    w = side * faces if faces == int(faces) else max(1, int(side * faces))
    w = int(w)
    rgb = r.randint(0, 256, (side, w, 3)).astype(np.uint8)
    d = np.exp(r.uniform(-3, 5, (side, w))).astype(np.float32)
    bad = r.rand(side, w) < p_bad
    d[bad] = r.choice(SPECIAL + ([np.nan] if nan else []), bad.sum()).astype(np.float32)
    check_cloud(rgb, d, all_points, default=bool(seed % 2))


def raw_cloud(rgb, range, all_points):
    check_cloud(np.array(rgb, np.uint8), np.array(range, np.float32), all_points)


def check_cloud(rgb, d, all_points, default=True):
    side, w = d.shape
    cat, ins = np.zeros((side, w), np.uint16), np.zeros((side, w), np.uint16)
    fz = frozen(rgb, cat, ins)
    keep = d.copy()
    img = Rgbdci360(rgb, d, cat, ins)
    pc = img.create_point_cloud(all_points) if all_points or not default else img.create_point_cloud()
    unchanged([rgb, cat, ins], fz, "image")
    require(np.array_equal(d, keep, equal_nan=True), "range image was modified")
    P, C = pc.points(), pc.colors()
    require(not pc.num_points() or pc.colored(), "cloud has no colours")
    pts, cols = [], []
    valid = []
    for i, j in np.ndindex(side, w):
        v = float(d[i, j])
        if v > 0 and not math.isinf(v):
            dirn = expect(side, j + 0.5, i + 0.5)
            pts.append(dirn / np.linalg.norm(dirn) * v)
            cols.append(rgb[i, j])
            valid.append(v)
        elif all_points:
            pts.append(np.zeros(3))
            cols.append(np.zeros(3, np.uint8))
            valid.append(0.0)
    require(pc.num_points() == len(pts), "%d points, expected %d", pc.num_points(), len(pts))
    require(P.shape == (3, len(pts)) and C.shape == (3, len(pts)), "cloud shapes %s %s", P.shape, C.shape)
    if not pts:
        return
    W = np.array(pts).T
    V = np.array(valid)
    require(np.all(np.abs(P - W) <= 1e-9 * V + 0.0), "points differ from the pixel rays at index %s",
            np.argwhere(~(np.abs(P - W) <= 1e-9 * V))[:1])
    same(C, np.array(cols).T, "colours")


def mismatch(side, dr, dc):
    rgb = np.zeros((side, side * 6, 3), np.uint8)
    d = np.ones((side + dr, side * 6 + dc), np.float32)
    cat, ins = np.zeros((side, side * 6), np.uint16), np.zeros((side, side * 6), np.uint16)
    refuses(lambda: Rgbdci360(rgb, d, cat, ins).create_point_cloud(), Exception, "range image of another size")


CHECKS = {"ray": ray, "seams": seams, "cloud": cloud, "raw_cloud": raw_cloud, "mismatch": mismatch}


def cases(rnd, tier):
    for side in (1, 2, 3, 7, 64, 1024):
        for t in (0.0, 0.25, 0.5, 0.999, 1.0):
            yield "seams", {"side": side, "t": t}
        for f in range(7):
            for y in (0, 0.5, side / 2.0, side - 0.5, side):
                yield "ray", {"side": side, "x": float(f * side), "y": float(y)}
    for dr, dc in ((1, 0), (0, 1), (-1, 0), (0, -1)):
        yield "mismatch", {"side": 2, "dr": dr, "dc": dc}
    for n in range(20000 if tier == "thorough" else 3000):
        side = rnd.choice([1, 2, 3, 4, 5, 8, 13])
        yield "ray", {"side": side, "x": rnd.uniform(0, 6 * side), "y": rnd.uniform(0, side)}
        if n % 4 == 0:
            s = rnd.choice([1, 2, 3, 5, 8, 16])
            yield "cloud", {"seed": rnd.randrange(1 << 30), "side": s, "faces": 6,
                            "p_bad": rnd.choice([0, 0.1, 0.5, 1.0]), "all_points": rnd.random() < 0.5, "nan": rnd.random() < 0.5}
