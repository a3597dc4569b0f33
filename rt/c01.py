MODULES = ["sumo.geometry.inverse_depth"]
import math
from fractions import Fraction

import numpy as np

from common import *

RULE = ("every one of the 65536 codes for each generated near plane (1e-6 .. 1e6 and the default), depths at, just inside and just beyond the near plane, "
        "next to every kind of rounding boundary, zero and infinity, images of many shapes and memory layouts; distinct by content")


def setup():
    global D
    import sumo.geometry.inverse_depth as D
    require(D.PIXEL_MAX == 65535, "PIXEL_MAX")


def check_code(c, d, near, what=""):
    """c is an admissible code of float32 depth d under float32 near."""
    c = int(c)
    if d == 0 or math.isinf(d):
        require(c == 0, "%sdepth %s near %s: code %d, expected 0", what, d, near, c)
        return
    if d <= near:
        require(c == 65535, "%sdepth %s inside near %s: code %d", what, d, near, c)
        return
    x = Fraction(near) * 65535 / Fraction(d)
    tol = Fraction(1, 2) + x * Fraction(1, 2 ** 21) + Fraction(1, 10 ** 6)
    require(0 <= c <= 65535 and abs(c - x) <= tol, "%sdepth %s near %s: code %d, exact value %s", what, d, near, c, float(x))


def f32(x):
    return float(np.float32(x))


def codes(near, cols):
    near = f32(near)
    a = np.arange(65536, dtype=np.uint16)
    img = a.reshape(-1, cols)
    d = D.depth_image_of_inverse_depth_map(img, near)
    require(d.dtype == np.float32 and d.shape == img.shape, "decoded image is %s %s", d.dtype, d.shape)
    flat = d.reshape(-1).astype(float)
    require(np.isinf(flat[0]) and flat[0] > 0, "code 0 decodes to %s", flat[0])
    want = near * 65535.0 / np.arange(1, 65536)
    bad = np.nonzero(~(np.abs(flat[1:] - want) <= want * 3e-7))[0]
    require(bad.size == 0, "near %s: code %s decodes to %s, expected %s", near, bad[:1] + 1, flat[1:][bad[:1]], want[bad[:1]])
    require(abs(flat[65535] - near) <= near * 2e-7, "code 65535 decodes to %s, near is %s", flat[65535], near)
    e = D.inverse_depth_map_of_depth_image(d, near)
    require(e.dtype == np.uint16 and e.shape == img.shape, "encoded image is %s %s", e.dtype, e.shape)
    same(e, img, "encoding the decoded codes, near %s" % near)
    for c in (0, 1, 2, 255, 256, 32767, 32768, 40000, 65534, 65535):
        x = float(D.depth_of_inverse_depth(c, near))
        require(x == flat[c] or x == float(np.float32(flat[c])), "scalar decode of %d is %s, image gives %s", c, x, flat[c])
        require(D.inverse_depth_of_depth(x, near) == c, "scalar round trip of %d near %s", c, near)


def scalar(d, near):
    near, d = f32(near), f32(d)
    c = D.inverse_depth_of_depth(d, near)
    check_code(c, d, near)
    if near == f32(0.3):
        require(D.inverse_depth_of_depth(d) == c, "default near plane")


def order(ds, near):
    near = f32(near)
    ds = sorted(f32(d) for d in ds)
    cs = [D.inverse_depth_of_depth(d, near) for d in ds]
    for i in range(len(ds) - 1):
        require(cs[i + 1] <= cs[i], "depth %s has code %d, larger depth %s has code %d (near %s)", ds[i], cs[i], ds[i + 1], cs[i + 1], near)


def image(h, w, ds, cs, near, layout):
    near = f32(near)
    d = np.resize(np.array(ds, np.float32), (h, w)) if h * w else np.zeros((h, w), np.float32)
    c = np.resize(np.array(cs, np.uint16), (h, w)) if h * w else np.zeros((h, w), np.uint16)
    if layout == "f":
        d, c = np.asfortranarray(d), np.asfortranarray(c)
    elif layout == "strided":
        D2, C2 = np.full((2 * h, 3 * w), 7, np.float32), np.full((2 * h, 3 * w), 9, np.uint16)
        D2[::2, ::3], C2[::2, ::3] = d, c
        d, c = D2[::2, ::3], C2[::2, ::3]
    elif layout == "rev":
        d, c = d[::-1, ::-1], c[::-1, ::-1]
    kd, kc = d.copy(), c.copy()
    e = D.inverse_depth_map_of_depth_image(d, near)
    require(e.dtype == np.uint16, "encoded type %s", e.dtype)
    require(e.shape == (h, w), "encoded shape %s of %s", e.shape, (h, w))
    g = D.depth_image_of_inverse_depth_map(c, near)
    require(g.dtype == np.float32, "decoded type %s", g.dtype)
    require(g.shape == (h, w), "decoded shape %s of %s", g.shape, (h, w))
    for v in range(h):
        for u in range(w):
            check_code(e[v, u], float(kd[v, u]), near, "pixel (%d,%d): " % (v, u))
            require(np.float32(D.depth_of_inverse_depth(int(kc[v, u]), near)) == g[v, u], "pixel (%d,%d) decodes to %s, scalar %s", v, u, g[v, u],
                    D.depth_of_inverse_depth(int(kc[v, u]), near))
            if kc[v, u]:
                x = near * 65535.0 / int(kc[v, u])
                require(abs(float(g[v, u]) - x) <= 3e-7 * x, "pixel (%d,%d) code %d decodes to %s", v, u, kc[v, u], g[v, u])
            else:
                require(np.isinf(g[v, u]), "pixel code 0 decodes to %s", g[v, u])
    same(d, kd, "depth image")
    same(c, kc, "code image")
    if abs(near - f32(0.3)) == 0:
        same(D.inverse_depth_map_of_depth_image(d), e, "default near plane")
        same(D.depth_image_of_inverse_depth_map(c), g, "default near plane")


CHECKS = {"codes": codes, "scalar": scalar, "order": order, "image": image}


def rnear(rnd):
    return rnd.choice([0.3, 0.1, 0.5, 1.0, 2.0, 0.25, rnd.uniform(0.01, 5), 10 ** rnd.uniform(-6, 6)])


def rdepth(rnd, near):
    near = f32(near)
    k = rnd.randrange(9)
    if k == 0:
        return rnd.choice([0.0, float("inf"), near, float(np.nextafter(np.float32(near), np.float32(1e30))), float(np.nextafter(np.float32(near), np.float32(0))),
                           1e-30, 1e30])
    if k == 1:
        return near * rnd.random()
    if k == 2:          # around a rounding boundary
        n = rnd.choice([0, 1, 2, 100, rnd.randrange(65535), 65534])
        return near * 65535 / (n + 0.5) * (1 + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-9, -3))
    if k == 3:
        return near * 65535 * 10 ** rnd.uniform(-1, 3)
    if k == 4:
        return near * 65535 / rnd.randrange(1, 65536)
    if k == 5:
        return near * (1 + rnd.random() * 1e-4)
    return near * 10 ** rnd.uniform(0, 5)


def cases(rnd, tier):
    th = tier == "thorough"
    for near, cols in [(0.3, 256), (1.0, 1), (0.5, 65536)] + [(rnear(rnd), rnd.choice([16, 64, 1024])) for _ in range(60 if th else 6)]:
        yield "codes", {"near": near, "cols": cols}
    for d in (0.0, float("inf"), 0.3, 0.30000004, 0.29, 1.0, 19660.5, 39321.0, 39322.0, 1e9):
        yield "scalar", {"d": d, "near": 0.3}
    for n in range(4000 if th else 400):
        near = rnear(rnd)
        for _ in range(5):
            yield "scalar", {"d": rdepth(rnd, near), "near": near}
        yield "order", {"ds": [x for x in (rdepth(rnd, near) for _ in range(30)) if x > 0], "near": near}
        h, w = rnd.choice([(0, 0), (0, 3), (3, 0), (1, 1), (1, 7), (7, 1), (4, 9), (9, 4), (8, 8)])
        yield "image", {"h": h, "w": w, "ds": [rdepth(rnd, near) for _ in range(h * w + 1)], "cs": [rnd.choice([0, 1, 65535, rnd.randrange(65536)]) for _ in range(h * w + 1)],
                        "near": near, "layout": rnd.choice(["c", "f", "strided", "rev"])}
