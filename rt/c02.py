MODULES = ["sumo.geometry.inverse_depth"]
import math
from fractions import Fraction

import numpy as np

from common import *
from c01 import f32, rnear, rdepth

RULE = ("every one of the 256 codes for each generated near plane (default, and 1e-4 .. 1e4), depths around every rounding boundary, upgrades of every code, "
        "images of many shapes and memory layouts; distinct by content")


def setup():
    global D
    import sumo.geometry.inverse_depth as D


def check8(c, d, near, what=""):
    c = int(c)
    if d == 0 or math.isinf(d):
        require(c == 0, "%sdepth %s near %s: 8-bit code %d, expected 0", what, d, near, c)
    elif d <= near:
        require(c == 255, "%sdepth %s inside near %s: 8-bit code %d", what, d, near, c)
    else:
        x = Fraction(near) * 255 / Fraction(d)
        require(0 <= c <= 255 and abs(c - x) <= Fraction(1, 2) + x / 2 ** 21 + Fraction(1, 10 ** 6), "%sdepth %s near %s: 8-bit code %d, exact %s", what, d, near, c, float(x))


def up(c8, c16, near, what=""):
    """c16 is the 16-bit code, under the default near plane, of legacy code c8."""
    c8, c16 = int(c8), int(c16)
    if c8 == 0:
        require(c16 == 0, "%slegacy code 0 becomes %d", what, c16)
        return
    x = min(Fraction(3, 10) * c8 * 65535 / (Fraction(near) * 255), Fraction(65535))
    require(0 <= c16 <= 65535 and abs(c16 - x) <= Fraction(1, 2) + x / 2 ** 20 + Fraction(1, 10 ** 6),
            "%slegacy code %d near %s becomes %d, same depth has code %s", what, c8, near, c16, float(x))


def codes(near):
    n32 = f32(near)
    img = np.arange(256, dtype=np.uint8).reshape(8, 32)
    d = D.depth_image_of_uint8_inverse_depth_map(img, near)
    require(d.dtype == np.float32 and d.shape == (8, 32), "decoded image %s %s", d.dtype, d.shape)
    for c in range(256):
        v, u = divmod(c, 32)
        x = float(D.depth_of_uint8_inverse_depth(c, near))
        for y in (x, float(d[v, u])):
            if c == 0:
                require(math.isinf(y) and y > 0, "legacy code 0 decodes to %s", y)
            else:
                w = near * 255.0 / c
                require(abs(y - w) <= 3e-7 * w, "legacy code %d near %s decodes to %s, expected %s", c, near, y, w)
        e = D.uint8_inverse_depth_of_depth(x, near)
        check8(e, f32(x), n32, "decoded code %d: " % c)
        require(e == c, "encoding decoded legacy code %d gives %d", c, e)
        up(c, D.inverse_depth_from_uint8(c, near), near)
    e = D.uint8_inverse_depth_map_of_depth_image(d, near)
    require(e.dtype == np.uint8, "encoded type %s", e.dtype)
    same(e, img, "image round trip")
    g = D.uint16_of_uint8_inverse_depth_map(img, near)
    require(g.dtype == np.uint16 and g.shape == img.shape, "upgraded image %s %s", g.dtype, g.shape)
    for c in range(256):
        up(c, g[c // 32, c % 32], near, "image: ")


def scalar(d, near):
    d, near = f32(d), f32(near)
    check8(D.uint8_inverse_depth_of_depth(d, near), d, near)


def image(h, w, ds, cs, near, layout):
    near = f32(near)
    d = np.resize(np.array(ds, np.float32), (h, w)) if h * w else np.zeros((h, w), np.float32)
    c = np.resize(np.array(cs, np.uint8), (h, w)) if h * w else np.zeros((h, w), np.uint8)
    if layout == "f":
        d, c = np.asfortranarray(d), np.asfortranarray(c)
    elif layout == "strided":
        D2, C2 = np.full((2 * h, 3 * w), 7, np.float32), np.full((2 * h, 3 * w), 9, np.uint8)
        D2[::2, ::3], C2[::2, ::3] = d, c
        d, c = D2[::2, ::3], C2[::2, ::3]
    elif layout == "rev":
        d, c = d[::-1, ::-1], c[::-1, ::-1]
    kd, kc = d.copy(), c.copy()
    e = D.uint8_inverse_depth_map_of_depth_image(d, near)
    g = D.depth_image_of_uint8_inverse_depth_map(c, near)
    k = D.uint16_of_uint8_inverse_depth_map(c, near)
    for r, t, n in ((e, np.uint8, "encoded"), (g, np.float32, "decoded"), (k, np.uint16, "upgraded")):
        require(r.dtype == t and r.shape == (h, w), "%s image is %s %s, expected %s %s", n, r.dtype, r.shape, np.dtype(t), (h, w))
    for v in range(h):
        for u in range(w):
            at = "pixel (%d,%d): " % (v, u)
            check8(e[v, u], float(kd[v, u]), near, at)
            up(kc[v, u], k[v, u], near, at)
            if kc[v, u]:
                x = near * 255.0 / int(kc[v, u])
                require(abs(float(g[v, u]) - x) <= 3e-7 * x, "%scode %d decodes to %s", at, kc[v, u], g[v, u])
            else:
                require(np.isinf(g[v, u]), "%scode 0 decodes to %s", at, g[v, u])
    same(d, kd, "depth image")
    same(c, kc, "code image")
    if near == f32(0.3):
        same(D.uint8_inverse_depth_map_of_depth_image(d), e, "default near plane (encode)")
        close(D.depth_image_of_uint8_inverse_depth_map(c), g, "default near plane (decode)", rtol=1e-6)
        for v in range(h):
            for u in range(w):
                up(kc[v, u], D.uint16_of_uint8_inverse_depth_map(c)[v, u], 0.3, "default near plane: ")


CHECKS = {"codes": codes, "scalar": scalar, "image": image}


def cases(rnd, tier):
    th = tier == "thorough"
    for near in [0.3, 1.0, 0.1, 0.5] + [10 ** rnd.uniform(-4, 4) for _ in range(300 if th else 30)]:
        yield "codes", {"near": near}
    for n in range(4000 if th else 400):
        near = rnear(rnd)
        for _ in range(5):
            d = rdepth(rnd, near)
            if rnd.random() < 0.4:
                d = near * 255 / (rnd.randrange(256) + 0.5) * (1 + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-6, -2))
            yield "scalar", {"d": d, "near": near}
        h, w = rnd.choice([(0, 0), (0, 3), (3, 0), (1, 1), (1, 7), (7, 1), (4, 9), (9, 4)])
        yield "image", {"h": h, "w": w, "ds": [rdepth(rnd, near) for _ in range(h * w + 1)], "cs": [rnd.choice([0, 1, 255, rnd.randrange(256)]) for _ in range(h * w + 1)],
                        "near": near, "layout": rnd.choice(["c", "f", "strided", "rev"])}
