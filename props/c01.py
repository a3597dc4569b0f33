"""C01 16-bit inverse depth."""
import z3 as _z3

import pyvc
from pyvc import SBool, SInt, SReal, z3, ilift, lift
from seq import SArr, in_range
from meshlib import zand
from depthlib import Depths, MODULE, INF, single, start, number, finite, check_code, check_depth, depth_image

TOP = 65535


def f(v, k, default):
    try:
        x = float(v.get(k, default))
        return x if 1e-6 < x < 1e6 else default
    except Exception:
        return default


def prove(V):
    W = Depths(V)
    M = W.load(MODULE)
    M.INFINITY = float("inf")
    V.trust("float32 and double arithmetic: every operation rounds monotonically with a relative error of at most 2^-24")
    V.assume("no overflow and no underflow (depths and near planes, and their products with 65535, are normal float32 numbers)", "sides of images fit 32 bits")

    def depths(v):
        n = f(v, "near", 0.3)
        return {"check": "image", "args": {"h": 1, "w": 4, "ds": [f(v, "depth", 1.0), n, n * 1.5, n * 0.5], "cs": [0, 1, 30000, 65535], "near": n, "layout": "c"}}

    def codes(v):
        return {"check": "codes", "args": {"near": f(v, "near", 0.3), "cols": 256}}

    def order(v):
        n = f(v, "near", 0.3)
        return {"check": "order", "args": {"ds": [f(v, "depth", 1.0), f(v, "deeper", 2.0), n, n * 3, n * 3.0001], "near": n}}

    def encode(S):
        start(S)
        d, n = number(S, "depth", True), number(S, "near")
        check_code(S, "code", M.inverse_depth_of_depth(d, n), d, n, TOP)

    def infinite(S):
        start(S)
        n = number(S, "near")
        S.prove("infinite depth has code 0", pyvc.eq(M.inverse_depth_of_depth(float("inf"), n), 0))
    V.forall("encoding", "inverse_depth_of_depth", encode, depths)
    V.forall("encoding infinity", "inverse_depth_of_depth", infinite, depths)

    def decode(S):
        start(S)
        n = number(S, "near")
        c = S.int("code", 0, TOP)
        d = M.depth_of_inverse_depth(c, n)
        check_depth(S, "decoding", d, c, n, TOP)
        S.prove("round trip", pyvc.eq(M.inverse_depth_of_depth(d, n), c))
    V.forall("decoding and encoding again", ["depth_of_inverse_depth", "inverse_depth_of_depth"], decode, codes)

    def monotone(S):
        start(S)
        a, b, n = number(S, "depth"), number(S, "deeper"), number(S, "near")
        S.axiom(a.e <= b.e)
        j, k = M.inverse_depth_of_depth(a, n), M.inverse_depth_of_depth(b, n)
        S.prove("a larger depth has no larger code", SBool(ilift(k) <= ilift(j)))
    V.forall("order of codes", "inverse_depth_of_depth", monotone, order)

    def images(S):
        start(S)
        n = number(S, "near")
        h, w = S.int("height", 0, sampler=lambda r: 2), S.int("width", 0, sampler=lambda r: 2)
        S.axiom(z3.And(h.e < 2 ** 31, w.e < 2 ** 31))
        y, x = SInt(S.fresh_int("y")), SInt(S.fresh_int("x"))
        S.axiom(z3.And(in_range(y, h), in_range(x, w)))
        im = depth_image(S, "image", (h, w))
        keep = im.f
        out = M.inverse_depth_map_of_depth_image(im, n)
        S.prove("code image of the same size", zand(out.ndim == 2, pyvc.eq(out.shape[0], h), pyvc.eq(out.shape[1], w), str(out.dtype) == "uint16"))
        check_code(S, "pixel", out.f(y, x), im.f(y, x), n, TOP)
        S.prove("the depth image is unchanged", im.f is keep)
        cs = SArr.input(S, "codes", (h, w), "int", 0, TOP)
        keep = cs.f
        out = M.depth_image_of_inverse_depth_map(cs, n)
        S.prove("depth image of the same size", zand(out.ndim == 2, pyvc.eq(out.shape[0], h), pyvc.eq(out.shape[1], w), str(out.dtype) == "float32"))
        check_depth(S, "decoded pixel", out.f(y, x), cs.f(y, x), n, TOP)
        S.prove("the code image is unchanged", cs.f is keep)
    V.forall("images", ["inverse_depth_map_of_depth_image", "depth_image_of_inverse_depth_map"], images, depths)
