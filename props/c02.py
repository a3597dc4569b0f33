"""C02 legacy 8-bit inverse depth."""
from fractions import Fraction

import pyvc
from pyvc import SBool, SInt, z3, ilift, lift, rv
from seq import SArr, in_range
from meshlib import zand
from depthlib import Depths, MODULE, INF, U, start, number, check_code, check_depth, depth_image
from c01 import f

TOP = 255


def check_upgrade(S, what, k, c, n):
    """k is the 16-bit code, under the default near plane 0.3, of the depth of the legacy code c"""
    S.rounding, was = None, S.rounding
    k, c, n = ilift(k), ilift(c), lift(n)
    S.prove("%s: 0 stays 0" % what, SBool(z3.Implies(c == 0, k == 0)))
    S.prove("%s: codes in range" % what, SBool(z3.And(k >= 0, k <= 65535)))
    K, C, e, top = z3.ToReal(k), z3.ToReal(c), 8 * U, rv(Fraction(3, 10) * 65535)
    S.prove("%s: code of the same depth" % what,
            SBool(z3.Implies(c > 0, z3.And((K - rv(Fraction(1, 2))) * n * TOP <= top * C * (1 + e) + e * n * TOP,
                                           z3.Or(k == 65535, (K + rv(Fraction(1, 2))) * n * TOP >= top * C * (1 - e) - e * n * TOP)))))
    # the last code: only depths inside (or within half a step of) the near plane
    S.rounding = was


def prove(V):
    W = Depths(V)
    M = W.load(MODULE)
    M.INFINITY = float("inf")
    V.trust("float32 and double arithmetic: every operation rounds monotonically with a relative error of at most 2^-24")
    V.assume("no overflow and no underflow (depths and near planes, and their products with 65535, are normal float32 numbers)", "sides of images fit 32 bits")

    def image(v):
        n = f(v, "near", 0.3)
        return {"check": "image", "args": {"h": 1, "w": 4, "ds": [f(v, "depth", 1.0), n, n * 1.5, n * 0.5], "cs": [0, 1, 30, 255], "near": n, "layout": "c"}}

    def codes(v):
        return {"check": "codes", "args": {"near": f(v, "near", 0.3)}}

    def encode(S):
        start(S)
        d, n = number(S, "depth", True), number(S, "near")
        check_code(S, "code", M.uint8_inverse_depth_of_depth(d, n), d, n, TOP)

    def infinite(S):
        start(S)
        n = number(S, "near")
        S.prove("infinite depth has code 0", pyvc.eq(M.uint8_inverse_depth_of_depth(float("inf"), n), 0))
    V.forall("encoding", "uint8_inverse_depth_of_depth", encode, image)
    V.forall("encoding infinity", "uint8_inverse_depth_of_depth", infinite, image)

    def decode(S):
        start(S)
        n = number(S, "near")
        c = S.int("code", 0, TOP)
        check_depth(S, "decoding", M.depth_of_uint8_inverse_depth(c, n), c, n, TOP)
    V.forall("decoding", "depth_of_uint8_inverse_depth", decode, codes)

    def upgrade(S):
        start(S)
        n = number(S, "near")
        c = S.int("code", 0, TOP)
        check_upgrade(S, "upgrade", M.inverse_depth_from_uint8(c, n), c, n)
        check_upgrade(S, "upgrade, default near plane", M.inverse_depth_from_uint8(c), c, pyvc.SReal(rv(Fraction(3, 10))))
    V.forall("upgrading", ["inverse_depth_from_uint8", "depth_of_uint8_inverse_depth", "inverse_depth_of_depth"], upgrade, codes)

    def images(S):
        start(S)
        n = number(S, "near")
        h, w = S.int("height", 0, sampler=lambda r: 2), S.int("width", 0, sampler=lambda r: 2)
        S.axiom(z3.And(h.e < 2 ** 31, w.e < 2 ** 31))
        y, x = SInt(S.fresh_int("y")), SInt(S.fresh_int("x"))
        S.axiom(z3.And(in_range(y, h), in_range(x, w)))

        def size(what, out, t):
            S.prove("%s image of the same size" % what, zand(out.ndim == 2, pyvc.eq(out.shape[0], h), pyvc.eq(out.shape[1], w), str(out.dtype) == t))
        im = depth_image(S, "image", (h, w))
        keep = im.f
        out = M.uint8_inverse_depth_map_of_depth_image(im, n)
        size("code", out, "uint8")
        check_code(S, "pixel", out.f(y, x), im.f(y, x), n, TOP)
        S.prove("the depth image is unchanged", im.f is keep)
        cs = SArr.input(S, "codes", (h, w), "int", 0, TOP)
        keep = cs.f
        out = M.depth_image_of_uint8_inverse_depth_map(cs, n)
        size("depth", out, "float32")
        check_depth(S, "decoded pixel", out.f(y, x), cs.f(y, x), n, TOP)
        out = M.uint16_of_uint8_inverse_depth_map(cs, n)
        size("upgraded", out, "uint16")
        check_upgrade(S, "upgraded pixel", out.f(y, x), cs.f(y, x), n)
        S.prove("the code image is unchanged", cs.f is keep)
    V.forall("images", ["uint8_inverse_depth_map_of_depth_image", "depth_image_of_uint8_inverse_depth_map", "uint16_of_uint8_inverse_depth_map"], images, image)
