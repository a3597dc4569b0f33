"""float32 arithmetic by contract, for the inverse-depth codecs.

Every arithmetic operation and every conversion to float32 is a rounding function of its exact result (one function per place in the
source): within a relative error of 2^-24 (float32; a double operation is nearer still), and monotone.  Conversion of a float32 number to
float32 changes nothing.  Overflow and underflow are left out (assumption)."""
import sys
from fractions import Fraction

import numpy as np

import pyvc
import seq
from load import World
from pyvc import SBool, SInt, SReal, Unsupported, Sym, is_num, lift, ilift, rv, z3
from seq import SArr

U = rv(Fraction(1, 2 ** 24))
INF = z3.Real("infinity")
MODULE = "sumo.geometry.inverse_depth"


def single(x):
    return z3.Function("float32", z3.RealSort(), z3.BoolSort())(x)


class Depths(World):
    def _cast(self, t, x):
        S = pyvc.CUR
        if t == "float32" and isinstance(x, float) and not isinstance(x, Sym):
            if x == float("inf"):
                return SReal(INF)
            return SReal(rv(Fraction(float(np.float32(x)))))
        if t == "float32" and isinstance(x, SReal):
            r = rounding(S, x.e)
            e = z3.If(x.e == INF, INF, z3.If(single(x.e), x.e, r)) if not known(S, x.e) else x.e
            S.axiom(single(e))
            return SReal(e)
        if t in ("uint8", "uint16", "int32", "uint32") and isinstance(x, SReal):
            y = pyvc.m_trunc(x)
            bits = {"uint8": 8, "uint16": 16, "int32": 31, "uint32": 32}[t]
            if S.known(z3.And(y.e >= 0, y.e < 2 ** bits)):
                return y
            S.prove("conversion to %s in range" % t, SBool(z3.And(y.e >= 0, y.e < 2 ** bits)))
            return y
        return World._cast(self, t, x)

    def source(self, name):
        return World.source(self, name)


def known(S, e):
    return e.eq(INF) or e.get_id() in S.memo.setdefault("single", set()) or z3.is_rational_value(e)


def place():
    """the operation of the translated source that is being executed"""
    f, out = sys._getframe(1), "?"
    while f is not None:
        if f.f_code.co_filename.endswith("inverse_depth.pyx"):
            return "%s.%d" % (f.f_code.co_name, f.f_lasti)
        f = f.f_back
    return out


def rounding(S, x):
    if z3.is_rational_value(z3.simplify(x)) and z3.simplify(x).as_fraction().denominator == 1 and abs(z3.simplify(x).as_fraction()) < 2 ** 24:
        return x
    name = "fl@" + place()
    r = z3.Function(name, z3.RealSort(), z3.RealSort())(x)
    S.keep.append(r)
    key = ("fl", r.get_id())
    if key in S.memo:
        return r
    S.memo[key] = True
    S.axiom(z3.Implies(x >= 0, z3.And(r >= x * (1 - U), r <= x * (1 + U))))
    S.axiom(z3.Implies(x <= 0, z3.And(r <= x * (1 - U), r >= x * (1 + U))))
    S.axiom(r < INF)
    if S.lam_depth == 0:
        for y, q in S.memo.get(name, ()):
            S.axiom(z3.And(z3.Implies(x <= y, r <= q), z3.Implies(y <= x, q <= r)))
        S.memo[name] = S.memo.get(name, ()) + ((x, r),)
    return r


def operate(S):
    """arithmetic on numbers, the infinite depth only as a divisor"""
    def go(op, x, y):
        for z in (x, y):
            if z.eq(INF) and not (op == "/" and z is y):
                raise Unsupported("arithmetic with the infinite depth")
        if op == "/":
            if y.eq(INF):
                return SReal(rv(0))
            S.require_nonzero(y)
            q = rounding(S, x / y)
            return SReal(z3.If(y == INF, rv(0), q))
        return SReal(rounding(S, {"+": x + y, "-": x - y, "*": x * y}[op]))
    return go


def number(S, name, zero=False):
    """a float32 number > 0 (>= 0), finite"""
    import math
    x = S.real(name, sampler=lambda r: float(np.float32(math.exp(r.uniform(-4, 4)))))
    S.axiom(x.e >= 0 if zero else x.e > 0)
    finite(S, x.e)
    return x


def finite(S, e):
    S.axiom(e < INF)
    S.axiom(single(e))
    S.keep.append(e)
    S.memo.setdefault("single", set()).add(e.get_id())


def start(S):
    S.rounding = operate(S)
    S.samplers["infinity"] = lambda r: float("inf")
    S.axiom(INF > 2 ** 24)


def check_code(S, what, k, d, n, top):
    """k is an admissible code of the depth d"""
    S.rounding, was = None, S.rounding
    d, n, k = lift(d), lift(n), ilift(k)
    S.prove("%s: no depth and infinite depth have code 0" % what, SBool(z3.Implies(z3.Or(d == 0, d == INF), k == 0)))
    S.prove("%s: depths inside the near plane have the last code" % what, SBool(z3.Implies(z3.And(d > 0, d <= n), k == top)))
    t = z3.ToReal(k) - rv(Fraction(1, 2))
    e = 4 * U
    # | k - top*n/d | <= 1/2 + e * (top*n/d + 1), multiplied by d
    S.prove("%s: other depths have the nearest code" % what,
            SBool(z3.Implies(z3.And(d > n, d != INF), z3.And((z3.ToReal(k) - rv(Fraction(1, 2))) * d <= top * n * (1 + e) + e * d,
                                                             (z3.ToReal(k) + rv(Fraction(1, 2))) * d >= top * n * (1 - e) - e * d))))
    S.prove("%s: codes in range" % what, SBool(z3.And(k >= 0, k <= top)))
    S.rounding = was


def check_depth(S, what, d, c, n, top):
    """d is the depth of the code c, up to float32 rounding"""
    S.rounding, was = None, S.rounding
    d, n, c = lift(d), lift(n), ilift(c)
    S.prove("%s: code 0 is infinitely deep" % what, SBool(z3.Implies(c == 0, d == INF)))
    C = z3.ToReal(c)
    S.prove("%s: depth of a code" % what, SBool(z3.Implies(c > 0, z3.And(d * C <= top * n * (1 + 4 * U), d * C >= top * n * (1 - 4 * U)))))
    S.rounding = was


def depth_image(S, name, shape):
    """an image of float32 depths >= 0, possibly infinite"""
    im = SArr.input(S, name, shape, "real", 0)
    f = im.f

    def at(*ix):
        v = f(*ix)
        S.axiom(v.e <= INF)
        S.axiom(single(v.e))
        S.keep.append(v.e)
        S.memo.setdefault("single", set()).add(v.e.get_id())
        return v
    return SArr(shape, at, "float32")
