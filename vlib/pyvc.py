"""pyvc: verification-condition generation by symbolic execution of the real code.

The functions under contract are loaded from the current /repo source (see
frontends) and executed by CPython on symbolic values.  Every branch on a
symbolic condition forks; all feasible paths are explored; callees outside the
function under contract are replaced by their contracts; loops over sequences
of unknown length are replaced by their summary, computed from one generic
iteration (see seq.py).  Postconditions become obligations `path condition =>
post`, discharged by exact polynomial normal forms (ring), z3, or cvc5.
"""
import operator
import math as _math
import os
import re
import random
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as _np
import operator
import z3

from poly import Ring, TooBig
import poly as _poly

Z3_TIMEOUT = int(os.environ.get("PYVC_TIMEOUT_MS", "8000"))
BRANCH_TIMEOUT = 1500


class Unsupported(Exception):
    """The code left the subset the engine can execute symbolically."""


class EndPath(BaseException):
    """Path abandoned (infeasible assumption)."""


class Refuted(Exception):
    pass


CUR = None          # current Run


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a run")
    return CUR


# ---------------------------------------------------------------------------
# symbolic scalars

def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    f = float(x)
    if _math.isnan(f) or _math.isinf(f):
        raise Unsupported("non-finite constant in arithmetic")
    if f == int(f):
        return Fraction(int(f))
    if isinstance(x, _np.float32):
        return Fraction(str(x))
    return Fraction(repr(f))


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, bool, _np.bool_))


def is_sym(x):
    return isinstance(x, Sym)


def is_inf(x):
    return isinstance(x, (float, _np.floating)) and _math.isinf(x)


def rv(x):
    f = frac(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def lift(x):
    """z3 real expression of a number or symbolic number."""
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SInt):
        return z3.ToReal(x.e)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if is_num(x):
        return rv(x)
    if isinstance(x, _np.ndarray) and x.shape == ():
        return lift(x.item())
    raise Unsupported("cannot lift %r" % type(x))


def ilift(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (int, _np.integer, bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    raise Unsupported("cannot lift %r to int" % type(x))


def is_inty(x):
    return isinstance(x, (SInt, int, _np.integer, bool, _np.bool_, SBool))


class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, str(self.e)[:200])

    def __hash__(self):
        return self.e.hash()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _arr(o):
    return isinstance(o, (_np.ndarray, list, tuple)) or hasattr(o, "_is_sarr")


class SNum(Sym):
    __slots__ = ()

    def _bin(self, o, op, rop=False):
        if hasattr(o, "_is_sarr"):
            return NotImplemented
        if isinstance(o, _np.ndarray):
            if o.shape == ():
                o = o.item()
            else:
                out = _np.empty(o.shape, dtype=object)
                for ix in _np.ndindex(*o.shape):
                    out[ix] = arith(op, o[ix], self) if rop else arith(op, self, o[ix])
                return out.view(A)
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        a, b = (o, self) if rop else (self, o)
        return arith(op, a, b)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __rfloordiv__(self, o): return self._bin(o, "//", True)
    def __mod__(self, o): return self._bin(o, "%")
    def __rmod__(self, o): return self._bin(o, "%", True)
    def __divmod__(self, o): return (self._bin(o, "//"), self._bin(o, "%"))
    def __rdivmod__(self, o): return (self._bin(o, "//", True), self._bin(o, "%", True))
    def __pow__(self, o): return self._bin(o, "**")
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    __hash__ = Sym.__hash__

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        # branch-free |x|
        if isinstance(self, SInt):
            return SInt(z3.If(self.e >= 0, self.e, -self.e))
        c = decide_quick(self.e >= 0)
        if c is True:
            return self
        if c is False:
            return -self
        return ite(self >= 0, self, -self)

    def __bool__(self):
        return cur().fork(self.e != 0)

    # numpy object-ufunc fall-backs
    def sqrt(self): return m_sqrt(self)
    def sin(self): return m_sin(self)
    def cos(self): return m_cos(self)
    def arccos(self): return m_acos(self)
    def arcsin(self): return m_asin(self)
    def floor(self): return m_floor(self)
    def ceil(self): return m_ceil(self)
    def rint(self): return m_floor(self + Fraction(1, 2))
    def exp(self): return m_exp(self)
    def conjugate(self): return self
    def isnan(self): return False
    def isinf(self): return False
    def isfinite(self): return True
    def fabs(self): return abs(self)
    def item(self): return self
    def copy(self): return self
    @property
    def real(self): return self
    @property
    def dtype(self): return _np.dtype(float)
    shape = ()
    ndim = 0


class SReal(SNum):
    __slots__ = ()

    def __str__(self):
        return CUR.text_of(self) if CUR is not None else repr(self)

    def __format__(self, spec):
        if spec:
            raise Unsupported("format of a symbolic number with a specification")
        return str(self)

    def __float__(self):
        c = cur().ring.constant(self.e)
        if c is not None:
            return float(c)
        raise Unsupported("concretisation of a symbolic real")

    def __int__(self):
        c = cur().ring.constant(self.e)
        if c is not None:
            return int(c)
        raise Unsupported("int() of a symbolic real")

    def __round__(self, n=None):
        raise Unsupported("round")

    def __trunc__(self):
        return m_trunc(self)

    def astype(self, t):
        return cast(self, t)


class SInt(SNum):
    __slots__ = ()

    def __int__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("int() of a symbolic int")

    def __index__(self):
        return int(self)

    def __float__(self):
        return float(int(self))

    def __invert__(self):
        return SInt(-self.e - 1)

    def __and__(self, o): return bitop("&", self, o)
    __rand__ = __and__
    def __or__(self, o): return bitop("|", self, o)
    __ror__ = __or__

    def astype(self, t):
        return cast(self, t)

    @property
    def dtype(self): return _np.dtype("int64")


class SBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return cur().fork(self.e)

    def __and__(self, o): return SBool(z3.And(self.e, blift(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.e, blift(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(z3.Not(self.e))
    def __xor__(self, o): return SBool(z3.Xor(self.e, blift(o)))
    def __eq__(self, o): return SBool(self.e == blift(o))
    def __ne__(self, o): return SBool(self.e != blift(o))
    def __add__(self, o): return SInt(ilift(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return SInt(ilift(self)) * o
    __rmul__ = __mul__
    def __int__(self): return 1 if bool(self) else 0
    __hash__ = Sym.__hash__
    def all(self): return self
    def any(self): return self
    def item(self): return self
    def logical_not(self): return ~self
    def logical_and(self, o): return self & o
    def logical_or(self, o): return self | o


def blift(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SNum):
        return x.e != 0
    if is_num(x):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, _np.ndarray):
        return z3.And(*[blift(y) for y in x.reshape(-1).tolist()]) if x.size else z3.BoolVal(True)
    raise Unsupported("cannot lift %r to bool" % type(x))


def mk(e):
    return SInt(e) if z3.is_int(e) else SReal(e)


def bitop(op, a, b):
    # only  x & ~(2^k-1)  and  x & (2^k-1)  occur in the code under contract
    if op == "&" and isinstance(b, (int, _np.integer)):
        m = ~int(b)
        if int(b) >= 0 and (int(b) & (int(b) + 1)) == 0:
            return arith("%", a, int(b) + 1)
        if m >= 0 and (m & (m + 1)) == 0:
            return a - arith("%", a, m + 1)
    raise Unsupported("bit operation")


def arith(op, a, b):
    for x in (a, b):
        if is_inf(x):
            o = b if x is a else a
            if op == "/" and x is b:
                return SReal(z3.RealVal(0))
            raise Unsupported("infinity in arithmetic")
    inty = is_inty(a) and is_inty(b)
    if inty and op in "+-*":
        x, y = ilift(a), ilift(b)
        e = x + y if op == "+" else x - y if op == "-" else x * y
        return SInt(z3.simplify(e) if z3.is_int_value(x) and z3.is_int_value(y) else e)
    if op in ("//", "%"):
        if inty:
            return int_divmod(a, b)[0 if op == "//" else 1]
        q = m_floor(arith("/", a, b))
        return SReal(z3.ToReal(q.e)) if op == "//" else a - b * q
    if op == "**":
        if is_num(b) and frac(b).denominator == 1 and 0 <= frac(b) <= 8:
            r = SInt(z3.IntVal(1)) if is_inty(a) else SReal(z3.RealVal(1))
            for _ in range(int(frac(b))):
                r = r * a
            return r
        if is_num(b) and frac(b) == Fraction(1, 2):
            return m_sqrt(a)
        raise Unsupported("power")
    x, y = lift(a), lift(b)
    rounded = getattr(CUR, "rounding", None)
    if rounded is not None and op in "+-*/":
        return rounded(op, x, y)
    if op == "+":
        return SReal(x + y)
    if op == "-":
        return SReal(x - y)
    if op == "*":
        return SReal(x * y)
    if op == "/":
        r = cur()
        c = r.ring.constant(y)
        if c is None:
            # division contract: the divisor must be non-zero
            r.require_nonzero(y)
        elif c == 0:
            r.require_nonzero(y)
            raise EndPath()
        return SReal(x / y)
    raise Unsupported(op)


def int_divmod(a, b):
    """Python floor division; uses q*b+r decompositions of the dividend."""
    r = cur()
    x, y = ilift(a), ilift(b)
    if z3.is_int_value(y) and y.as_long() > 0:
        k = y.as_long()
        try:
            n, d = r.ring.of(x)
        except TooBig:
            n = None
        if n is not None and len(d) == 1 and () in d and all((c / d[()]).denominator == 1 for c in n.values()):
            n = {m: c / d[()] for m, c in n.items()}
            quo = {m: Fraction(c // k) for m, c in n.items() if c // k}
            rem = {m: Fraction(c % k) for m, c in n.items() if c % k}
            if quo and all(m == () for m in rem):       # k*q + c with 0 <= c < k
                return SInt(poly_int(r.ring, quo)), SInt(z3.IntVal(int(rem.get((), 0))))
        return SInt(x / y), SInt(x % y)       # z3 div/mod by a positive constant = floor
    pos = r.decide(y > 0)
    if pos is not True:
        raise Unsupported("integer division by possibly non-positive symbolic value")
    # polynomial split: terms divisible by y
    try:
        n, _ = r.ring.of(x)
        d, _ = r.ring.of(y)
    except TooBig:
        n = d = None
    if d is not None and len(d) == 1:
        (dm, dc), = d.items()
        quo, rem = {}, {}
        for m, c in n.items():
            md = dict(m)
            if all(md.get(v, 0) >= e for v, e in dm) and (c / dc).denominator == 1:
                for v, e in dm:
                    md[v] -= e
                quo[tuple(sorted((v, e) for v, e in md.items() if e))] = c / dc
            else:
                rem[m] = c
        qz, rz = poly_int(r.ring, quo), poly_int(r.ring, rem)
        if r.decide(z3.And(rz >= 0, rz < y)) is True:
            return SInt(qz), SInt(rz)
    q, m = r.fresh_int("q"), r.fresh_int("r")
    r.axiom(z3.And(x == q * y + m, m >= 0, m < y))
    return SInt(q), SInt(m)


def poly_int(ring, p):
    terms = []
    for m, c in sorted(p.items()):
        t = z3.IntVal(int(c))
        for v, e in m:
            a = ring.atoms[v]
            if not z3.is_int(a):
                raise Unsupported("real atom in integer polynomial")
            for _ in range(e):
                t = t * a
        terms.append(t)
    return z3.simplify(z3.Sum(terms)) if terms else z3.IntVal(0)


def compare(op, a, b):
    if b is None or isinstance(b, str) or a is None:
        return op == "!="
    if isinstance(b, _np.ndarray):
        if b.shape == ():
            b = b.item()
        else:
            return NotImplemented
    if hasattr(b, "_is_sarr"):
        return NotImplemented
    if not (is_num(b) or isinstance(b, Sym)):
        return NotImplemented
    if is_inf(b):
        pos = b > 0
        return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
    if is_inty(a) and is_inty(b):
        x, y = ilift(a), ilift(b)
    else:
        x, y = lift(a), lift(b)
    e = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    d = decide_quick(e)
    if d is not None:
        return d
    return SBool(e)


def decide_quick(e):
    """True/False when a comparison is settled by constants (ring), else None."""
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if CUR is None:
        return None
    k = e.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(e.arg(0)):
        c = CUR.ring.constant(e.arg(0) - e.arg(1))
        if c is not None:
            return {z3.Z3_OP_LE: c <= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GE: c >= 0,
                    z3.Z3_OP_GT: c > 0, z3.Z3_OP_EQ: c == 0}[k]
    return None


def plain(c):
    """a condition, without If(c, true, false) around it"""
    while z3.is_app_of(c, z3.Z3_OP_ITE) and z3.is_true(c.arg(1)) and z3.is_false(c.arg(2)):
        c = c.arg(0)
    return c


def branch(c, e, first):
    """e, where c is true (first) or false"""
    while z3.is_app_of(e, z3.Z3_OP_ITE) and plain(e.arg(0)).eq(c):
        e = e.arg(1 if first else 2)
    return e


def zite(c, x, y):
    c = plain(c)
    x, y = branch(c, x, True), branch(c, y, False)
    return x if x.eq(y) else z3.If(c, x, y)


def ite(c, a, b):
    """Branch-free conditional on scalars (or equal-shape arrays/tuples)."""
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        a, b = _np.broadcast_arrays(a, b)
        out = _np.empty(a.shape, dtype=object)
        for ix in _np.ndindex(*a.shape):
            out[ix] = ite(c, a[ix], b[ix])
        return out.view(A)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            raise Unsupported("ite over sequences of different length")
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if a is b:
        return a
    if isinstance(a, SBool) or isinstance(b, SBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return SBool(z3.If(blift(c), blift(a), blift(b)))
    if is_inty(a) and is_inty(b):
        x, y = ilift(a), ilift(b)
        return SInt(x) if x.eq(y) else SInt(zite(blift(c), x, y))
    if (is_num(a) or isinstance(a, SNum)) and (is_num(b) or isinstance(b, SNum)):
        x, y = lift(a), lift(b)
        return SReal(x) if x.eq(y) else SReal(zite(blift(c), x, y))
    if hasattr(a, "_ite"):
        return a._ite(c, b)
    if type(a) is type(b) and a == b:
        return a
    raise Unsupported("ite over %r / %r" % (type(a), type(b)))


def join(cases):
    """[(condition, value)] covering every case -> one value."""
    vals = [v for _, v in cases]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals) or all(isinstance(v, list) and len(v) == len(v0) for v in vals):
        return type(v0)(join([(c, v[i]) for c, v in cases]) for i in range(len(v0)))
    if all(isinstance(v, _np.ndarray) and v.shape == v0.shape for v in vals):
        out = _np.empty(v0.shape, dtype=object)
        for ix in _np.ndindex(*v0.shape):
            out[ix] = join([(c, v[ix]) for c, v in cases])
        return out.view(A)
    if all(is_num(v) or isinstance(v, (Sym, bool, _np.bool_)) for v in vals):
        r = vals[-1]
        for c, v in reversed(cases[:-1]):
            r = ite(SBool(c), v, r)
        return r
    if all(type(v) is type(v0) for v in vals) and not isinstance(v0, (Sym, _np.ndarray)):
        try:
            if all(v == v0 for v in vals[1:]):
                return v0
        except Exception:
            pass
    raise Unsupported("values of different kinds on local paths: %s" % sorted({type(v).__name__ for v in vals}))


def cast(x, t):
    """C / numpy conversion with a value-range obligation instead of wrap-around."""
    t = str(_np.dtype(t)) if not isinstance(t, str) else t
    if t in ("float32", "float64", "float", "double", "object"):
        return SReal(lift(x)) if isinstance(x, Sym) else x
    if t in ("bool",):
        return SBool(blift(x))
    if isinstance(x, SReal):
        x = m_trunc(x)
    rng = {"uint8": (0, 255), "uint16": (0, 65535), "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1),
           "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1), "int": (-2**63, 2**63 - 1)}[t]
    if isinstance(x, Sym):
        cur().note_range(ilift(x), rng, t)
    return x


# ---------------------------------------------------------------------------
# mathematical functions (contracts of math / numpy scalar functions)

def _c(x):
    return not isinstance(x, Sym)


def squarefree(n):
    """n = k*k*m with m free of small square factors."""
    k, p = 1, 2
    while p * p <= n and p < 1000:
        while n % (p * p) == 0:
            n //= p * p
            k *= p
        p += 1
    return k, n


def squares(e):
    """e is visibly a sum of squares and non-negative constants"""
    k = e.decl().kind()
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return e.as_fraction() >= 0 if z3.is_rational_value(e) else e.as_long() >= 0
    if k == z3.Z3_OP_ADD:
        return all(squares(c) for c in e.children())
    if k == z3.Z3_OP_MUL:
        c = e.children()
        return len(c) == 2 and (c[0].eq(c[1]) or (squares(c[0]) and squares(c[1])))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
        return e.arg(1).as_fraction() == 2
    return False


def m_sqrt(x):
    if _c(x):
        f = frac(x)
        n, d = _math.isqrt(f.numerator), _math.isqrt(f.denominator)
        if f >= 0 and n * n == f.numerator and d * d == f.denominator:
            return SReal(rv(Fraction(n, d))) if CUR else n / d
        if CUR is None:
            return _math.sqrt(x)
        x = SReal(rv(f))
    r = cur()
    e = lift(x)
    k = r.ring.constant(e)
    if k is not None and k >= 0 and not z3.is_rational_value(z3.simplify(e)):
        return m_sqrt(k)
    n, d = r.ring.of(e)
    if len(d) == 1 and () in d:
        p = {m: c / d[()] for m, c in r.ring.reduce(n).items()}
        q = r.ring.square_root(p)
        if q is not None:
            q = SReal(r.ring.to_z3(q))
            return q if q >= 0 else -q
        if set(p) == {()} and p[()] > 0 and (p[()].denominator != 1 or squarefree(p[()].numerator)[0] != 1):
            f = p[()]
            k, m = squarefree(f.numerator * f.denominator)
            return m_sqrt(SReal(rv(m))) * Fraction(k, f.denominator)
        key = ("sqrt", tuple(sorted(p.items())))
    else:
        key = ("sqrt", e.get_id())
    if key in r.memo:
        return r.memo[key]
    ok = True if squares(e) else r.decide(e >= 0)
    if ok is False:
        raise ValueError("math domain error")
    if ok is None:
        # fork: domain error path
        if not r.fork(e >= 0):
            raise ValueError("math domain error")
    y = r.fresh_real("sqrt")
    r.axiom(y >= 0)
    r.axiom(y * y == e)
    r.define(y, lambda v, e=e: _math.sqrt(max(0.0, r.ev(e, v))))
    if key[1] is not None and len(d) == 1 and () in d:
        r.ring.relate_square(y, r.ring.to_z3(p))
    r.memo[key] = SReal(y)
    r.keep.append(e)
    return r.memo[key]


def angle_parts(x):
    """x = sum coef*atom + k*pi : returns ([(atom_expr, coef)], k Fraction)."""
    r = cur()
    n, d = r.ring.of(lift(x))
    if not (len(d) == 1 and () in d):
        return None
    pi = r.ring.atom(r.pi().e)
    parts, k = [], Fraction(0)
    for m, c in n.items():
        c = c / d[()]
        if m == ((pi, 1),):
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            parts.append((m[0][0], c))
        else:
            return None
    return parts, k


def trig_atom(v):
    """(sin, cos) of ring atom v as SReal pair."""
    r = cur()
    key = ("trig", r.ring.atoms[v].get_id())
    if key not in r.memo:
        s, c = r.fresh_real("sin"), r.fresh_real("cos")
        a = r.ring.atoms[v]
        r.define(s, lambda val, a=a: _math.sin(r.ev(a, val)))
        r.define(c, lambda val, a=a: _math.cos(r.ev(a, val)))
        r.axiom(s * s + c * c == 1)
        r.axiom(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        r.ring.relate_square(s, 1 - c * c)
        r.memo[key] = (SReal(s), SReal(c))
    return r.memo[key]


def sincos(x):
    if _c(x):
        f = float(x)
        if f == 0:
            return 0, 1
        if CUR is None:
            return _math.sin(f), _math.cos(f)
        x = SReal(rv(x))
    r = cur()
    ap = angle_parts(x)
    if ap is None:
        key = ("angle", lift(x).get_id())
        if key not in r.memo:
            t = r.fresh_real("ang")
            e = lift(x)
            r.axiom(t == e)
            r.define(t, lambda v, e=e: r.ev(e, v))
            r.keep.append(e)
            r.memo[key] = t
        ap = ([(r.ring.atom(r.memo[key]), Fraction(1))], Fraction(0))
    parts, k = ap
    one, zero = SReal(z3.RealVal(1)), SReal(z3.RealVal(0))
    if (k * 2).denominator == 1:
        q = int(k * 2) % 4
        s, c = [(zero, one), (one, zero), (zero, -one), (-one, zero)][q]
    elif (k * 4).denominator == 1:
        h = m_sqrt(SReal(z3.RealVal("1/2")))
        q = int(k * 4) % 8
        s, c = {1: (h, h), 3: (h, -h), 5: (-h, -h), 7: (-h, h)}[q]
    else:
        raise Unsupported("sin/cos of odd fraction of pi")
    for v, coef in parts:
        den = coef.denominator
        if den == 1:
            bs, bc = trig_atom(v)
            m = int(coef)
        else:
            # sin(x/2^n): introduce the half-angle atom h with v = den*h
            key = ("half", v, den)
            if key not in r.memo:
                if den != 2:
                    raise Unsupported("angle fraction")
                a = r.ring.atoms[v]
                h = r.fresh_real("half")
                r.axiom(h * 2 == a)
                r.define(h, lambda val, a=a: r.ev(a, val) / 2)
                hs, hc = trig_atom(r.ring.atom(h))
                # link to an existing full-angle pair
                if ("trig", a.get_id()) in r.memo:
                    raise Unsupported("half angle introduced after full angle")
                r.memo[("trig", a.get_id())] = (2 * hs * hc, hc * hc - hs * hs)
                r.memo[key] = (hs, hc)
            bs, bc = r.memo[key]
            m = int(coef * den)
        sg = 1 if m >= 0 else -1
        for _ in range(abs(m)):
            s, c = s * bc + c * bs * sg, c * bc - s * bs * sg
    return s, c


def m_sin(x): return sincos(x)[0]
def m_cos(x): return sincos(x)[1]


def m_acos(x):
    r = cur()
    e = lift(x)
    k = r.ring.constant(e)
    if k is not None and k in (1, 0, -1):
        return {1: SReal(z3.RealVal(0)), 0: r.pi() / 2, -1: r.pi()}[int(k)]
    key = ("acos", canon(r, e))
    if key in r.memo:
        return r.memo[key]
    dom = z3.And(e >= -1, e <= 1)
    if r.decide(dom) is not True and not r.fork(dom):
        raise ValueError("math domain error")
    y = r.fresh_real("acos")
    r.axiom(z3.And(y >= 0, y <= r.pi().e))
    r.axiom((y == 0) == (e == 1))
    r.axiom((y == r.pi().e) == (e == -1))
    r.define(y, lambda v, e=e: _math.acos(max(-1.0, min(1.0, r.ev(e, v)))))
    r.acos.append((y, e))
    for (y2, e2) in r.acos[:-1]:
        r.axiom((y < y2) == (e > e2))
        r.axiom((y == y2) == (e == e2))
    s = m_sqrt(SReal(1 - e * e))
    r.memo[("trig", y.get_id())] = (s, SReal(e))
    r.keep += [y, e]
    r.memo[key] = SReal(y)
    return r.memo[key]


def m_asin(x):
    r = cur()
    e = lift(x)
    key = ("asin", canon(r, e))
    if key in r.memo:
        return r.memo[key]
    dom = z3.And(e >= -1, e <= 1)
    if r.decide(dom) is not True and not r.fork(dom):
        raise ValueError("math domain error")
    y = r.fresh_real("asin")
    r.axiom(z3.And(2 * y >= -r.pi().e, 2 * y <= r.pi().e))
    r.define(y, lambda v, e=e: _math.asin(max(-1.0, min(1.0, r.ev(e, v)))))
    s = m_sqrt(SReal(1 - e * e))
    r.memo[("trig", y.get_id())] = (SReal(e), s)
    r.keep += [y, e]
    r.memo[key] = SReal(y)
    return r.memo[key]


def m_atan2(yy, xx):
    r = cur()
    y, x = lift(yy), lift(xx)
    key = ("atan2", canon(r, y), canon(r, x))
    if key in r.memo:
        return r.memo[key]
    t = r.fresh_real("atan2")
    n = m_sqrt(SReal(y * y + x * x))
    r.axiom(z3.And(t <= r.pi().e, t > -r.pi().e))
    r.define(t, lambda v: _math.atan2(r.ev(y, v), r.ev(x, v)))
    r.keep += [y, x, t]
    if r.fork(n.e == 0):
        r.axiom(t == 0)
        r.memo[("trig", t.get_id())] = (SReal(z3.RealVal(0)), SReal(z3.RealVal(1)))
    else:
        r.memo[("trig", t.get_id())] = (SReal(y / n.e), SReal(x / n.e))
    r.memo[key] = SReal(t)
    return r.memo[key]


def canon(r, e):
    try:
        n, d = r.ring.of(e)
        return (tuple(sorted(n.items())), tuple(sorted(d.items())))
    except TooBig:
        return e.get_id()


def m_floor(x):
    if _c(x):
        return _math.floor(x)
    if isinstance(x, SInt):
        return x
    if CUR is not None:
        # a quotient: the integer c with c*d <= n < (c+1)*d
        r = CUR
        try:
            n, d = r.ring.of(x.e)
        except TooBig:
            n = d = None
        if d is not None and any(m for m in d):
            key = ("floor", tuple(sorted(n.items())), tuple(sorted(d.items())))
            if key not in r.memo:
                nz, dz = r.ring.to_z3(n), r.ring.to_z3(d)
                if r.decide(dz > 0) is True:
                    c = z3.Function("floor_of", z3.RealSort(), z3.RealSort(), z3.IntSort())(nz, dz)
                    r.keep.append(c)
                    r.axiom(z3.And(z3.ToReal(c) * dz <= nz, nz < z3.ToReal(c) * dz + dz))
                    r.memo[key] = c
            if key in r.memo:
                return SInt(r.memo[key])
    return SInt(z3.ToInt(x.e))


def m_ceil(x):
    if _c(x):
        return _math.ceil(x)
    if isinstance(x, SInt):
        return x
    return SInt(-z3.ToInt(-x.e))


def m_trunc(x):
    if isinstance(x, SInt):
        return x
    return SInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def m_exp(x):
    r = cur()
    key = ("exp", canon(r, lift(x)))
    if key not in r.memo:
        e = lift(x)
        y = r.fresh_real("exp")
        r.axiom(y > 0)
        r.axiom((y <= 1) == (e <= 0))
        r.axiom((y == 1) == (e == 0))
        r.define(y, lambda v: _math.exp(r.ev(e, v)))
        for (y2, e2) in r.exps:
            r.axiom((y < y2) == (e < e2))
        r.exps.append((y, e))
        r.memo[key] = SReal(y)
        r.keep.append(e)
    return r.memo[key]


# ---------------------------------------------------------------------------
# object arrays

class A(_np.ndarray):
    """numpy object array of symbolic scalars (concrete shape)."""

    decl = None

    def __array_finalize__(self, obj):
        self.decl = getattr(obj, "decl", None)

    def astype(self, t, *a, **k):
        out = _np.empty(self.shape, dtype=object)
        for ix in _np.ndindex(*self.shape):
            v = self[ix]
            out[ix] = cast(v, t) if isinstance(v, Sym) else _np.dtype(t).type(v) if t is not object else v
        out = out.view(A)
        out.decl = _np.dtype(t)
        return out

    def dot(self, o):
        return NP.dot(self, o)

    def _cmp(name):
        def f(self, o):
            if not isinstance(o, Sym):
                return getattr(_np.ndarray, name)(self, o)
            out = _np.empty(self.shape, dtype=object).view(A)
            for ix in _np.ndindex(*self.shape):
                out[ix] = getattr(operator, name.strip("_"))(self[ix], o)
            return out
        return f
    __lt__, __le__, __gt__, __ge__ = _cmp("__lt__"), _cmp("__le__"), _cmp("__gt__"), _cmp("__ge__")


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(has_sym(v) for v in x.reshape(-1).tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def oarr(x):
    a = _np.array(x, dtype=object)
    return a.view(A)


def _elementwise(f):
    def g(x, *rest, **kw):
        if isinstance(x, _np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) and has_sym(x):
            x = _np.asarray(x, dtype=object)
            out = _np.empty(x.shape, dtype=object)
            for ix in _np.ndindex(*x.shape):
                out[ix] = f(x[ix])
            return out.view(A)
        return f(x)
    return g


def sall(x, axis=None):
    """Symbolic conjunction (no forking)."""
    if isinstance(x, (bool, _np.bool_, SBool)):
        return x
    flat = _np.asarray(x, dtype=object).reshape(-1).tolist()
    es = [blift(v) for v in flat]
    e = z3.simplify(z3.And(*es)) if es else z3.BoolVal(True)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def sany(x):
    if isinstance(x, (bool, _np.bool_, SBool)):
        return x
    flat = _np.asarray(x, dtype=object).reshape(-1).tolist()
    e = z3.simplify(z3.Or(*[blift(v) for v in flat])) if flat else z3.BoolVal(False)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def tidy(x):
    """The same number as a short expression when its ring normal form is short."""
    if isinstance(x, SReal) and CUR is not None:
        r = cur()
        try:
            n, d = r.ring.of(x.e)
            if len(d) == 1 and () in d:
                n = r.ring.reduce(n)
                if len(n) <= 3:
                    return SReal(r.ring.to_z3({m: c / d[()] for m, c in n.items()}))
        except TooBig:
            pass
    return x


def smin2(a, b):
    a, b = tidy(a), tidy(b)
    return ite(compare("<=", a, b) if isinstance(a, Sym) else compare(">=", b, a) if isinstance(b, Sym) else a <= b, a, b)


def smax2(a, b):
    a, b = tidy(a), tidy(b)
    return ite(compare(">=", a, b) if isinstance(a, Sym) else compare("<=", b, a) if isinstance(b, Sym) else a >= b, a, b)


def _reduce_axis(f):
    def g(x, axis=None, **kw):
        if hasattr(x, "_is_sarr"):
            return x.reduce(f.__name__, axis)
        x = _np.asarray(x, dtype=object) if has_sym(x) else _np.asarray(x)
        if x.dtype != object:
            return getattr(_np, f.__name__)(x, axis=axis, **kw)
        if x.size == 0:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % f.__name__)
        if axis is None:
            vals = x.reshape(-1).tolist()
            return f(vals)
        x = _np.moveaxis(x, axis, -1)
        out = _np.empty(x.shape[:-1], dtype=object)
        for ix in _np.ndindex(*out.shape):
            out[ix] = f(x[ix].tolist())
        return out.view(A)
    return g


def extreme(vals, sign):
    """Smallest (sign=1) or largest (-1) of many numbers as one atom."""
    r = cur()
    vals = [tidy(lift(v) if not isinstance(v, Sym) else v) for v in vals]
    es, ids = [], set()
    for v in vals:
        e = lift(v)
        if e.get_id() not in ids:
            ids.add(e.get_id())
            es.append(e)
    if any(z3.is_int(e) for e in es):
        es = [z3.ToReal(e) if z3.is_int(e) else e for e in es]
    m = r.fresh_real("min" if sign > 0 else "max")
    r.axiom(z3.And(*[(m <= e if sign > 0 else m >= e) for e in es]))
    r.axiom(z3.Or(*[m == e for e in es]))
    r.define(m, lambda v: (min if sign > 0 else max)(r.ev(e, v) for e in es))
    r.keep += es
    return SReal(m)


def many(vals):
    return CUR is not None and len(vals) > 4 and all(isinstance(v, (int, float, Fraction, SReal)) and not is_inf(v) for v in vals) and any(isinstance(v, SReal) for v in vals)


def _amin(vals):
    if many(vals):
        return extreme(vals, 1)
    r = vals[0]
    for v in vals[1:]:
        r = smin2(r, v)
    return r


def _amax(vals):
    if many(vals):
        return extreme(vals, -1)
    r = vals[0]
    for v in vals[1:]:
        r = smax2(r, v)
    return r


def _prod(vals):
    r = 1
    for v in vals:
        r = r * v
    return r


def _sum(vals):
    r = 0
    for v in vals:
        r = r + v
    return r


_amin.__name__, _amax.__name__, _prod.__name__, _sum.__name__ = "amin", "amax", "prod", "sum"


class _Linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, **k):
        if hasattr(x, "_norm"):
            return x._norm()
        if hasattr(x, "_is_sarr"):
            return x.norm(axis)
        if not has_sym(x):
            return _np.linalg.norm(_np.asarray(x, dtype=float) if getattr(x, "dtype", None) == object else x, ord, axis, **k)
        x = _np.asarray(x, dtype=object)
        if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1 and axis is None):
            raise Unsupported("norm ord")
        if axis is None:
            return m_sqrt(_sum([v * v for v in x.reshape(-1).tolist()]))
        x = _np.moveaxis(x, axis, -1)
        out = _np.empty(x.shape[:-1], dtype=object)
        for ix in _np.ndindex(*out.shape):
            out[ix] = m_sqrt(_sum([v * v for v in x[ix].tolist()]))
        return out.view(A)

    @staticmethod
    def det(m):
        if not has_sym(m):
            return _np.linalg.det(_np.asarray(m, dtype=float))
        m = _np.asarray(m, dtype=object)
        assert m.shape == (3, 3)
        return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1])
                - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
                + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))

    @staticmethod
    def inv(m):
        if not has_sym(m):
            return _np.linalg.inv(_np.asarray(m, dtype=float))
        m = _np.asarray(m, dtype=object)
        if m.shape != (3, 3):
            raise Unsupported("inv")
        d = _Linalg.det(m)
        out = _np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                a, b = [k for k in range(3) if k != j]
                c, e = [k for k in range(3) if k != i]
                minor = m[a, c] * m[b, e] - m[a, e] * m[b, c]
                out[i, j] = minor * (1 if (i + j) % 2 == 0 else -1) / d
        return out.view(A)

    def __getattr__(self, n):
        return getattr(_np.linalg, n)


class _Testing:
    def __getattr__(self, n):
        return getattr(_np.testing, n)


class NPShim:
    """numpy with contracts for the operations that cannot run on symbolic data."""
    linalg = _Linalg()
    float = float          # removed aliases used by the code (provided by /opt/vp/compat)
    int = int
    bool = bool
    object = object

    @property
    def pi(self):
        return cur().pi() if CUR is not None and getattr(CUR, "sym_pi", True) else _math.pi

    def __getattr__(self, n):
        f = getattr(_np, n)
        return f

    def array(self, x, dtype=None, *a, **k):
        if hasattr(x, "_is_sarr"):
            return x.copy()
        if hasattr(x, "_is_sseq") and not isinstance(x._slen(), int):
            import seq
            x = seq.sstack("stack", x)
            return x if dtype is None else x.astype(dtype)
        if has_sym(x) or (isinstance(x, A)):
            r = oarr(x)
            if dtype is not None:
                r = self._declare(r, dtype)
            return r
        return _np.array(x, dtype, *a, **k)

    def reshape(self, x, newshape, order="C"):
        if not hasattr(x, "_is_sarr"):
            return _np.reshape(x, newshape, order=order)
        shape = tuple(newshape) if isinstance(newshape, (tuple, list)) else (newshape,)
        if order == "C":
            return x.reshape(shape)
        if order != "F" or x.ndim != 2 or len(shape) != 1 or not isinstance(x.shape[0], int):
            raise Unsupported("reshape %s -> %s in order %s" % (x.shape, shape, order))
        import seq
        import loops
        m = x.shape[0]
        size = x.shape[1] * m
        if not (isinstance(shape[0], int) and shape[0] == -1) and seq.dim_eq(shape[0], size) is not True:
            if not cur().fork(ilift(shape[0]) == ilift(size)):
                raise ValueError("cannot reshape array")
        f = x.f

        def at(i):
            q, r = loops.split_affine(i, m)
            return f(r, q) if isinstance(r, int) else seq.pick([f(k, q) for k in range(m)], r)
        return seq.SArr((size,), at, x.decl, True)

    def _declare(self, r, dtype):
        dt = _np.dtype(dtype)
        if dt.kind in "iub":
            r = r.astype(dt)
        elif dt.kind == "f":
            for ix in _np.ndindex(*r.shape):
                if isinstance(r[ix], SInt):
                    r[ix] = SReal(z3.ToReal(r[ix].e))
        r.decl = dt
        return r

    def asarray(self, x, dtype=None, *a, **k):
        if isinstance(x, A) and dtype is None or hasattr(x, "_is_sarr"):
            return x
        return self.array(x, dtype)

    asanyarray = ascontiguousarray = asfortranarray = asarray

    def _new(self, f, shape, dtype=float):
        dtype = float if dtype is None else dtype
        if hasattr(shape, "_is_sshape") or isinstance(shape, Sym) or (isinstance(shape, (tuple, list)) and any(isinstance(s, Sym) for s in shape)):
            from seq import SArr
            return SArr.new(shape, f, dtype)
        base = {"empty": _np.zeros, "zeros": _np.zeros, "ones": _np.ones}[f](shape, dtype)
        o = _np.empty(base.shape, dtype=object)
        for ix in _np.ndindex(*base.shape):
            o[ix] = base[ix].item()
        o = o.view(A)
        o.decl = _np.dtype(dtype)
        return o

    def empty(self, shape, dtype=float, *a, **k): return self._new("empty", shape, dtype)
    def zeros(self, shape, dtype=float, *a, **k): return self._new("zeros", shape, dtype)
    def ones(self, shape, dtype=float, *a, **k): return self._new("ones", shape, dtype)

    def full(self, shape, v, dtype=None, *a, **k):
        o = self._new("zeros", shape, dtype or float)
        o[...] = v
        return o

    def eye(self, n, *a, **k): return oarr(_np.eye(n))
    def identity(self, n, dtype=None): return oarr(_np.eye(n))

    def zeros_like(self, x, *a, **k): return self.zeros(x.shape)
    def empty_like(self, x, *a, **k): return self.zeros(x.shape)
    def ones_like(self, x, *a, **k): return self.ones(x.shape)

    def dot(self, a, b):
        if hasattr(a, "_is_sarr") or hasattr(b, "_is_sarr"):
            from seq import sdot
            return sdot(a, b)
        if not has_sym(a) and not has_sym(b):
            return _np.dot(a, b)
        return _np.dot(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object)).view(A) \
            if _np.ndim(a) + _np.ndim(b) > 2 else _sum([x * y for x, y in zip(list(a), list(b))])

    matmul = dot

    def inner(self, a, b): return self.dot(a, b)
    vdot = inner

    def _stk(name):
        def g(self, seq, *a, **k):
            if hasattr(seq, "_is_sseq"):
                from seq import sstack
                return sstack(name, seq, *a, **k)
            seq = list(seq) if not isinstance(seq, _np.ndarray) else seq
            if any(hasattr(s, "_is_sarr") for s in seq):
                from seq import sstack
                return sstack(name, seq, *a, **k)
            if has_sym(seq if not isinstance(seq, _np.ndarray) else seq) or any(isinstance(s, A) for s in seq):
                return getattr(_np, name)([_np.asarray(s, dtype=object) for s in seq], *a, **k).view(A)
            return getattr(_np, name)(seq, *a, **k)
        return g

    stack, hstack, vstack, column_stack, concatenate = map(_stk, ["stack", "hstack", "vstack", "column_stack", "concatenate"])

    amin = staticmethod(_reduce_axis(_amin))
    amax = staticmethod(_reduce_axis(_amax))
    min = staticmethod(_reduce_axis(_amin))
    max = staticmethod(_reduce_axis(_amax))
    prod = staticmethod(_reduce_axis(_prod))

    def sum(self, x, axis=None, **k):
        if hasattr(x, "_is_sarr"):
            return x.reduce("sum", axis)
        if not has_sym(x):
            return _np.sum(x, axis=axis, **k)
        return _reduce_axis(_sum)(x, axis)

    def square(self, x):
        return _np.square(x) if not has_sym(x) and not hasattr(x, "_is_sarr") else x * x

    def mean(self, x, axis=None, **k):
        s = getattr(x, "sym", x)
        if hasattr(s, "total"):                 # a list of which length and sum are known
            return s.total / SReal(lift(s.n))
        if hasattr(x, "_is_sarr"):
            return x.reduce("mean", axis)
        if not has_sym(x):
            return _np.mean(x, axis=axis, **k)
        x = _np.asarray(x, dtype=object)
        n = x.size if axis is None else x.shape[axis]
        return self.sum(x, axis) / n

    sqrt = staticmethod(_elementwise(lambda v: m_sqrt(v) if isinstance(v, Sym) or (CUR is not None and isinstance(v, (int, float, Fraction)) and v >= 0) else _np.sqrt(v)))
    sin = staticmethod(_elementwise(lambda v: m_sin(v) if isinstance(v, Sym) else _np.sin(v)))
    cos = staticmethod(_elementwise(lambda v: m_cos(v) if isinstance(v, Sym) else _np.cos(v)))
    arccos = staticmethod(_elementwise(lambda v: m_acos(v) if isinstance(v, Sym) else _np.arccos(v)))
    arcsin = staticmethod(_elementwise(lambda v: m_asin(v) if isinstance(v, Sym) else _np.arcsin(v)))
    exp = staticmethod(_elementwise(lambda v: m_exp(v) if isinstance(v, Sym) else _np.exp(v)))
    abs = staticmethod(_elementwise(abs))
    absolute = fabs = abs

    def floor(self, x):
        if hasattr(x, "_is_sarr"):
            return x.map(m_floor)
        return _elementwise(lambda v: m_floor(v) if isinstance(v, Sym) else _np.floor(v))(x)

    def ceil(self, x):
        if hasattr(x, "_is_sarr"):
            return x.map(m_ceil)
        return _elementwise(lambda v: m_ceil(v) if isinstance(v, Sym) else _np.ceil(v))(x)

    def arctan2(self, y, x):
        if isinstance(y, Sym) or isinstance(x, Sym):
            return m_atan2(y, x)
        return _np.arctan2(y, x)

    def minimum(self, a, b):
        return _pair(smin2, _np.minimum, a, b)

    def maximum(self, a, b):
        return _pair(smax2, _np.maximum, a, b)

    def clip(self, x, lo, hi, **k):
        if hasattr(x, "_is_sarr"):
            return x.map(lambda v: smin2(smax2(v, lo), hi))
        if not has_sym(x):
            return _np.clip(x, lo, hi, **k)
        r = self.minimum(self.maximum(x, lo), hi)
        return r

    def all(self, x, axis=None, **k):
        if hasattr(x, "_is_sarr"):
            return x.all(axis)
        return sall(x) if axis is None else _np.all(x, axis=axis)

    def any(self, x, axis=None, **k):
        return sany(x) if axis is None else _np.any(x, axis=axis)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if not has_sym(a) and not has_sym(b):
            return _np.isclose(a, b, rtol, atol)
        return _pair(lambda x, y: SBool(blift(abs(SReal(lift(x) - lift(y))) <= atol + rtol * abs(SReal(lift(y))))), None, a, b)

    def allclose(self, a, b, *r, **k):
        k.pop("equal_nan", None)
        return sall(self.isclose(a, b, *r, **k))

    def array_equal(self, a, b, *r, **k):
        a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return False
        return sall([eq(x, y) for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())])

    def cross(self, a, b, **k):
        if not has_sym(a) and not has_sym(b):
            return _np.cross(a, b, **k)
        a, b = list(a), list(b)
        return oarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def negative(self, x):
        return -x

    def trace(self, m):
        return _sum([m[i][i] if not isinstance(m, _np.ndarray) else m[i, i] for i in range(len(m))])

    def isnan(self, x):
        return _elementwise(lambda v: False if isinstance(v, Sym) else bool(_np.isnan(v)))(x)

    def isinf(self, x):
        return _elementwise(lambda v: False if isinstance(v, Sym) else bool(_np.isinf(v)))(x)

    def isfinite(self, x):
        return _elementwise(lambda v: True if isinstance(v, Sym) else bool(_np.isfinite(v)))(x)

    def where(self, c, *r):
        if hasattr(c, "_is_sarr"):
            return c.where(*r)
        if has_sym(c) and len(r) == 2:
            c2 = _np.asarray(c, dtype=object)
            a, b = _np.broadcast_arrays(_np.asarray(r[0], dtype=object), _np.asarray(r[1], dtype=object))
            a, b = _np.broadcast_to(a, c2.shape), _np.broadcast_to(b, c2.shape)
            out = _np.empty(c2.shape, dtype=object)
            for ix in _np.ndindex(*c2.shape):
                out[ix] = ite(c2[ix], a[ix], b[ix])
            return out.view(A)
        return _np.where(c, *r)

    def tile(self, x, reps):
        if any(isinstance(v, Sym) for v in (reps if isinstance(reps, tuple) else (reps,))):
            from seq import stile
            return stile(x, reps)
        return _np.tile(x, reps)

    def transpose(self, x, *a):
        if hasattr(x, "_is_sarr"):
            return x.T
        return _np.transpose(x, *a)

    def logical_and(self, a, b):
        if hasattr(a, "_is_sarr") or hasattr(b, "_is_sarr"):
            return a & b
        return _pair(lambda x, y: SBool(z3.And(blift(x), blift(y))), None, a, b)

    def logical_or(self, a, b):
        if hasattr(a, "_is_sarr") or hasattr(b, "_is_sarr"):
            return a | b
        return _pair(lambda x, y: SBool(z3.Or(blift(x), blift(y))), None, a, b)

    def cumsum(self, x, *a, **k):
        if hasattr(x, "_is_sarr") and not a and not k:
            from npseq import cumsum
            return cumsum(x)
        return _np.cumsum(x, *a, **k)

    def sort(self, x, *a, **k):
        if hasattr(x, "_is_sarr") and not isinstance(x.shape[0], int):
            import npseq
            import seq
            if a or k or x.ndim != 1:
                raise Unsupported("sort with options")
            o = npseq.Order(x)
            cur().memo.setdefault("sorts", []).append(o)
            r = seq.SArr(x.shape, lambda j: x.f(o.at(j)), x.decl, True)
            r.order = o
            return r
        return _np.sort(x, *a, **k)

    def argsort(self, x, *a, **k):
        if hasattr(x, "_is_sarr"):
            from npseq import argsort
            return argsort(x, *a, **k)
        return _np.argsort(x, *a, **k)

    def searchsorted(self, a, v, *r, **k):
        if hasattr(a, "_is_sarr") or hasattr(v, "_is_sarr"):
            from npseq import searchsorted
            return searchsorted(a, v, *r, **k)
        return _np.searchsorted(a, v, *r, **k)

    def not_equal(self, a, b): return a != b if hasattr(a, "_is_sarr") or has_sym(a) else _np.not_equal(a, b)
    def equal(self, a, b): return a == b if hasattr(a, "_is_sarr") or has_sym(a) else _np.equal(a, b)

    def union1d(self, a, b):
        from seq import union1d
        if hasattr(a, "_is_sarr") or hasattr(b, "_is_sarr") or has_sym(_np.asarray(a)) or has_sym(_np.asarray(b)):
            return union1d(a, b)
        return _np.union1d(a, b)

    def divmod(self, a, b):
        if hasattr(a, "_is_sarr"):
            return a.map(lambda v: divmod(v, b)[0]), a.map(lambda v: divmod(v, b)[1])
        return _np.divmod(a, b)


def _pair(f, g, a, b):
    if hasattr(a, "_is_sarr") or hasattr(b, "_is_sarr"):
        from seq import smap2
        return smap2(f, a, b)
    if not has_sym(a) and not has_sym(b) and g is not None:
        return g(a, b)
    if _np.ndim(a) == 0 and _np.ndim(b) == 0:
        return f(a, b)
    a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    out = _np.empty(a.shape, dtype=object)
    for ix in _np.ndindex(*a.shape):
        out[ix] = f(a[ix], b[ix])
    return out.view(A)


def _np_outer(self, a, b):
    if not has_sym(a) and not has_sym(b):
        return _np.outer(a, b)
    return oarr([[x * y for y in b] for x in a])


def _np_array2string(self, x, *a, **k):
    if not has_sym(x):
        x = _np.asarray(x, dtype=float) if getattr(x, "dtype", None) == object else x
        return _np.array2string(x, *a, **k)
    sep = k.get("separator", " ")

    def go(v):
        if isinstance(v, _np.ndarray) and v.ndim:
            return "[" + sep.join(go(w) for w in v) + "]"
        return cur().text_of(v) if isinstance(v, Sym) else repr(float(v))
    return go(_np.asarray(x, dtype=object))


def _np_fromstring(self, s, dtype=float, count=-1, sep=""):
    if not isinstance(s, str):
        raise TypeError("fromstring() argument 1 must be read-only bytes-like object, not %s" % type(s).__name__)
    if CUR is not None and s.strip() in CUR.vtexts:
        return CUR.vtexts[s.strip()].copy()
    parts = s.split(sep) if sep.strip() else s.split()
    out = []
    for p in parts:
        p = p.strip()
        if not p and len(parts) == 1:
            break
        if CUR is not None and p in CUR.texts:
            out.append(CUR.texts[p])
        else:
            try:
                out.append(float(p))
            except ValueError:
                break           # deprecated numpy behaviour: stop at the first bad item
    return oarr(out) if out else _np.zeros(0)


NPShim.outer = _np_outer
NPShim.array2string = _np_array2string
NPShim.fromstring = _np_fromstring
NP = NPShim()


class MathShim:
    sin = staticmethod(lambda x: m_sin(x) if isinstance(x, Sym) or CUR else _math.sin(x))
    cos = staticmethod(lambda x: m_cos(x) if isinstance(x, Sym) or CUR else _math.cos(x))
    sqrt = staticmethod(m_sqrt)
    acos = staticmethod(lambda x: m_acos(x) if isinstance(x, Sym) else _math.acos(x))
    asin = staticmethod(lambda x: m_asin(x) if isinstance(x, Sym) else _math.asin(x))
    atan2 = staticmethod(lambda y, x: m_atan2(y, x))
    floor = staticmethod(m_floor)
    ceil = staticmethod(m_ceil)
    exp = staticmethod(lambda x: m_exp(x) if isinstance(x, Sym) else _math.exp(x))
    fabs = staticmethod(abs)

    @staticmethod
    def copysign(a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return _math.copysign(a, b)
        if isinstance(b, Sym):
            cur().V.trust("math.copysign: the sign of zero is positive")
        m = abs(a)
        if isinstance(a, Sym):
            d = cur().decide(a.e >= 0)
            m = a if d is True else -a if d is False else m
        return m if b >= 0 else -m

    @property
    def pi(self):
        return cur().pi() if CUR is not None else _math.pi

    def __getattr__(self, n):
        return getattr(_math, n)


MATH = MathShim()


def eq(a, b):
    """Equality as SBool/bool without forking."""
    if isinstance(a, Sym) and isinstance(b, SBool) or isinstance(a, SBool):
        return SBool(blift(a) == blift(b))
    if isinstance(a, Sym):
        return compare("==", a, b)
    if isinstance(b, Sym):
        return compare("==", b, a)
    return a == b


# ---------------------------------------------------------------------------
# runs

class Obligation:
    __slots__ = ("name", "fn", "status", "backend", "time", "inputs", "detail", "case", "path")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class Run:
    """Exploration of all paths of one verification body."""

    def __init__(self, V, name, fn):
        self.V, self.name, self.fn = V, name, fn
        self.dec = []
        self.stack = []
        self.reset()

    def reset(self):
        self.linear = {}
        self.branch_at = None
        self.atom_sets = {}
        self.pos = 0
        self.pc = []
        self.ring = Ring()
        self.memo = {}
        self.counter = 0
        self.genidx, self.active, self.lam_depth, self.sums = {}, [], 0, {}
        self.drawn = []             # arrays of random integers drawn so far
        self.scattered = []         # functions giving the last iteration that stores at a position
        self.inputs = {}
        self.samplers = {}
        self.defs = {}
        self.acos = []
        self.exps = []
        self.keep = []
        self.solver = z3.SolverFor("QF_NIRA") if False else z3.Solver()
        self.solver.set("timeout", BRANCH_TIMEOUT)
        self._pi = None
        self.nz = set()
        self.ranges = []
        self.case = None
        self.covered = False
        self.loops = []
        self.texts = {}
        self.vtexts = {}
        self.arrays = {}
        self.universals = []
        self.invariants = []        # annotations of loops (see loops.hoare)
        self.reds = {}
        self.text_ids = {}

    # -- symbols -----------------------------------------------------------
    def _name(self, n):
        self.counter += 1
        return "%s!%d" % (n, self.counter)

    def fresh_real(self, n="r"):
        return z3.Real(self._name(n))

    def fresh_int(self, n="i"):
        return z3.Int(self._name(n))

    def fresh_bool(self, n="b"):
        return z3.Bool(self._name(n))

    def pi(self):
        if self._pi is None:
            p = z3.Real("PI")
            self._pi = SReal(p)
            self.axiom(z3.And(p > z3.RealVal("3.14159265358979"), p < z3.RealVal("3.14159265358980")))
            self.define(p, lambda v: _math.pi)
        return self._pi

    def define(self, atom, f):
        self.defs[atom.get_id()] = f
        self.keep.append(atom)

    def text_of(self, x):
        """Printed form of a symbolic scalar (assumed contract: it reads back as x,
        exactly or to the printed precision)."""
        k = x.e.get_id()
        if k not in self.text_ids:
            t = "9%06d.5" % len(self.texts)
            self.text_ids[k] = t
            self.texts[t] = x
            self.keep.append(x.e)
        return self.text_ids[k]

    def vector_text(self, n, name="V"):
        """Text of a comma separated vector of n (symbolic) numbers."""
        from seq import SArr
        t = "[[vector %s %d]]" % (name, len(self.vtexts))
        self.vtexts[t] = SArr.input(self, name, (n,))
        return t

    # inputs
    def real(self, n, lo=None, hi=None, sampler=None):
        x = z3.Real(n)
        self.inputs[n] = x
        if lo is not None:
            self.axiom(x >= rv(lo))
        if hi is not None:
            self.axiom(x <= rv(hi))
        l, h = (-3.0 if lo is None else float(lo)), (3.0 if hi is None else float(hi))
        self.samplers[n] = sampler or (lambda rnd: rnd.uniform(l, h))
        return SReal(x)

    def int(self, n, lo=None, hi=None, sampler=None):
        x = z3.Int(n)
        self.inputs[n] = x
        if lo is not None:
            self.axiom(x >= lo)
        if hi is not None:
            self.axiom(x <= hi)
        l = -5 if lo is None else lo
        h = l + 20 if hi is None else hi
        self.samplers[n] = sampler or (lambda rnd: rnd.randint(l, h))
        return SInt(x)

    def bool(self, n):
        x = z3.Bool(n)
        self.inputs[n] = x
        self.samplers[n] = lambda rnd: rnd.random() < 0.5
        return SBool(x)

    def vec(self, n, k=3, **kw):
        return oarr([self.real("%s_%d" % (n, i), **kw) for i in range(k)])

    def mat(self, n, r, c, **kw):
        return oarr([[self.real("%s_%d_%d" % (n, i, j), **kw) for j in range(c)] for i in range(r)])

    def unit_quaternion(self, n):
        """All unit quaternions (w,x,y,z) = all rotations."""
        q = [self.real("%s_%s" % (n, c)) for c in "wxyz"]
        w, x, y, z = [v.e for v in q]
        self.axiom(w * w + x * x + y * y + z * z == 1)
        self.ring.relate_square(w, 1 - x * x - y * y - z * z)

        def norm(rnd, vals, names=["%s_%s" % (n, c) for c in "wxyz"]):
            v = [rnd.gauss(0, 1) for _ in names]
            if rnd.random() < 0.3:
                v[rnd.randrange(4)] = 0.0
            s = _math.sqrt(sum(t * t for t in v)) or 1.0
            for k, t in zip(names, v):
                vals[k] = t / s
        self.samplers["%s_w" % n] = norm
        for c in "xyz":
            self.samplers["%s_%s" % (n, c)] = None
        return q

    def rotation(self, n):
        w, x, y, z = self.unit_quaternion(n)
        return quat_matrix(w, x, y, z)

    def angle(self, n, half=False):
        """A symbolic angle; half=True gives 2*h so that half angles are atoms."""
        if half:
            h = self.real(n + "_half", sampler=lambda rnd: rnd.uniform(-1.6, 1.6))
            return h * 2
        return self.real(n, sampler=lambda rnd: rnd.choice([rnd.uniform(-3.1, 3.1), 0.0, 1.5707963267948966, -1.5707963267948966, 3.141592653589793]))

    # -- assumptions and branching ------------------------------------------
    def axiom(self, e):
        e = blift(e) if not isinstance(e, z3.ExprRef) else e
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, c):
        e = blift(c)
        if z3.is_false(z3.simplify(e)):
            raise EndPath()
        self.axiom(e)

    def atoms_of(self, e):
        k = e.get_id()
        r = self.atom_sets.get(k)
        if r is None:
            self.keep.append(e)
            if z3.is_const(e):
                r = frozenset() if e.decl().kind() != z3.Z3_OP_UNINTERPRETED else frozenset([k])
            elif z3.is_app(e):
                r = frozenset().union(*[self.atoms_of(c) for c in e.children()])
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r |= {-1 - e.decl().get_id()}
            else:
                r = frozenset([-1])
            self.atom_sets[k] = r
        return r

    def _sat(self, *es):
        t = time.time()
        if any(not self.is_linear(e) for e in es):
            # the facts about the same atoms only
            vs = frozenset().union(*[self.atoms_of(e) for e in es])
            for c in self.pc:
                a = self.atoms_of(c)
                if len(a) <= 4 and a & vs:
                    vs = vs | a
            rel = [c for c in self.pc if self.atoms_of(c) <= vs]
            if len(rel) < len(self.pc):
                sol = z3.Solver()
                sol.set("timeout", 300)
                sol.add(*rel)
                sol.add(*es)
                r = sol.check()
                if r == z3.unsat:
                    self.V.solver_time += time.time() - t
                    return r
        # linear facts first
        lin = [c for c in self.pc if self.is_linear(c)]
        if len(lin) < len(self.pc):
            sol = z3.Solver()
            sol.set("timeout", 300)
            sol.add(*lin)
            sol.add(*es)
            r = sol.check()
            if r == z3.unsat:
                self.V.solver_time += time.time() - t
                return r
            self.solver.set("timeout", min(BRANCH_TIMEOUT, 500))
        else:
            self.solver.set("timeout", BRANCH_TIMEOUT)
        r = self.solver.check(*es)
        self.V.solver_time += time.time() - t
        return r

    def decide(self, e):
        """True/False if the path condition settles e, else None."""
        q = decide_quick(e)
        if q is not None:
            return q
        if self._sat(z3.Not(e)) == z3.unsat:
            return True
        if self._sat(e) == z3.unsat:
            return False
        return None

    def known(self, e):
        """e follows from the linear facts of the path (a cheap check: False when it is not settled quickly)"""
        q = decide_quick(e)
        if q is not None:
            return q
        if not self.is_linear(e):
            return False
        sol = z3.Solver()
        sol.set("timeout", 150)
        sol.add(*[c for c in self.pc if self.is_linear(c)])
        sol.add(z3.Not(e))
        t = time.time()
        r = sol.check() == z3.unsat
        self.V.solver_time += time.time() - t
        return r

    def fork(self, e):
        q = decide_quick(e)
        if q is not None:
            return q
        if self.pos < len(self.dec):
            v = self.dec[self.pos][0]
            self.pos += 1
        else:
            f_ok = self._sat(z3.Not(e)) != z3.unsat
            t_ok = not f_ok or self._sat(e) != z3.unsat
            if not t_ok and not f_ok:
                raise EndPath()
            if t_ok and f_ok:
                v = True
                self.dec.append([True, False])     # value, exhausted
            else:
                v = t_ok
                self.dec.append([v, True])
            self.pos += 1
        if self.branch_at is not None:
            self.branch_at.append(len(self.pc))
        self.pc.append(e if v else z3.Not(e))
        self.solver.add(self.pc[-1])
        return v

    def merged(self, fn, assume=(), raw=False):
        """The value of fn() as one expression: its paths are explored locally and joined by
        if-then-else.  Nothing outside may be changed by fn."""
        dec, pos, branch, base, memo0, uni = self.dec, self.pos, self.branch_at, len(self.pc), self.memo, len(self.universals)
        roots = set(self.ring.rel)
        self.dec, self.pos = [], 0
        out, guarded, n = [], [], 0
        try:
            while True:
                n += 1
                if n > 200:
                    raise Unsupported("too many local paths")
                self.pos = 0
                self.memo = dict(memo0)
                self.ring.hidden.update(set(self.ring.rel) - roots)
                self.branch_at = []
                self.solver.push()
                try:
                    for a in assume:
                        self.branch_at.append(len(self.pc))
                        self.pc.append(a)
                        self.solver.add(a)
                    val, ok = fn(), True
                except EndPath:
                    ok = False
                except (Unsupported, z3.Z3Exception, TooBig, RecursionError):
                    raise
                except Exception as ex:
                    if _engine_fault(ex):
                        raise
                    if self._sat() == z3.unsat:
                        ok = False
                    else:
                        raise Unsupported("an element may raise %s: %s" % (type(ex).__name__, ex))
                finally:
                    new = self.pc[base:]
                    marks = {k - base for k in self.branch_at}
                    self.solver.pop()
                    del self.pc[base:]
                cond = []
                for k, e in enumerate(new):
                    if k in marks:
                        cond.append(e)
                    else:
                        guarded.append(z3.Implies(z3.And(*cond), e) if cond else e)
                if ok:
                    out.append((z3.And(*cond[len(assume):]) if len(cond) > len(assume) else z3.BoolVal(True), val))
                if not self.backtrack():
                    break
        finally:
            keep = self.memo
            self.dec, self.pos, self.branch_at, self.memo = dec, pos, branch, memo0
        if n == 1 and not assume:
            self.memo = keep
        else:
            self.ring.hidden.update(set(self.ring.rel) - roots)
        for g in guarded:
            self.axiom(g)
        if raw:
            return out
        if not out:
            raise EndPath()
        return join(out)

    def choose(self, n):
        """Non-deterministic concrete choice 0..n-1 (all explored)."""
        for i in range(n - 1):
            b = self.fresh_bool("choice")
            if self.fork(b):
                return i
        return n - 1

    def backtrack(self):
        while self.dec and self.dec[-1][1]:
            self.dec.pop()
        if not self.dec:
            return False
        self.dec[-1] = [not self.dec[-1][0], True]
        return True

    def require_nonzero(self, e):
        k = e.get_id()
        if k in self.nz:
            return
        self.nz.add(k)
        self.keep.append(e)
        if self._sat(e == 0) == z3.unsat:
            return
        # a zero divisor is a path of its own
        if self.fork(e == 0):
            raise ZeroDivisionError("division by zero")

    def note_range(self, e, rng, t):
        self.ranges.append((e, rng, t))

    # -- obligations --------------------------------------------------------
    def prove(self, name, cond):
        t0 = time.time()
        if isinstance(cond, _np.ndarray) or isinstance(cond, (list, tuple)):
            cond = sall(list(_np.asarray(cond, dtype=object).reshape(-1)))
        e = blift(cond)
        ok, backend, vals = self._prove(e)
        self.V.record(Obligation(name="%s: %s" % (self.name, name), fn=self.fn,
                                 status={True: "discharged", False: "refuted", None: "unknown"}[ok],
                                 backend=backend, time=time.time() - t0, inputs=vals,
                                 case=self._case(vals), path=len(self.pc),
                                 detail=None if ok else str(z3.simplify(e))[:300]))
        return ok

    def _case(self, vals):
        if vals is None or self.case is None:
            return None
        try:
            return self.case(vals)
        except Exception:
            return None

    def prove_eq(self, name, a, b):
        t0 = time.time()
        a = _np.asarray(a, dtype=object)
        b = _np.asarray(b, dtype=object)
        if a.shape != b.shape:
            try:
                a, b = _np.broadcast_arrays(a, b) if a.ndim == 0 or b.ndim == 0 else (a, b)
            except ValueError:
                pass
        if a.shape != b.shape:
            vals = self.find_model(z3.BoolVal(True))
            self.V.record(Obligation(name="%s: %s" % (self.name, name), fn=self.fn, status="refuted", backend="shape",
                                     time=0, inputs=vals, case=self._case(vals), detail="shape %s != %s" % (a.shape, b.shape)))
            return False
        rest = []
        for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist()):
            if (isinstance(x, Sym) or isinstance(y, Sym)) and not isinstance(x, SBool) and not isinstance(y, SBool):
                if is_inf(x) or is_inf(y):
                    rest.append(z3.BoolVal(False))
                    continue
                if self.ring.equal(lift(x), lift(y)):
                    continue
                rest.append(lift(x) == lift(y))
            else:
                q = eq(x, y)
                if isinstance(q, (bool, _np.bool_)) and q:
                    continue
                rest.append(blift(q))
        if not rest:
            self.V.record(Obligation(name="%s: %s" % (self.name, name), fn=self.fn, status="discharged",
                                     backend="ring", time=time.time() - t0))
            return True
        return self.prove(name, SBool(z3.And(*rest)))

    def instantiate(self, *ix):
        """Use every universally quantified fact at these indices."""
        key = tuple(ilift(i).get_id() for i in ix)
        busy = self.memo.setdefault("instantiating", set())
        if key in busy:
            return
        busy.add(key)
        try:
            for n, inst in list(self.universals):
                if n == len(ix):
                    inst(list(ix))
        finally:
            busy.discard(key)

    def _prove(self, e):
        s = z3.simplify(e)
        if z3.is_true(s):
            return True, "simplifier", None
        if e.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(e.arg(0)):
            if self.ring.equal(e.arg(0), e.arg(1)):
                return True, "ring", None
        # ring-normalise conjunctions of equalities
        if e.decl().kind() == z3.Z3_OP_AND:
            left = [c for c in e.children() if not (c.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(c.arg(0)) and self.ring.equal(c.arg(0), c.arg(1)))]
            if not left:
                return True, "ring", None
            e = z3.And(*left)
        # fewer hypotheses first: the linear ones
        lin = [c for c in self.pc if self.is_linear(c)]
        if len(lin) < len(self.pc):
            sol = z3.Solver()
            sol.set("timeout", 2000)
            sol.add(*lin)
            sol.add(z3.Not(e))
            t = time.time()
            r = sol.check()
            self.V.solver_time += time.time() - t
            if r == z3.unsat:
                return True, "z3", None
        sol = z3.Solver()
        sol.set("timeout", min(2000, Z3_TIMEOUT))
        sol.add(*self.pc)
        sol.add(z3.Not(e))
        t = time.time()
        r = sol.check()
        self.V.solver_time += time.time() - t
        if r == z3.unsat:
            return True, "z3", None
        if r == z3.sat:
            vals = self.model_values(sol.model())
            return False, "z3", vals
        vals = self.numeric_refute(e)
        if vals is not None:
            return False, "numeric", vals
        for tac in ("default2", "nlsat"):
            sol = z3.Solver() if tac == "default2" else z3.Tactic("qfnra-nlsat").solver()
            sol.set("timeout", Z3_TIMEOUT)
            try:
                sol.add(*self.pc)
                sol.add(z3.Not(e))
                t = time.time()
                r = sol.check()
                self.V.solver_time += time.time() - t
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return True, "z3", None
            if r == z3.sat:
                return False, "z3", self.model_values(sol.model())
        r = self.cvc5(e)
        if r == "unsat":
            return True, "cvc5", None
        return None, "none", None

    def is_linear(self, e):
        k = e.get_id()
        c = self.linear.get(k)
        if c is None:
            self.keep.append(e)
            c = True
            if z3.is_app(e):
                d = e.decl().kind()
                ch = e.children()
                if d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) and not z3.is_int_value(x) for x in ch) > 1:
                    c = False
                elif d in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_rational_value(ch[1]):
                    c = False
                else:
                    c = all(self.is_linear(x) for x in ch)
            elif z3.is_quantifier(e):
                c = self.is_linear(e.body())
            self.linear[k] = c
        return c

    def cvc5(self, e):
        sol = z3.Solver()
        sol.add(*self.pc)
        sol.add(z3.Not(e))
        txt = "(set-logic ALL)\n" + sol.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        t = time.time()
        try:
            out = subprocess.run(["cvc5", "--tlimit=%d" % Z3_TIMEOUT, "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=Z3_TIMEOUT / 1000 + 5).stdout
        except Exception:
            out = ""
        finally:
            os.unlink(f.name)
            self.V.solver_time += time.time() - t
        return out.strip().split("\n")[0] if out else "unknown"

    def find_model(self, e):
        sol = z3.Solver()
        sol.set("timeout", 2000)
        sol.add(*self.pc)
        sol.add(e)
        if sol.check() == z3.sat:
            return self.model_values(sol.model())
        return self.numeric_refute(z3.Not(e))

    def model_values(self, m):
        out = {}
        for n, x in self.inputs.items():
            v = m.eval(x, model_completion=True)
            out[n] = z3num(v)
        for n, (fn, shape, kind, lo, hi) in self.arrays.items():
            out[n] = self.array_values(n, lambda ix: z3num(m.eval(fn(*[z3.IntVal(i) for i in ix]), model_completion=True)),
                                       lambda x: z3num(m.eval(x, model_completion=True)))
        return out

    # numeric evaluation of z3 expressions under input values
    def ev(self, e, vals, memo=None):
        k = e.get_id()
        if memo is None:
            memo = vals.setdefault("__memo", {})
        if k in memo:
            return memo[k]
        r = self._ev(e, vals, memo)
        memo[k] = r
        return r

    def _ev(self, e, vals, memo):
        if z3.is_rational_value(e):
            return e.numerator_as_long() / e.denominator_as_long()
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = e.decl()
        if e.num_args() == 0 and d.kind() == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n in vals:
                return vals[n]
            if e.get_id() in self.defs:
                return self.defs[e.get_id()](vals)
            raise KeyError(n)
        k = d.kind()
        ch = e.children()
        if k == z3.Z3_OP_ITE:
            return self.ev(ch[1], vals, memo) if self.ev(ch[0], vals, memo) else self.ev(ch[2], vals, memo)
        a = [self.ev(c, vals, memo) for c in ch]
        if k == z3.Z3_OP_UNINTERPRETED and d.name().startswith("fl@"):
            return a[0]
        if k == z3.Z3_OP_UNINTERPRETED and d.name() == "floor_of":
            return _math.floor(self.ev(ch[0], vals, memo) / self.ev(ch[1], vals, memo))
        if k == z3.Z3_OP_UNINTERPRETED and d.name() in self.arrays:
            return self.table(d.name(), tuple(int(x) for x in a), vals)
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r *= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1]
        if k == z3.Z3_OP_MOD:
            return a[0] % a[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return _math.floor(a[0])
        tol = 1e-9
        if k == z3.Z3_OP_EQ:
            if isinstance(a[0], bool) or isinstance(a[1], bool):
                return bool(a[0]) == bool(a[1])
            return abs(a[0] - a[1]) <= tol * (1 + abs(a[0]))
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1] + tol
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1] - tol
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_DISTINCT:
            return abs(a[0] - a[1]) > tol
        if k == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if k == z3.Z3_OP_XOR:
            return bool(a[0]) != bool(a[1])
        raise KeyError("op %s" % d.name())

    def table(self, name, ix, vals):
        t = vals.setdefault("__tables", {}).setdefault(name, {})
        if ix not in t:
            fn, shape, kind, lo, hi = self.arrays[name]
            rnd = random.Random(repr((name, ix, vals.get("__salt", 0))))
            hi = hi(vals) if callable(hi) else hi
            if kind == "int":
                t[ix] = rnd.randint(-5 if lo is None else lo, (lo or 0) + 20 if hi is None else hi)
            else:
                t[ix] = rnd.uniform(-3 if lo is None else lo, 3 if hi is None else hi)
                if rnd.random() < 0.2 and lo is None:
                    t[ix] = float(round(t[ix]))
        return t[ix]

    def array_values(self, name, get, dims):
        import itertools
        ds = []
        for s in self.arrays[name][1]:
            v = int(s) if not isinstance(s, Sym) else int(dims(s.e))
            ds.append(max(0, min(v, 12)))
        out = _np.zeros(ds, dtype=object)
        for ix in itertools.product(*[range(d) for d in ds]):
            out[ix] = get(ix)
        return out.tolist()

    def numeric_refute(self, e, tries=400):
        """A concrete input violating e on this path (float evaluation), or None."""
        rnd = random.Random(12345)
        neg_strict = z3.simplify(e)
        for _ in range(tries):
            vals = {"__salt": _}
            try:
                for n, s in self.samplers.items():
                    if s is None:
                        continue
                    if s.__code__.co_argcount >= 2 and s.__name__ == "norm":
                        s(rnd, vals)
                    else:
                        vals[n] = s(rnd)
                if not all(self.ev(c, vals) for c in self.pc):
                    continue
                if self._violated(e, vals):
                    out = {k: v for k, v in vals.items() if not k.startswith("__")}
                    for n in self.arrays:
                        out[n] = self.array_values(n, lambda ix: self.table(n, ix, vals), lambda x: self.ev(x, vals))
                    return out
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                continue
        return None

    def _violated(self, e, vals):
        """e is false by a clear margin."""
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            return any(self._violated(c, vals) for c in e.children())
        if k == z3.Z3_OP_OR:
            return all(self._violated(c, vals) for c in e.children())
        m = 1e-6
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(e.arg(0)):
            a, b = self.ev(e.arg(0), vals), self.ev(e.arg(1), vals)
            if k == z3.Z3_OP_EQ:
                return abs(a - b) > m * (1 + abs(a))
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                return a > b + m
            return a < b - m
        return not self.ev(e, vals)


def z3num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


def quat_matrix(w, x, y, z):
    return oarr([
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


# ---------------------------------------------------------------------------

class Verifier:
    def __init__(self, repo, prop, tier="quick", seed=1):
        self.repo, self.prop, self.tier, self.seed = repo, prop, tier, seed
        self.obs = []
        self.solver_time = 0.0
        self.functions = {}       # function -> list of obligations bodies
        self.trusted = []
        self.assumptions = []
        self.notes = []
        self.undecided = []       # (name, reason)
        self.deferred = None      # list: bodies to be run in parallel at the end
        self.paths = 0
        self.covers = 0
        self.t0 = time.time()
        self.budget = float(os.environ.get("PYVC_BUDGET", "240" if tier == "quick" else "700"))

    def record(self, ob):
        self.obs.append(ob)

    def trust(self, *msgs):
        for m in msgs:
            if m not in self.trusted:
                self.trusted.append(m)

    def assume(self, *msgs):
        for m in msgs:
            if m not in self.assumptions:
                self.assumptions.append(m)

    def forall(self, name, fn, body, case=None, raises=(), max_paths=4000):
        """Run `body(S)` on every path; fn names the function(s) under contract."""
        global CUR
        if os.environ.get("PYVC_ONLY") and not re.search(os.environ["PYVC_ONLY"], name):
            return
        if self.deferred is not None:
            self._spawn((name, fn, body, case, raises, max_paths))
            return
        fns = [fn] if isinstance(fn, str) else list(fn)
        for f in fns:
            self.functions.setdefault(f, 0)
        run = Run(self, name, fns[0])
        n = 0
        before = len(self.obs)
        covered = False
        try:
            while True:
                run.reset()
                run.case = case
                CUR = run
                n += 1
                try:
                    body(run)
                    covered = True
                except EndPath:
                    pass
                except Unsupported:
                    raise
                except raises as ex:
                    covered = True
                except (Exception,) as ex:
                    if isinstance(ex, (z3.Z3Exception, TooBig, RecursionError)) or _engine_fault(ex):
                        raise Unsupported("%s: %s" % (type(ex).__name__, ex))
                    # the code raised: the obligation `does not raise` fails on this path
                    vals = run.find_model(z3.BoolVal(True))
                    st = "refuted" if vals is not None else "unknown"
                    self.record(Obligation(name="%s: no exception" % name, fn=fns[0], status=st, backend="path",
                                           time=0, inputs=vals, case=run._case(vals),
                                           detail="%s: %s at %s" % (type(ex).__name__, ex, _where(ex))))
                    covered = True
                if not run.backtrack():
                    break
                if n > max_paths or time.time() - self.t0 > self.budget:
                    raise Unsupported("path budget exhausted after %d paths" % n)
        except Unsupported as ex:
            self.undecided.append((name, "%s (%s)" % (ex, _where(ex))))
            self.obs[before:] = [o for o in self.obs[before:]]
        except Exception as ex:     # engine error: never a verdict
            self.undecided.append((name, "engine: %s: %s (%s)" % (type(ex).__name__, ex, _where(ex))))
        finally:
            CUR = None
        self.paths += n
        new = len(self.obs) - before
        if covered and new:
            self.covers += 1
        elif not any(u[0] == name for u in self.undecided):
            self.undecided.append((name, "vacuous: no feasible path reached an obligation"))
        for f in fns:
            self.functions[f] += new

    def _spawn(self, todo, workers=6):
        """Runs one body in a forked process, which sees everything built so far."""
        import pickle
        d = self.deferred
        d["running"] = [c for c in d["running"] if not self._reap(c)]
        while len(d["running"]) >= workers:
            time.sleep(0.02)
            d["running"] = [c for c in d["running"] if not self._reap(c)]
            if time.time() > self.t0 + self.budget + 20:
                break
        path = os.path.join(d["dir"], "r%d" % len(d["names"]))
        d["names"].append(todo[0])
        pid = os.fork()
        if pid == 0:
            try:
                _die_with_parent()
                self.deferred = None
                r = _job(self, todo)
                with open(path + ".tmp", "wb") as f:
                    pickle.dump(r, f)
                os.rename(path + ".tmp", path)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        d["running"].append(pid)

    def _reap(self, pid):
        return os.waitpid(pid, os.WNOHANG)[0] != 0

    def parallel(self, directory):
        self.deferred = {"running": [], "names": [], "dir": directory}

    def join(self):
        import pickle
        import signal
        d, self.deferred = self.deferred, None
        while d["running"] and time.time() < self.t0 + self.budget + 20:
            d["running"] = [c for c in d["running"] if not self._reap(c)]
            time.sleep(0.02)
        for c in d["running"]:
            os.kill(c, signal.SIGKILL)
            os.waitpid(c, 0)
        got = {}
        order = range(len(d["names"]))
        for i in order:
            try:
                got[i] = pickle.load(open(os.path.join(d["dir"], "r%d" % i), "rb"))
            except Exception:
                pass
        for i in order:
            if i not in got:
                self.undecided.append((d["names"][i], "no result (time limit, or the worker died)"))
                continue
            r = got[i]
            for o in r["obs"]:
                self.obs.append(Obligation(**o))
            self.undecided += r["undecided"]
            self.solver_time += r["solver"]
            self.paths += r["paths"]
            self.covers += r["covers"]
            for f, n in r["functions"].items():
                self.functions[f] = self.functions.get(f, 0) + n
            self.trust(*r["trusted"])
            self.assume(*r["assumptions"])
            for n in r["notes"]:
                if n not in self.notes:
                    self.notes.append(n)

    def summary(self):
        return {
            "obligations": len(self.obs),
            "discharged": sum(o.status == "discharged" for o in self.obs),
            "refuted": [(o.name, o.detail, o.inputs) for o in self.obs if o.status == "refuted"],
            "unknown": [o.name for o in self.obs if o.status == "unknown"],
            "undecided": self.undecided,
        }


def _die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _job(V, todo):
    V.obs, V.undecided, V.functions, V.trusted, V.assumptions, V.notes = [], [], {}, [], [], []
    V.solver_time, V.paths, V.covers = 0.0, 0, 0
    V.forall(*todo)
    plain = lambda d: None if d is None else {k: (v if isinstance(v, (int, float, bool, str, list, tuple, dict, type(None))) else str(v)) for k, v in d.items()}
    obs = []
    for o in V.obs:
        d = {k: getattr(o, k) for k in Obligation.__slots__}
        d["inputs"] = plain(d["inputs"])
        d["detail"] = None if d["detail"] is None else str(d["detail"])
        obs.append(d)
    return {"obs": obs, "undecided": [tuple(map(str, u)) for u in V.undecided], "functions": V.functions, "trusted": V.trusted,
               "assumptions": V.assumptions, "notes": V.notes, "solver": V.solver_time, "paths": V.paths, "covers": V.covers}


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    return " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))


def _engine_fault(ex):
    """Exception raised because symbolic data met code that cannot take it."""
    s = str(ex)
    if "RecursionError" in s:
        return True
    if isinstance(ex, TypeError) and ("SReal" in s or "SInt" in s or "SBool" in s or "SSeq" in s or "SArr" in s or "object arrays" in s or "loop of ufunc" in s or "A" == s):
        return True
    if isinstance(ex, (AttributeError, TypeError)) and any(t in s for t in ("SReal", "SInt", "SBool", "SArr", "SSeq", "Shim", "Opaque", "Stub", "float attribute", "ufunc")):
        return True
    tb = traceback.extract_tb(ex.__traceback__)
    last = os.path.basename(tb[-1].filename)
    if isinstance(ex, NameError) and os.path.dirname(tb[-1].filename) in (os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")):
        return True
    if isinstance(ex, (AttributeError, TypeError, IndexError, KeyError, ValueError)) and last in ("pyvc.py", "seq.py", "poly.py", "numeric.py", "fromnumeric.py", "cppfront.py", "shape_base.py"):
        return "math domain" not in s and "zero-size" not in s
    return False
