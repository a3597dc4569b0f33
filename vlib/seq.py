"""Arrays and sequences of symbolic length.

SArr   an array whose dimensions may be symbolic; elements are given by a
       function of the index, so element-wise code is verified for every
       length at one generic index.
Reductions over a symbolic axis (min, max, sum) are uninterpreted results
keyed by the canonical form of their generic element, with the defining axioms
(bounded by every element, attained at a witness) instantiated on demand.
"""
import ast
from fractions import Fraction
import math as _math

import numpy as _np
import z3

import loops
import pyvc
from pyvc import (A, NP, SBool, SInt, SNum, SReal, Sym, Unsupported, EndPath, arith, blift, cast, compare, cur, eq,
                  has_sym, ilift, is_num, ite, lift, m_sqrt, oarr, sall, smax2, smin2, _sum)


def idx(x):
    """index value as SInt/int"""
    if isinstance(x, SInt):
        e = z3.simplify(x.e)
        return e.as_long() if z3.is_int_value(e) else SInt(e)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    raise Unsupported("index %r" % (x,))


def dim_eq(a, b):
    a, b = idx(a), idx(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = eq(a, b)
    if isinstance(r, bool):
        return r
    return cur().decide(r.e)


def in_range(i, n):
    return z3.And(ilift(i) >= 0, ilift(i) < ilift(n))


class SArr:
    _is_sarr = True
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, shape, f, dtype=float, view=False):
        self.shape = tuple(idx(s) for s in shape)
        self.f = f
        self.decl = dtype
        self._view = view
        self._tick = next(loops.TICK)

    # -- construction --------------------------------------------------------
    @staticmethod
    def new(shape, kind, dtype=float):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        v = {"empty": None, "zeros": 0, "ones": 1}[kind]
        whole = not isinstance(dtype, str) and _np.dtype(dtype).kind in "iu" or isinstance(dtype, str) and dtype != "object" and _np.dtype(dtype).kind in "iu"

        def f(*ix):
            if v is None:
                return SInt(cur().fresh_int("uninit")) if whole else SReal(cur().fresh_real("uninit"))
            return SInt(z3.IntVal(v)) if whole else SReal(z3.RealVal(v))
        return SArr(shape, f, dtype)

    @staticmethod
    def input(S, name, shape, kind="real", lo=None, hi=None):
        """A fresh input array; symbolic dimensions are SInt."""
        sort = {"real": z3.RealSort(), "int": z3.IntSort()}[kind]
        fn = z3.Function(name, *([z3.IntSort()] * len(shape) + [sort]))
        S.arrays[name] = (fn, tuple(shape), kind, lo, hi)
        mkv = SReal if kind == "real" else SInt

        def f(*ix):
            e = fn(*[ilift(i) for i in ix])
            k = ("rng", e.get_id())
            if (lo is not None or hi is not None) and k not in S.memo:
                S.memo[k] = True
                S.keep.append(e)
                if lo is not None:
                    S.axiom(e >= lo)
                if hi is not None:
                    S.axiom(e <= hi)
            return mkv(e)
        return SArr(shape, f, float if kind == "real" else int)

    def generic(self, tag="g"):
        """Fresh indices in range (a universally quantified position)."""
        out = []
        for s in self.shape:
            if isinstance(s, int):
                if s == 1:
                    out.append(0)
                    continue
            i = SInt(cur().fresh_int(tag))
            cur().axiom(in_range(i, s))
            out.append(i)
        return out

    def at(self, *ix):
        return self.f(*[idx(i) for i in ix])

    # -- numpy interface -----------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return _np.dtype(self.decl)

    @property
    def T(self):
        return SView(self, self.shape[::-1], lambda f: lambda *ix: f(*ix[::-1]))

    def transpose(self, *a):
        return self.T

    def copy(self, *a):
        return SArr(self.shape, self.f, self.decl)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def _slen(self):
        return self.shape[0]

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of symbolic SArr")

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over a symbolic array outside an instrumented loop")

    def astype(self, t, *a, **k):
        f = self.f
        return SArr(self.shape, lambda *ix: cast(f(*ix), t), _np.dtype(t))

    def map(self, g):
        f = self.f
        return SArr(self.shape, lambda *ix: g(f(*ix)), self.decl)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        fr = loops.recording(self)
        if fr is not None:
            fr.reads.append((self, key))
            v = self._get(key)
            if isinstance(v, SArr):
                v.origin = (self, key)
                return v
            return v if not isinstance(v, Sym) else Cell(v, (self, key))
        return self._get(key)

    def __iadd__(self, o):
        if getattr(self, "origin", None) is not None:
            v = self._bin(o, "+")
            v.added = self.origin + (o,)
            return v
        if loops.recording(self):
            raise Unsupported("in-place addition in a loop")
        v = self._bin(o, "+")
        self.f, self.shape = v.f, v.shape
        return self

    def _get(self, key):
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - (len([k for k in key if k is not None]) - 1)) + key[p + 1:]
        shape, maps = [], []
        d = 0
        adv = None
        for k in key:
            if k is None:
                maps.append(("new",))
                shape.append(1)
                continue
            n = self.shape[d]
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice step")
                start = 0 if k.start is None else k.start
                stop = n if k.stop is None else k.stop
                if isinstance(start, int) and start < 0:
                    start = n + start
                if isinstance(stop, int) and stop < 0:
                    stop = n + stop
                if isinstance(n, int) and isinstance(stop, int):
                    stop = min(stop, n)
                maps.append(("slice", start))
                shape.append(stop - start)
            elif isinstance(k, (int, _np.integer, SInt)):
                if isinstance(k, (int, _np.integer)) and k < 0:
                    k = n + k
                maps.append(("int", k))
            elif hasattr(k, "_is_sarr") and k.decl is bool:
                raise Unsupported("boolean mask")
            elif hasattr(k, "_is_sarr") or isinstance(k, (_np.ndarray, list)):
                if adv is not None:
                    raise Unsupported("several index arrays")
                if not hasattr(k, "_is_sarr"):
                    kk = [idx(v) for v in k]
                    k = SArr((len(kk),), lambda i, kk=kk: pick(kk, i), int)
                if k.ndim != 1 and (len(key) != 1 or d):
                    raise Unsupported("index array rank")
                adv = k = snap(k)
                maps.append(("arr", k))
                shape += list(k.shape)
            else:
                raise Unsupported("index %r" % (k,))
            d += 1
        while d < self.ndim:
            maps.append(("slice", 0))
            shape.append(self.shape[d])
            d += 1
        def make(f):
            def g(*ix):
                src, p = [], 0
                for m in maps:
                    if m[0] == "new":
                        p += 1
                    elif m[0] == "slice":
                        src.append(ix[p] + m[1] if not (isinstance(m[1], int) and m[1] == 0) else ix[p])
                        p += 1
                    elif m[0] == "int":
                        src.append(m[1])
                    else:
                        src.append(m[1].f(*ix[p:p + m[1].ndim]))
                        p += m[1].ndim
                return f(*src)
            return g
        if not shape:
            return make(self.f)()
        if adv is None:
            return concrete(SView(self, shape, make))
        return concrete(SArr(shape, make(self.f), self.decl, True))

    def __setitem__(self, key, val):
        if self._view:
            raise Unsupported("assignment through a view")
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis or k is None for k in key):
            if len(key) == 1 and key[0] is Ellipsis:
                key = (slice(None),)
            else:
                raise Unsupported("assignment index")
        key = key + (slice(None),) * (self.ndim - len(key))
        if isinstance(val, SReal) and self.decl is not float and not isinstance(self.decl, str) and _np.dtype(self.decl).kind in "iu":
            val = pyvc.m_trunc(val)
        old = self.f
        conds, vdims = [], []
        for d, k in enumerate(key):
            if isinstance(k, slice):
                if k.step not in (None, 1) or isinstance(k.start, int) and k.start < 0 or isinstance(k.stop, int) and k.stop < 0:
                    raise Unsupported("slice assignment")
                st = k.start or 0 if not isinstance(k.start, SInt) else k.start
                conds.append(("slice", st, k.stop))
                vdims.append((self.shape[d] if k.stop is None else k.stop) - st)
            elif isinstance(k, (int, _np.integer, SInt)):
                if isinstance(k, (int, _np.integer)) and k < 0:
                    k = self.shape[d] + k
                conds.append(("int", k))
            else:
                raise Unsupported("assignment index %r" % (k,))
        fr = loops.recording(self)
        if fr is not None:
            ad = getattr(val, "added", None)
            if ad is not None and ad[0] is self and same_key(ad[1], key, self.ndim):
                fr.reads = [r for r in fr.reads if not (r[0] is self and same_key(r[1], key, self.ndim))]
                fr.effects.append((self, "add", key, ad[2]))
            else:
                fr.effects.append((self, "set", key, val))
            return
        v = snap(as_sarr(val)) if not is_scalar(val) else None

        def g(*ix):
            c = True
            vix = []
            for i, cd in zip(ix, conds):
                if cd[0] == "int":
                    q = eq(i, cd[1])
                else:
                    q = True
                    if not (isinstance(cd[1], int) and cd[1] == 0):
                        q = band(q, i >= cd[1])
                    if cd[2] is not None:
                        q = band(q, i < cd[2])
                    vix.append(i - cd[1] if not (isinstance(cd[1], int) and cd[1] == 0) else i)
                c = band(c, q)
            if c is False:
                return old(*ix)
            if v is None:
                nv = val
            else:
                sub = vix[len(vix) - v.ndim:] if v.ndim <= len(vix) else None
                if sub is None:
                    raise Unsupported("assignment rank")
                nv = v.f(*[0 if (isinstance(s, int) and s == 1) else i for i, s in zip(sub, v.shape)])
            if c is True:
                return nv
            return ite(c, nv, old(*ix))
        loops.touch(self, "f")
        self.f = g

    def _summary(self, *a):
        return loops.arr_summary(self, *a)

    def _apply(self, g):
        if isinstance(g, loops.Row):
            loops.recording(self).effects.append((self, "set", g.key, g.val))
            return
        if loops.recording(self):
            raise Unsupported("a nested loop changes an array of an outer loop")
        loops.touch(self, "f")
        self.f = g

    # -- arithmetic ----------------------------------------------------------
    def _bin(self, o, op, rop=False):
        g = (lambda x, y: arith(op, y, x)) if rop else (lambda x, y: arith(op, x, y))
        r = smap2(g, self, o)
        r.decl = joined(op, self.decl, o)
        return r

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __mod__(self, o): return self._bin(o, "%")
    def __pow__(self, o): return self._bin(o, "**")
    def __neg__(self): return self.map(lambda v: -v)
    def __abs__(self): return self.map(abs)

    def _cmp(self, o, op):
        r = smap2(lambda x, y: scmp(op, x, y), self, o)
        r.decl = bool
        return r

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    __hash__ = object.__hash__

    def __and__(self, o):
        r = smap2(lambda x, y: SBool(z3.And(blift(x), blift(y))), self, o)
        r.decl = bool
        return r

    def __or__(self, o):
        r = smap2(lambda x, y: SBool(z3.Or(blift(x), blift(y))), self, o)
        r.decl = bool
        return r

    def __invert__(self):
        r = self.map(lambda v: SBool(z3.Not(blift(v))))
        r.decl = bool
        return r

    def dot(self, o):
        return sdot(self, o)

    def __matmul__(self, o):
        return sdot(self, o)

    def __rmatmul__(self, o):
        return sdot(o, self)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == self.ndim and all(s == -1 or dim_eq(s, t) is True for s, t in zip(shape, self.shape)):
            return self
        if self.ndim == 1 and len(shape) == 2 and -1 not in shape[1:]:
            w = shape[1]
            f = self.f
            n = self.shape[0] // w if shape[0] == -1 else shape[0]
            return SArr((n, w), lambda i, j: f(i * w + j), self.decl, True)
        if self.ndim == 1 and len(shape) == 2 and shape[0] == 1:
            f = self.f
            return SArr((1, self.shape[0]), lambda i, j: f(j), self.decl, True)
        if self.ndim == 2 and len(shape) == 1:
            w = self.shape[1]
            f = self.f
            return SArr((self.shape[0] * w,), lambda i: f(*divmod(i, w)), self.decl, True)
        raise Unsupported("reshape %s -> %s" % (self.shape, shape))

    def squeeze(self, axis=None):
        if axis is not None:
            raise Unsupported("squeeze of an axis")
        keep = []
        for k, n in enumerate(self.shape):
            one = n == 1 if isinstance(n, int) else cur().fork(ilift(n) == 1)
            if not one:
                keep.append(k)
        f, nd = self.f, self.ndim

        def g(*ix):
            full = [0] * nd
            for k, i in zip(keep, ix):
                full[k] = i
            return f(*full)
        if not keep:
            return g()
        return SArr(tuple(self.shape[k] for k in keep), g, self.decl, True)

    def flatten(self):
        return self.reshape(-1) if self.ndim != 1 else self.copy()

    # -- reductions ----------------------------------------------------------
    def reduce(self, kind, axis):
        kind = {"amin": "min", "amax": "max"}.get(kind, kind)
        if axis is None:
            if self.ndim == 1:
                axis = 0
            else:
                return self.reduce(kind, self.ndim - 1).reduce(kind, None)
        axis = axis % self.ndim
        n = self.shape[axis]
        rest = self.shape[:axis] + self.shape[axis + 1:]
        f = self.f

        def g(*ix):
            def el(k):
                return f(*(ix[:axis] + (k,) + ix[axis:]))
            if isinstance(n, int):
                vals = [el(k) for k in range(n)]
                if kind == "min":
                    return pyvc._amin(vals)
                if kind == "max":
                    return pyvc._amax(vals)
                if kind == "sum":
                    return _sum(vals)
                if kind == "mean":
                    return _sum(vals) / n
                raise Unsupported(kind)
            return reduction(kind, n, el)
        if not isinstance(n, int) and kind in ("min", "max"):
            if cur().fork(ilift(n) == 0):
                raise ValueError("zero-size array to reduction operation has no identity")
        if not rest:
            return g()
        return concrete(SArr(rest, g, float if kind == "mean" and kind_of(self.decl) in "biu" else self.decl))

    def min(self, axis=None): return self.reduce("min", axis)
    def max(self, axis=None): return self.reduce("max", axis)
    def sum(self, axis=None): return self.reduce("sum", axis)
    def mean(self, axis=None): return self.reduce("mean", axis)

    def norm(self, axis):
        if axis is None and self.ndim != 1:
            raise Unsupported("norm of a matrix")
        sq = self.map(lambda v: v * v).reduce("sum", axis)
        return sq.map(m_sqrt) if hasattr(sq, "_is_sarr") else oarr([m_sqrt(v) for v in sq]) if isinstance(sq, _np.ndarray) else m_sqrt(sq)

    def all(self, axis=None):
        if axis is not None:
            raise Unsupported("all(axis)")
        f = self.f
        return ~self._exists(lambda *ix: z3.Not(blift(f(*ix))))

    def any(self, axis=None):
        if axis is not None:
            f = self.f
            n = self.shape[axis]
            if not isinstance(n, int):
                raise Unsupported("any(axis) over a symbolic axis")
            rest = self.shape[:axis] + self.shape[axis + 1:]
            r = SArr(rest, lambda *ix: SBool(z3.Or(*[blift(f(*(ix[:axis] + (k,) + ix[axis:]))) for k in range(n)])), bool)
            return r
        f = self.f
        return self._exists(lambda *ix: blift(f(*ix)))

    def _exists(self, p):
        """SBool b  <=>  some index satisfies p (witness + quantified axiom)."""
        return exists(self.shape, p)


class SView(SArr):
    """a view: what the array it belongs to holds now"""

    def __init__(self, base, shape, make):
        self.base, self.make = base, make
        SArr.__init__(self, shape, None, base.decl, True)

    @property
    def f(self):
        return self.make(self.base.f)

    @f.setter
    def f(self, v):
        if v is not None:
            raise Unsupported("assignment through a view")


def snap(x):
    """the array as it is now"""
    return SArr(x.shape, x.f, x.decl)


def same_key(a, b, nd):
    a = tuple(a) + (slice(None),) * (nd - len(a))
    b = tuple(b) + (slice(None),) * (nd - len(b))
    return len(a) == len(b) and all(x is y or type(x) is type(y) and repr(x) == repr(y) for x, y in zip(a, b))


class Cell(SReal):
    """A scalar read from an array inside a recorded loop body: remembers where it came from, for in-place additions."""

    def __init__(self, v, origin):
        SReal.__init__(self, lift(v))
        self.origin = origin

    def __iadd__(self, o):
        v = SReal(lift(self + o))
        v.added = self.origin + (o,)
        return v


def exists(shape, p):
    r = cur()
    lam = Lam(shape, lambda *ix: SBool(p(*ix)) if isinstance(p(*ix), z3.ExprRef) else p(*ix), True, len(shape))
    b = r.fresh_bool("exists")
    ws = [SInt(r.fresh_int("wit")) for s in shape]
    if len(shape) == 1:
        r.memo.setdefault("wits", []).append(ws[0])
    r.axiom(z3.Implies(b, z3.And(*([in_range(w, s) for w, s in zip(ws, shape)] + [lam.at(*[w.e for w in ws])]))))

    def inst(ix):
        r.axiom(z3.Implies(z3.And(z3.Not(b), *[in_range(i, s) for i, s in zip(ix, shape)]), z3.Not(lam.at(*[ilift(i) for i in ix]))))
    r.universals.append((len(shape), inst))
    return SBool(b)


def is_scalar(x):
    return is_num(x) or isinstance(x, Sym)


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return SBool(z3.And(blift(a), blift(b)))


def scmp(op, x, y):
    if isinstance(x, Sym):
        return compare(op, x, y)
    if isinstance(y, Sym):
        return compare({"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op], y, x)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


def pick(vals, i):
    """vals[i] for concrete list vals and possibly symbolic i."""
    if isinstance(i, SInt):
        i = idx(i)
    if isinstance(i, int):
        return vals[i]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = ite(SBool(i.e == k), vals[k], r)
    return r


def as_sarr(x):
    if hasattr(x, "_is_sarr"):
        return x
    if isinstance(x, (list, tuple, _np.ndarray)):
        a = _np.asarray(x, dtype=object)

        def f(*ix):
            ix = [idx(i) for i in ix]
            if all(isinstance(i, int) for i in ix):
                return a[tuple(ix)]
            # one symbolic index at a time
            k = next(j for j, i in enumerate(ix) if not isinstance(i, int))
            vals = [f(*(ix[:k] + [v] + ix[k + 1:])) for v in range(a.shape[k])]
            return pick(vals, ix[k])
        return SArr(a.shape, f)
    raise Unsupported("as_sarr %r" % type(x))


def concrete(s):
    """Back to an object array when every dimension is concrete."""
    if all(isinstance(d, int) for d in s.shape) and _np.prod(s.shape) <= 400:
        out = _np.empty(s.shape, dtype=object)
        for ix in _np.ndindex(*s.shape):
            out[ix] = s.f(*ix)
        return out.view(A)
    return s


def broadcast(sa, sb):
    n = max(len(sa), len(sb))
    a = (1,) * (n - len(sa)) + tuple(sa)
    b = (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            d = dim_eq(x, y)
            if d is None:
                if not cur().fork(ilift(x) == ilift(y)):
                    raise ValueError("operands could not be broadcast together")
            elif d is False:
                raise ValueError("operands could not be broadcast together with shapes %s %s" % (sa, sb))
            out.append(x)
    return tuple(out)


def kind_of(d):
    try:
        return _np.dtype(d).kind
    except TypeError:
        return "O"


def joined(op, d, o):
    """element type of an array expression"""
    k = kind_of(d)
    if k not in "biuf":
        return d
    if hasattr(o, "_is_sarr") or isinstance(o, _np.ndarray) and o.dtype != object:
        e = o.decl if hasattr(o, "_is_sarr") else o.dtype
        if kind_of(e) in "biuf":
            d = d if d is e else _np.result_type(d, e)
    elif k in "biu" and (isinstance(o, (float, SReal, Fraction)) and not isinstance(o, SInt) or isinstance(o, _np.floating)):
        d = float
    elif k == "b":
        d = int
    if op == "/" and kind_of(d) in "biu" or _np.dtype(d) == float:
        d = float
    return d


def smap2(g, a, b):
    if is_scalar(a):
        b = snap(b)
        return SArr(b.shape, lambda *ix: g(a, b.f(*ix)), b.decl)
    if is_scalar(b):
        a = snap(a)
        return SArr(a.shape, lambda *ix: g(a.f(*ix), b), a.decl)
    a, b = as_sarr(a), as_sarr(b)
    sh = broadcast(a.shape, b.shape)
    n = len(sh)
    fa, fb = a.f, b.f

    def sub(ix, s):
        return [0 if (isinstance(d, int) and d == 1) else i for i, d in zip(ix[n - len(s):], s)]
    return SArr(sh, lambda *ix: g(fa(*sub(ix, a.shape)), fb(*sub(ix, b.shape))), a.decl)


def sdot(a, b):
    a, b = as_sarr(a), as_sarr(b)
    k = a.shape[-1]
    k2 = b.shape[0] if b.ndim <= 2 else None
    if k2 is None or a.ndim > 2:
        raise Unsupported("dot rank")
    if dim_eq(k, k2) is not True:
        if dim_eq(k, k2) is False:
            raise ValueError("shapes not aligned")
        raise Unsupported("dot over unequal symbolic dimensions")
    if not isinstance(k, int):
        raise Unsupported("dot over a symbolic dimension")
    fa, fb = a.f, b.f
    if a.ndim == 2 and b.ndim == 2:
        return concrete(SArr((a.shape[0], b.shape[1]), lambda i, j: _sum([fa(i, t) * fb(t, j) for t in range(k)])))
    if a.ndim == 2:
        return concrete(SArr((a.shape[0],), lambda i: _sum([fa(i, t) * fb(t) for t in range(k)])))
    if b.ndim == 2:
        return concrete(SArr((b.shape[1],), lambda j: _sum([fa(t) * fb(t, j) for t in range(k)])))
    return _sum([fa(t) * fb(t) for t in range(k)])


def probe(seq):
    """An element, to learn its shape."""
    return seq.at(SInt(cur().fresh_int("probe")))


def el1(v, i):
    v = as_sarr(v) if hasattr(v, "_is_sarr") else v
    if hasattr(v, "_is_sarr"):
        return v.f(i)
    return pick(list(v), i)


def sstack(name, seq, axis=0, **k):
    if hasattr(seq, "_is_sarr"):
        raise Unsupported(name + " of an array")
    if is_symbolic_seq(seq):
        # a symbolic number of vectors
        p = as_sarr(cur().merged(lambda: seq.at(0)) if False else probe(seq))
        if any(not isinstance(d, int) for d in p.shape):
            raise Unsupported(name + " of arrays of symbolic size")
        if p.ndim == 1 and name in ("column_stack",) or (name == "stack" and axis in (1, -1) and p.ndim == 1):
            return SArr((p.shape[0], seq.n), lambda i, k: el1(seq.at(k), i))
        if p.ndim == 1 and name in ("vstack", "stack"):
            return SArr((seq.n, p.shape[0]), lambda k, i: el1(seq.at(k), i))
        raise Unsupported(name + " of a symbolic number of arrays")
    seq = [snap(as_sarr(s)) if not is_scalar(s) else s for s in seq]
    if name == "stack":
        sh = seq[0].shape
        for s in seq[1:]:
            broadcast(sh, s.shape)
        ax = axis % (len(sh) + 1)

        def f(*ix):
            rest = ix[:ax] + ix[ax + 1:]
            return pick([s.f(*rest) for s in seq], ix[ax])
        return concrete(SArr(sh[:ax] + (len(seq),) + sh[ax:], f))
    if name == "column_stack":
        seq = [SArr((s.shape[0], 1), lambda i, j, s=s: s.f(i)) if s.ndim == 1 else s for s in seq]
        ax = 1
    elif name == "vstack":
        seq = [SArr((1,) + s.shape, lambda i, j, s=s: s.f(j)) if s.ndim == 1 else s for s in seq]
        ax = 0
    elif name == "hstack":
        ax = 0 if seq[0].ndim == 1 else 1
    else:
        ax = axis or 0
    nd = seq[0].ndim
    sh = list(seq[0].shape)
    total = 0
    offs = []
    for s in seq:
        if s.ndim != nd:
            raise ValueError("all the input arrays must have same number of dimensions")
        for d in range(nd):
            if d != ax:
                q = dim_eq(sh[d], s.shape[d])
                if q is False:
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
                if q is None and not cur().fork(ilift(sh[d]) == ilift(s.shape[d])):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        offs.append(total)
        total = total + s.shape[ax]
    sh[ax] = total

    def f(*ix):
        i = ix[ax]
        r = None
        for s, o in reversed(list(zip(seq, offs))):
            v = s.f(*(ix[:ax] + (i - o,) + ix[ax + 1:])) if not (isinstance(i, int) and isinstance(o, int) and i < o) else None
            if r is None:
                r = v
            elif v is None:
                continue
            else:
                nxt = o + s.shape[ax]
                c = scmp("<", i, nxt)
                r = ite(c, v, r)
        return r
    return concrete(SArr(sh, f))


def stile(x, reps):
    reps = reps if isinstance(reps, (tuple, list)) else (reps,)
    x = snap(as_sarr(x))
    if x.ndim == 1 and len(reps) == 2 and x.shape[0] is not None:
        # (r0, r1) tiling of a row
        n = x.shape[0]
        if isinstance(reps[1], int) and reps[1] == 1:
            return SArr((reps[0], n), lambda i, j: x.f(j))
    if x.ndim == 2 and isinstance(x.shape[1], int) and x.shape[1] == 1 and isinstance(reps[0], int) and reps[0] == 1:
        return SArr((x.shape[0], reps[1]), lambda i, j: x.f(i, 0))
    if x.ndim == 2 and isinstance(x.shape[0], int) and x.shape[0] == 1 and isinstance(reps[1], int) and reps[1] == 1:
        return SArr((reps[0], x.shape[1]), lambda i, j: x.f(0, j))
    raise Unsupported("tile")


class Lam:
    """A scalar as a function of an index 0 <= k < n: evaluated once at a generic index (paths
    joined), then instantiated.  Atoms that came up during the evaluation become functions of the index."""

    def __init__(self, n, el, boolean=False, dims=1):
        r = cur()
        # one generic index per nesting depth: an index of an enclosing evaluation is never used again inside it
        depth = r.lam_depth = r.lam_depth + 1
        gs = r.genidx.get((dims, depth))
        if gs is None:
            gs = r.genidx[dims, depth] = [r.fresh_int("k") for _ in range(dims)]
        self.gs = gs
        self.g = gs[0]
        ns = list(n) if isinstance(n, (tuple, list)) else [n]
        self.ns = ns
        c0, base = r.counter, len(r.pc)
        d0, u0 = set(r.defs), len(r.universals)
        # inside an enclosing evaluation the atoms are functions of its indices too
        self.ctx = list(r.active)
        r.active = r.active + list(gs)
        try:
            body = r.merged(lambda: el(*[SInt(g) for g in gs]), assume=[in_range(SInt(g), m) for g, m in zip(gs, ns) if not trivially(m)])
        finally:
            r.lam_depth = depth - 1
            r.active = r.active[:len(r.active) - len(gs)]
        self.body = body
        self.sym = isinstance(body, Sym)
        self.e = blift(body) if boolean else lift(body) if self.sym else None
        new = r.pc[base:]
        # atoms introduced during the evaluation
        self.fresh = {}
        if r.counter > c0:
            for e in new + ([self.e] if self.e is not None else []):
                for x in consts(e):
                    nm = x.decl().name()
                    if "!" in nm and not any(x.eq(g) for g in gs):
                        try:
                            num = int(nm.rsplit("!", 1)[1])
                        except ValueError:
                            continue
                        if num > c0:
                            self.fresh[x.get_id()] = (x, z3.Function("F" + nm, *([z3.IntSort()] * (len(self.ctx) + dims) + [x.sort()])))
        terms = {g.get_id() for g in gs} | set(self.fresh)
        self.axioms = [e for e in new if any(x.get_id() in terms for x in consts(e))]
        self.done = set()
        # universal facts that came up are universal at every index
        self.inner = [(n, inst, {}) for n, inst in r.universals[u0:]]

    def lifted(self, sub, n, inst, known):
        """a universal fact about the generic index, at another one"""
        r = cur()

        def use(jx):
            key = tuple(ilift(j).get_id() for j in jx)
            if key not in known:
                r.keep += [ilift(j) for j in jx]
                base, c0 = len(r.pc), r.counter
                inst(jx)
                known[key] = [e for e in r.pc[base:] if r.counter == c0]
            for e in known[key]:
                r.axiom(z3.substitute(e, *sub))
        r.universals.append((n, use))

    def at(self, *ix):
        """the z3 value at an index"""
        r = cur()
        ix = [ilift(i) for i in ix]
        sub = list(zip(self.gs, ix)) + [(x, F(*self.ctx, *ix)) for x, F in self.fresh.values()]
        if self.fresh or self.axioms or self.inner:
            k = tuple(i.get_id() for i in ix)
            if k not in self.done:
                self.done.add(k)
                r.keep += ix
                for x, F in self.fresh.values():
                    a = F(*self.ctx, *ix)
                    if x.get_id() in r.defs:
                        f = r.defs[x.get_id()]

                        def val(v, f=f, ix=ix):
                            w = {q: z for q, z in v.items() if q != "__memo"}
                            for g, i in zip(self.gs, ix):
                                w[g.decl().name()] = r.ev(i, v)
                            return f(w)
                        r.define(a, val)
                for a in self.axioms:
                    r.axiom(z3.substitute(a, *sub))
                if not any(i.eq(g) for i, g in zip(ix, self.gs)):
                    for n, inst, known in self.inner:
                        self.lifted(sub, n, inst, known)
        return z3.substitute(self.e, *sub)


def trivially(n):
    return False


def consts(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def reduction(kind, n, el):
    """min/max/sum/mean of el(k), 0 <= k < n (n > 0 for min/max)."""
    r = cur()
    if kind == "mean":
        return reduction("sum", n, el) / n
    lam = Lam(n, el)
    g, body = lam.g, lam.body
    if not lam.sym:
        if kind == "sum":
            return n * body
        return body
    e = lam.e
    dep, nf = False, None
    try:
        nf, df = r.ring.of(e)
        for m in list(nf) + list(df):
            for v, _ in m:
                a = r.ring.atoms[v]
                if occurs(a, g) or any(x.get_id() in lam.fresh for x in consts(a)):
                    dep = True
        if not dep:
            return n * body if kind == "sum" else body
    except pyvc.TooBig:
        pass
    key = ("red", kind, pyvc.canon(r, e), pyvc.canon(r, ilift(n)))
    if kind == "sum" and nf is not None and any(z3.is_app_of(r.ring.atoms[v], z3.Z3_OP_ITE) for m in nf for v, _ in m):
        nm = normal(e)
        r.keep.append(nm)
        key = ("red", kind, nm.get_id(), key[3])
    def sign(y):
        """if every element is non-negative, so is the sum (induction over its definition)"""
        if kind == "sum" and getattr(r, "nonneg_sums", False) and ("nonneg", y.get_id()) not in r.memo:
            r.memo[("nonneg", y.get_id())] = True
            if squares(e) or r.known(z3.Implies(in_range(SInt(g), n), e >= 0)):
                r.axiom(y >= 0)
        return pyvc.mk(y)
    if key in r.memo and not lam.fresh:
        return sign(r.memo[key])
    # the sum of a given term over a given range has one name in all paths of a run
    stable = kind == "sum" and not lam.fresh and not any(occurs(x, a) for x in (e, ilift(n)) for a in r.active)
    if stable and key in r.sums:
        return sign(r.sums[key])
    y = r.fresh_int(kind) if kind in ("min", "max") and z3.is_int(e) else r.fresh_real(kind)
    r.keep += [e, y]
    r.memo[key] = y
    if stable:
        r.sums[key] = y

    def value(v, kind=kind):
        cnt = int(r.ev(ilift(n), v))
        xs = []
        for t in range(cnt):
            w = {q: z for q, z in v.items() if q != "__memo"}
            w[g.decl().name()] = t
            xs.append(r.ev(e, w))
        return min(xs) if kind == "min" else max(xs) if kind == "max" else sum(xs)
    r.define(y, value)
    if kind in ("min", "max"):
        w = r.fresh_int("arg")
        r.axiom(in_range(SInt(w), n))
        r.axiom(y == lam.at(w))

        def inst(ix):
            i = ilift(ix[0])
            b = lam.at(i)
            r.axiom(z3.Implies(in_range(ix[0], n), y <= b if kind == "min" else y >= b))
        r.universals.append((1, inst))
        r.reds[y.get_id()] = (kind, n, e, g, SInt(w))
    return sign(y)


def squares(e):
    """syntactically a sum of squares"""
    if z3.is_add(e):
        return all(squares(x) for x in e.children())
    if z3.is_mul(e):
        c = e.children()
        return len(c) == 2 and c[0].eq(c[1])
    return z3.is_rational_value(e) and e.as_fraction() >= 0


def normal(e):
    """the same term with arithmetic simplified and the sides of equations in a fixed order: a key, not used in proofs"""
    e = z3.simplify(e)
    done = {}

    def go(x):
        i = x.get_id()
        if i not in done:
            ch = [go(c) for c in x.children()]
            if z3.is_eq(x):
                ch.sort(key=lambda c: c.sexpr())
                done[i] = ch[0] == ch[1]
            elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                done[i] = x.decl()(*ch)
            else:
                done[i] = x
        return done[i]
    return go(e)


def occurs(e, v):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def union1d(a, b):
    """numpy.union1d by its contract: the values of both arrays, each once, in increasing order.
    Kept in run.memo["unions"]: the arrays, the source of each value and the place of each source."""
    r = cur()
    a, b = [x if hasattr(x, "_is_sarr") else _np.asarray(x).reshape(-1) for x in (a, b)]
    if any(len(x.shape) != 1 for x in (a, b)):
        raise Unsupported("union1d of arrays with several dimensions")
    if not a.shape[0] if isinstance(a.shape[0], int) else False:
        a = None
    if not b.shape[0] if isinstance(b.shape[0], int) else False:
        b = None
    get = lambda x, i: x.at(i) if hasattr(x, "_is_sarr") else pick(list(x), i)
    na, nb = [ilift(0) if x is None else ilift(x.shape[0]) for x in (a, b)]
    r.counter += 1
    k, I = r.counter, z3.IntSort()
    probe = [get(x, SInt(r.fresh_int("u"))) for x in (a, b) if x is not None]
    sort = I if all(pyvc.is_inty(p) for p in probe) else z3.RealSort()
    up = ilift if sort == I else lift
    src, pa, pb, U = z3.Function("src!%d" % k, I, I), z3.Function("posa!%d" % k, I, I), z3.Function("posb!%d" % k, I, I), z3.Function("union!%d" % k, I, sort)
    m = r.fresh_int("m")
    r.axiom(m >= 0)

    def at(j):
        j = ilift(j)
        s = src(j)
        r.axiom(z3.Implies(z3.And(j >= 0, j < m), z3.And(s >= 0, s < na + nb)))
        if b is None or a is not None and r.fork(s < na):
            r.instantiate(SInt(s))
            v = get(a, SInt(s))
        else:
            r.instantiate(SInt(s - na))
            v = get(b, SInt(s - na))
        r.axiom(z3.Implies(z3.And(j >= 0, j < m), U(j) == up(v)))
        return v

    def order(ix):
        i, j = map(ilift, ix)
        r.axiom(z3.Implies(z3.And(i >= 0, i < j, j < m), U(i) < U(j)))
        r.axiom(z3.Implies(z3.And(j >= 0, j < i, i < m), U(j) < U(i)))
    r.universals.append((2, order))

    def place(ix, x, n, pos):
        i = ilift(ix[0])
        r.axiom(z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(i) >= 0, pos(i) < m, U(pos(i)) == up(get(x, SInt(i))))))
    if a is not None:
        r.universals.append((1, lambda ix: place(ix, a, na, pa)))
    if b is not None:
        r.universals.append((1, lambda ix: place(ix, b, nb, pb)))
    r.memo.setdefault("unions", []).append({"src": src, "pa": pa, "pb": pb, "na": na, "m": m, "U": U})
    return SArr((SInt(m),), at, int if sort == I else float)


def prove_arr(S, name, a, b):
    """a == b for every shape and every index."""
    if not hasattr(a, "_is_sarr") and not hasattr(b, "_is_sarr"):
        return S.prove_eq(name, a, b)
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim != b.ndim:
        return S.prove(name + " (rank %d = %d)" % (a.ndim, b.ndim), False)
    for d, (x, y) in enumerate(zip(a.shape, b.shape)):
        q = dim_eq(x, y)
        if q is not True:
            if not S.prove(name + " (dimension %d)" % d, eq(x, y)):
                return False
    ix = a.generic()
    # concrete dimensions are enumerated, symbolic ones stay generic
    dims = [range(s) if isinstance(s, int) else [None] for s in a.shape]
    la, lb = [], []
    import itertools
    for combo in itertools.product(*dims):
        jx = [i if c is None else c for c, i in zip(combo, ix)]
        la.append(a.f(*jx))
        lb.append(b.f(*jx))
    return S.prove_eq(name, oarr(la), oarr(lb))


def witnesses(S):
    """Index terms at which minima, maxima and existential facts of this path are attained."""
    out = [SInt(z3.IntVal(0))] + [w for _, _, _, _, w in S.reds.values()] + list(S.memo.get("wits", []))
    for F in S.memo.get("filters", []):
        for w in list(out):
            F.position(w.e)
            out.append(SInt(F.pos(w.e)))
    return out


def bound_and_attained(S, name, kind, val, n, el, has=None):
    """val is the minimum (maximum) of el(i) over 0 <= i < n with has(i)."""
    i = SInt(S.fresh_int("any"))
    S.axiom(in_range(i, n))
    S.instantiate(i)
    for F in S.memo.get("filters", []):
        S.instantiate(SInt(F.inv(i.e)))
    v = pyvc.lift(val)
    h = (lambda q: pyvc.blift(has(q))) if has else (lambda q: z3.BoolVal(True))
    e = pyvc.lift(el(i))
    S.prove(name + " bounds every element", SBool(z3.Implies(h(i), v <= e if kind == "min" else v >= e)))
    ws = witnesses(S)
    for w in ws:
        S.instantiate(w)
    S.prove(name + " is attained", SBool(z3.Or(*[z3.And(in_range(w, n), h(w), v == pyvc.lift(el(w))) for w in ws])))


def srange(*a):
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    if len(a) == 3 and isinstance(a[2], int) and a[2] == 1:
        return SRange(a[0], a[1])
    if len(a) == 3 and isinstance(a[2], int) and a[2] == -1:
        d = a[0] - a[1]
        n = d if isinstance(d, SInt) and cur().known(d.e >= 0) else pyvc.smax2(d, 0)
        return SSeq(n, lambda i: a[0] - i)
    if len(a) == 3 and isinstance(a[2], int) and a[2] > 1:
        c, lo = a[2], a[0]
        d = a[1] - lo
        n = (d + (c - 1)) // c
        n = n if isinstance(n, SInt) and cur().known(n.e >= 0) else pyvc.smax2(n, 0)
        return SSeq(n, lambda i: i * c + lo)
    raise Unsupported("range with step")


class SSeq:
    """A sequence of symbolic length: n and the element at an index."""
    _is_sseq = True

    def __init__(self, n, at, mutable=True):
        self.n, self._at = n, at
        self._tick = next(loops.TICK)

    _summary = loops.seq_summary

    def _apply(self, seg):
        if loops.recording(self):
            raise Unsupported("a nested loop extends a sequence of an outer loop")
        self.extend(seg)

    def _slen(self):
        return self.n

    def __len__(self):
        n = self.n
        if isinstance(n, int):
            return n
        v = z3.simplify(ilift(n))
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("length of a symbolic sequence as a machine number")

    def __bool__(self):
        return bool(scmp(">", self.n, 0))

    def at(self, i):
        return self._at(idx(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("slice step of a symbolic sequence")
            def norm(v):
                v = idx(v)
                w = pyvc.ite(scmp("<", v, 0), pyvc.smax2(self.n + v, 0), pyvc.smin2(v, self.n))
                return w
            lo = 0 if i.start is None else norm(i.start)
            hi = self.n if i.stop is None else norm(i.stop)
            return SSeq(pyvc.smax2(hi - lo, 0), lambda k: self.at(lo + k))
        i = idx(i)
        neg = scmp("<", i, 0)
        if neg is True or (neg is not False and bool(neg)):
            i = i + self.n
        ok = in_range(i, self.n)
        if not cur().fork(ok):
            raise IndexError("list index out of range")
        return self.at(i)

    def __iter__(self):
        try:
            n = len(self)
        except Unsupported:
            raise Unsupported("iteration over a symbolic sequence")
        return iter([self.at(i) for i in range(n)])

    def __add__(self, o):
        a, b = self, sseq(o)
        return SSeq(a.n + b.n, lambda i: pick_seq(a, b, i))

    def __radd__(self, o):
        return sseq(o) + self

    def copy(self):
        return SSeq(self.n, self._at)

    def append(self, x):
        if loops.record(self, "append", x):
            return
        n, f = self.n, self._at
        self._at = lambda i: pick_seq(SSeq(n, f), SSeq(1, lambda k: x), i)
        self.n = n + 1

    def extend(self, o):
        if loops.record(self, "extend", o):
            return
        n, f, o = self.n, self._at, sseq(o)
        self._at = lambda i: pick_seq(SSeq(n, f), o, i)
        self.n = n + o.n

    def sort(self, key=None, reverse=False):
        """list.sort: a permutation that puts the keys in order (equal keys in any order)"""
        import npseq
        if loops.recording(self):
            raise Unsupported("a loop sorts a sequence of an outer loop")
        if not isinstance(reverse, bool):
            raise Unsupported("sort order")
        n, f = self.n, self._at
        k = key or (lambda x: x)
        o = npseq.Order(SArr((n,), lambda i: -k(f(i)) if reverse else k(f(i)), float))
        o.reverse = reverse
        cur().memo.setdefault("sorts", []).append(o)
        self._at = lambda j: f(o.at(j))
        self.order = o

    def _ssum(self, start=0):
        return reduction("sum", self.n, lambda k: self.at(k)) + start


def pick_seq(a, b, i):
    c = scmp("<", i, a.n)
    if c is True:
        return a.at(i)
    if c is False:
        return b.at(i - a.n)
    if bool(c):
        return a.at(i)
    return b.at(i - a.n)


def sseq(x):
    if hasattr(x, "_is_sseq"):
        return x
    if hasattr(x, "_is_sarr"):
        return SSeq(x.shape[0], lambda i: x[i] if x.ndim > 1 else x.f(i))
    x = list(x)
    return SSeq(len(x), lambda i: pick(x, i))


def is_symbolic_seq(x):
    t = type(x)
    if not (hasattr(t, "_is_sseq") or hasattr(t, "_is_sarr")):
        return False
    if hasattr(x, "_is_sseq"):
        return not isinstance(x._slen(), int)
    if hasattr(x, "_is_sarr"):
        return not isinstance(x.shape[0], int)
    return False


class SRange(SSeq):
    _is_sseq = True

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        d = self.hi - self.lo
        self.n = d if isinstance(d, SInt) and cur().known(d.e >= 0) else pyvc.smax2(d, 0)
        self._at = lambda i: i + lo if not (isinstance(lo, int) and lo == 0) else i


def szip(*xs):
    xs = [sseq(x) for x in xs]
    n = xs[0].n
    for x in xs[1:]:
        n = pyvc.smin2(n, x.n) if not (isinstance(n, int) and isinstance(x.n, int)) else min(n, x.n)
    return SSeq(n, lambda i: tuple(x.at(i) for x in xs))


def senumerate(x, start=0):
    x = sseq(x)
    return SSeq(x.n, lambda i: (i + start, x.at(i)))


def slist(x=()):
    return sseq(x).copy()


stuple = slist


def smap(f, *xs):
    z = szip(*xs)
    return SSeq(z.n, lambda i: f(*z.at(i)))


def sreversed(x):
    x = sseq(x)
    return SSeq(x.n, lambda i: x.at(x.n - 1 - i))


class Filter:
    """The indices 0 <= i < n with p(i), in order: m of them, the j-th is pos(j)."""

    def __new__(cls, n, p):
        lam = Lam(n, p, True)
        if not lam.sym:
            lam.e = z3.BoolVal(bool(lam.body))
        o = object.__new__(cls)
        o.lam = lam
        if not any(x.get_id() in lam.fresh for x in consts(lam.e)):
            # the same condition over the same range selects the same indices
            r = cur()
            ne, nn = normal(lam.e), z3.simplify(ilift(n))
            r.keep += [ne, nn, lam.e]
            return r.memo.setdefault(("filter", ne.get_id(), nn.get_id(), lam.g.get_id()), o)
        return o

    def __init__(self, n, p):
        r = cur()
        if hasattr(self, "m"):
            return
        self.n = n
        lam = self.lam
        self.m = r.fresh_int("count")
        t = r._name("sel")
        self.pos = z3.Function("pos" + t, z3.IntSort(), z3.IntSort())
        self.inv = z3.Function("inv" + t, z3.IntSort(), z3.IntSort())
        r.axiom(z3.And(self.m >= 0, self.m <= ilift(n)))
        wit = r.fresh_int("wit")
        r.axiom(z3.Implies(self.m > 0, z3.And(in_range(SInt(self.pos(z3.IntVal(0))), n), lam.at(self.pos(z3.IntVal(0))))))
        self.seen = {}

        def inst(ix):
            self.member(ilift(ix[0]))
        r.universals.append((1, inst))

        def order(ix):
            i, j = ilift(ix[0]), ilift(ix[1])
            r.axiom(z3.Implies(z3.And(i >= 0, i < j, j < self.m), self.pos(i) < self.pos(j)))
        r.universals.append((2, order))

        def value(v):
            cnt = int(r.ev(ilift(n), v))
            return [t for t in range(cnt) if r.ev(lam.at(z3.IntVal(t)), v)]
        self.value = value
        r.memo.setdefault("filters", []).append(self)
        r.define(self.m, lambda v: len(value(v)))

    def member(self, i):
        """facts about original index i, and about position i"""
        r, lam = cur(), self.lam
        k = ("m", self.pos.get_id(), i.get_id())
        if k in r.memo:
            return
        r.memo[k] = True
        r.keep.append(i)
        ok = in_range(SInt(i), self.n)
        v = self.inv(i)
        r.axiom(z3.Implies(z3.And(ok, lam.at(i)), z3.And(v >= 0, v < self.m, self.pos(v) == i)))
        self.position(i)

    def position(self, j):
        r, lam = cur(), self.lam
        k = ("p", self.pos.get_id(), j.get_id())
        if k in r.memo:
            return
        r.memo[k] = True
        r.keep.append(j)
        q = self.pos(j)
        r.define(q, lambda v: (lambda L, t: L[t] if 0 <= t < len(L) else -1)(self.value(v), int(r.ev(j, v))))
        r.axiom(z3.Implies(z3.And(j >= 0, j < self.m), z3.And(in_range(SInt(q), self.n), lam.at(q), self.inv(q) == j)))


def comprehension(elt, conds, it):
    """[elt(x) for x in it if all conds] -- symbolic when `it` is."""
    it = loops.keys_of(it)
    if not is_symbolic_seq(it):
        return [elt(x) for x in it if all(c(x) for c in conds)]
    elt, conds = loops.freeze(elt), [loops.freeze(c) for c in conds]
    s = sseq(it).copy() if hasattr(it, "_is_sseq") else sseq(it)

    def body(x):
        if all(c(x) for c in conds):
            out.append(elt(x))
    out = loops.TList()
    if loops.has_effects(s, lambda x: all(c(x) for c in conds) and (elt(x), None)[1]):
        loops.run_loop(s, body)
        return out
    elt, conds = loops.pure(elt), [loops.pure(c) for c in conds]
    if not conds:
        return SSeq(s.n, loops.then(lambda i: elt(s.at(i))))

    @loops.then
    def p(k):
        x = s.at(k)
        for c in conds:
            if not c(x):
                return False
        return True
    F = Filter(s.n, p)

    @loops.then
    def at(j):
        F.position(ilift(j))
        return elt(s.at(SInt(F.pos(ilift(j)))))
    out = SSeq(SInt(F.m), at)
    out.filter = F
    return out


def genexp(elt, conds, it):
    it = loops.keys_of(it)
    if not is_symbolic_seq(it):
        return (elt(x) for x in it if all(c(x) for c in conds))
    return comprehension(elt, conds, it)


import ast


class Rewrite(ast.NodeTransformer, loops.ForRewrite):
    """Comprehensions with one generator become calls of `comprehension`, loops over a symbolic sequence calls of `run_loop`
    (loops over anything else stay as they are); nothing else changes."""

    def __init__(self):
        self.k = 0
        self.depth = 0

    def fun(self, target, body):
        """lambda <target>: body, with tuple targets taken apart"""
        self.k += 1
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(t, ast.Starred) for t in target.elts):
            t = "_t%d" % self.k
            names = []
            for q, e in enumerate(target.elts):
                if isinstance(e, ast.Name):
                    names.append(e.id)
                else:
                    n = "_u%d_%d" % (self.k, q)
                    names.append(n)
                    body = ast.Call(self.fun(e, body), [ast.Name(n, ast.Load())], [])
            if len(set(names)) != len(names):
                return None
            inner = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(t)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              ast.Call(inner, [ast.Starred(ast.Name(t, ast.Load()), ast.Load())], []))
        return None

    def visit_FunctionDef(self, node):
        self.depth += 1
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            self.generic_visit(node)
        else:
            self.containers(node)
            node.body = self.block(node.body, [])
        self.depth -= 1
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return node
        import copy
        fs = [self.fun(copy.deepcopy(g.target), x) for x in [node.key, node.value] + g.ifs]
        if any(f is None for f in fs):
            return node
        return ast.copy_location(ast.Call(ast.Name("dictcomp_", ast.Load()), fs[:2] + [ast.List(fs[2:], ast.Load()), g.iter], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "list" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            node.func = ast.copy_location(ast.Name("list_", ast.Load()), node.func)
        return node

    def comp(self, node, name):
        self.generic_visit(node)
        if not self.depth or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return node
        if any(isinstance(x, ast.Name) and x.id in ("__class__", "super") for x in ast.walk(node)):
            return node
        import copy
        f = self.fun(g.target, node.elt)
        cs = [self.fun(copy.deepcopy(g.target), c) for c in g.ifs]
        if f is None or any(c is None for c in cs):
            return node
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [f, ast.List(cs, ast.Load()), g.iter], []), node)

    def visit_ListComp(self, node):
        return self.comp(node, "comprehension_")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "genexp_")


def instrument(tree, mod):
    mod.__dict__["comprehension_"] = comprehension
    mod.__dict__["genexp_"] = genexp
    mod.__dict__.update(loops.helpers())
    tree = Rewrite().visit(tree)
    return ast.fix_missing_locations(tree)


class _Random:
    """numpy.random by its contract: any values of the range"""

    def randint(self, low, high=None, size=None, dtype=int):
        S = cur()
        lo, hi = (0, low) if high is None else (low, high)
        if not S.fork(ilift(lo) < ilift(hi)):
            raise ValueError("low >= high")
        shape = size if isinstance(size, tuple) else (size,) if size is not None else (1,)
        S.counter += 1
        name = "randint!%d" % S.counter
        last = lambda vals: int(S.ev(ilift(hi), vals)) - 1
        A = SArr.input(S, name, shape, "int")
        S.arrays[name] = S.arrays[name][:3] + (0 if isinstance(lo, int) else None, last)

        def f(*ix):
            x = A.f(*ix)
            k = ("rng", x.e.get_id())
            if k not in S.memo:
                S.memo[k] = True
                S.keep.append(x.e)
                S.axiom(z3.Implies(z3.And(*[in_range(i, n) for i, n in zip(ix, shape)]), z3.And(x.e >= ilift(lo), x.e < ilift(hi))))
            return x
        R = SArr(tuple(shape), f, int)
        S.drawn.append(R)
        return R if size is not None else R.f(0)

    def __getattr__(self, n):
        raise Unsupported("numpy.random.%s" % n)


pyvc.NPShim.random = _Random()
