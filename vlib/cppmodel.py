"""Contracts of the C++ library types used by the code under verification: std::vector, Eigen fixed-size vectors, iterators, a few functions.

Element accesses carry obligations (the index is in range), unsigned subtractions too (they do not wrap)."""
import functools
import re
import types

import numpy as _np

import loops
import pyvc
from loops import TICK, TList, recording
from pyvc import MATH, SBool, SInt, SReal, Sym, Unsupported, eq, ilift, is_inty, ite, lift, z3
from seq import SArr, SRange, SSeq, idx, in_range, is_symbolic_seq, pick, scmp, sseq

ELEM = {"unsigned int": "int", "int": "int", "unsigned long": "int", "long": "int", "unsigned char": "int", "unsigned short": "int", "float": "float", "double": "float",
        "bool": "int", "size_t": "int", "uint32_t": "int", "Index": "int"}


def cur():
    return pyvc.CUR


def obligation(what, cond):
    """a verification condition of the access just made"""
    if cond is True or isinstance(cond, bool) and cond:
        return
    r = cur()
    c = pyvc.blift(cond)
    if z3.is_true(z3.simplify(c)):
        return
    key = ("obl", what, c.get_id(), len(r.pc))
    if key in r.memo:
        return
    r.memo[key] = True
    r.keep.append(c)
    r.prove(what, SBool(c))


def elem_of(t):
    m = re.search(r"vector<(.*)>$", t.strip())
    if not m:
        m = re.search(r"vector\[(.*)\]$", t.strip())
    return m.group(1).strip() if m else None


def vec_kind(t):
    """(size, floating) of an Eigen vector type, or None"""
    t = t.replace(" ", "")
    m = re.search(r"(?:Eigen::)?Matrix<(float|double|int),(\d+),1", t)
    if m:
        return int(m.group(2)), m.group(1)
    m = re.match(r"^(?:C|Eigen::|sumo::|Mesh::|TexturedMesh::)*(?:Vector)([234])([dfi]?)$", t)
    if m:
        return int(m.group(1)), {"d": "double", "f": "float", "": "double", "i": "int"}[m.group(2)]
    if re.match(r"^(?:sumo::)?(?:Mesh::|TexturedMesh::)?(Vertex|Normal)$", t):
        return 3, "float"
    if re.match(r"^(?:sumo::)?(?:Mesh::|TexturedMesh::)?UVCoord$", t):
        return 2, "float"
    return None


class SNorm(SReal):
    """a square root, compared through its square: y <= x iff x >= 0 and y*y <= x*x"""

    def __init__(self, e, sq):
        SReal.__init__(self, e)
        self.sq = sq

    def _cmp(self, op, o):
        if isinstance(o, SNorm):
            return pyvc.compare(op, self.sq, o.sq)
        x = lift(o)
        s, x2 = lift(self.sq), lift(o * o)
        if op == "<=":
            return SBool(z3.And(x >= 0, s <= x2))
        if op == "<":
            return SBool(z3.And(x > 0, s < x2))
        if op == ">":
            return SBool(z3.Not(z3.And(x >= 0, s <= x2)))
        if op == ">=":
            return SBool(z3.Not(z3.And(x > 0, s < x2)))
        return SBool(z3.And(x >= 0, s == x2)) if op == "==" else SBool(z3.Not(z3.And(x >= 0, s == x2)))

    def __lt__(self, o): return self._cmp("<", o)
    def __le__(self, o): return self._cmp("<=", o)
    def __gt__(self, o): return self._cmp(">", o)
    def __ge__(self, o): return self._cmp(">=", o)
    def __eq__(self, o): return self._cmp("==", o)
    def __ne__(self, o): return self._cmp("!=", o)
    __hash__ = SReal.__hash__


def unit(r, c):
    """(arguments in canonical form, components of the unit vector along them); facts about it are added"""
    a = []
    for x in c:
        n, d = r.ring.of(lift(x))
        if len(d) == 1 and () in d:
            a.append(r.ring.to_z3({m: q / d[()] for m, q in r.ring.reduce(n).items()}))
        else:
            a.append(z3.simplify(lift(x)))
    k = len(a)
    U = []
    for i in range(k):
        f = z3.Function("unit%d_%d" % (k, i), *([z3.RealSort()] * (k + 1)))
        u = f(*a)
        r.keep.append(u)
        r.define(u, lambda v, i=i: (lambda w: w[i] / max(1e-300, sum(q * q for q in w) ** 0.5))([r.ev(q, v) for q in a]))
        U.append(u)
    zero = z3.And(*[q == 0 for q in a])
    par = [U[i] * a[j] == U[j] * a[i] for i in range(k) for j in range(i)]
    r.axiom(z3.Implies(zero, z3.And(*[u == 0 for u in U])))
    r.axiom(z3.Or(zero, z3.And(z3.Sum(*[u * u for u in U]) == 1, z3.Sum(*[u * q for u, q in zip(U, a)]) > 0, *par)))
    return a, U


class Vec:
    """an Eigen column vector of fixed size"""

    def __init__(self, xs):
        self.c = [x.e_ if isinstance(x, _Box) else x for x in xs]
        self._tick = next(TICK)

    def __len__(self): return len(self.c)
    def __iter__(self): return iter(self.c)
    def __getitem__(self, i): return self.c[i]
    def x(self): return self.c[0]
    def y(self): return self.c[1]
    def z(self): return self.c[2]
    def w(self): return self.c[3]
    def copy(self): return Vec(list(self.c))

    def get_(self, i):
        i = idx(i)
        return self.c[i] if isinstance(i, int) else pick(self.c, i)
    operator_paren = __call__ = get_

    def put(self, i, v):
        if recording(self):
            raise Unsupported("a loop changes a vector")
        loops.touch(self, "c")
        self.c = self.c[:i] + [v] + self.c[i + 1:]

    def ref_(self, i):
        i = idx(i)
        if not isinstance(i, int):
            raise Unsupported("symbolic component of a small vector")
        return CompRef(self, i)

    def set_(self, o):
        if recording(self):
            raise Unsupported("a loop changes a vector")
        loops.touch(self, "c")
        self.c = list(o)

    def bin(self, o, op):
        if isinstance(o, Vec):
            if len(o) != len(self):
                raise Unsupported("vector sizes")
            return Vec([op(a, b) for a, b in zip(self.c, o.c)])
        return Vec([op(a, o) for a in self.c])

    def dot(self, o): return functools.reduce(lambda a, b: a + b, [a * b for a, b in zip(self, o)])

    def cross(self, o):
        a, b = self.c, o.c
        return Vec([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def squaredNorm(self): return self.dot(self)
    def norm(self):
        z = self.squaredNorm()
        y = MATH.sqrt(z)
        return SNorm(y.e, z) if isinstance(y, SReal) and isinstance(z, Sym) else y

    def normalized(self):
        """Contract: the zero vector as it is, any other divided by its length"""
        r = cur()
        z = self.squaredNorm()
        if not isinstance(z, Sym):
            z = SReal(pyvc.rv(z))
        n, d = r.ring.of(lift(z))
        simple = False
        if len(d) == 1 and () in d:
            p = r.ring.reduce(n)
            simple = set(p) <= {()} or r.ring.square_root({m: c / d[()] for m, c in p.items()}) is not None
        if simple:
            if bool(scmp(">", z, 0)):
                q = MATH.sqrt(z)
                return Vec([x / q for x in self.c])
            return self.copy()
        return Vec([SReal(u) for u in unit(r, self.c)[1]])

    def normalize(self): self.set_(self.normalized())
    def sum(self): return functools.reduce(lambda a, b: a + b, self.c)
    def cwiseQuotient(self, o): return self.bin(o, div_)
    def cwiseProduct(self, o): return self.bin(o, lambda a, b: a * b)
    def cwiseMin(self, o): return self.bin(o, pyvc.smin2)
    def cwiseMax(self, o): return self.bin(o, pyvc.smax2)

    def isZero(self, prec=1e-5):
        return SBool(z3.And(*[z3.And(lift(x) <= lift(prec), -lift(x) <= lift(prec)) for x in self.c]))

    def same(self, o):
        return SBool(z3.And(*[lift(a) == lift(b) for a, b in zip(self, o)]))

    def data(self): return self


class _Box:
    pass


class CompRef:
    def __init__(self, v, i): self.v, self.i = v, i
    def val(self): return self.v.get_(self.i)
    def set_(self, x): self.v.put(self.i, x)
    def aug(self, op, x): self.set_(binop(op, self.val(), x))


class Ref:
    """an element of a std::vector as an lvalue"""

    def __init__(self, v, i):
        self.v, self.i = v, i

    def val(self): return self.v.get_(self.i)
    def set_(self, x): self.v.put(self.i, x)

    def aug(self, op, x):
        self.v.augment(self.i, op, x)

    def normalize(self): self.set_(self.val().normalized())

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in ("push_back", "insert", "clear", "resize", "emplace_back", "setZero", "swap"):
            raise Unsupported("%s of an element" % n)
        return getattr(self.val(), n)

    def get_(self, i): return self.val().get_(i)

    def ref_(self, k):
        k = idx(k)
        if not isinstance(k, int):
            raise Unsupported("symbolic component of a vector element")
        outer = self

        class R:
            def val(s): return outer.val().get_(k)
            def set_(s, x): outer.v.put(outer.i, x, k)
            def aug(s, op, x): s.set_(binop(op, s.val(), x))
        return R()

    def __len__(self): return len(self.val())
    def __iter__(self): return iter(self.val())


def val_(x):
    return x.val() if isinstance(x, (Ref, CompRef)) else x


def _fwd(name):
    def f(self, o):
        return op_(name, self, o)
    return f


for _n, _m in (("__add__", "add"), ("__sub__", "sub"), ("__mul__", "mul"), ("__eq__", "eq"), ("__ne__", "ne"), ("__lt__", "lt"), ("__le__", "le"), ("__gt__", "gt"), ("__ge__", "ge")):
    setattr(Ref, _n, _fwd(_m))
Ref.__hash__ = object.__hash__


class It:
    """an iterator: a vector and an offset"""

    def __init__(self, v, off, end=False):
        self.v, self.off, self.end = v, off, end

    def copy(self): return It(self.v, self.off, self.end)


class StdVec:
    """std::vector by its contract"""

    def __init__(self, elem, items=None):
        self.elem = elem
        self.kind = "vec" if vec_kind(elem) else ELEM.get(elem.replace("std::", ""), "obj")
        self.k = vec_kind(elem)[0] if self.kind == "vec" else None
        self.tl, self.arr = TList(), None
        self._tick = next(TICK)
        if items is not None:
            if is_symbolic_seq(items):
                self.tl.sym = sseq(items).copy()
            else:
                for x in items:
                    list.append(self.tl, self.conv(x))

    def conv(self, x):
        x = val_(x)
        if self.kind == "vec":
            return x.copy() if isinstance(x, Vec) else Vec(list(x))
        if self.kind == "obj":
            return copy_(x)
        return x

    # reading
    @property
    def n(self):
        if self.arr is not None:
            return self.arr.shape[0]
        self.tl._read()
        return list.__len__(self.tl) if self.tl.sym is None else self.tl.sym.n

    def size(self): return self.n
    def __len__(self):
        n = self.n
        if isinstance(n, int):
            return n
        raise Unsupported("length of a symbolic vector as a machine number")

    def empty(self): return scmp("==", self.n, 0)
    def reserve(self, n): pass
    def capacity(self): raise Unsupported("capacity")
    def shrink_to_fit(self): pass

    def raw(self, i):
        i = idx(i)
        if self.arr is not None:
            if self.kind == "vec":
                return Vec([self.arr[i, c] for c in range(self.k)])
            return self.arr[i]
        self.tl._read()
        if self.tl.sym is None:
            if isinstance(i, int):
                v = list.__getitem__(self.tl, i)
            elif self.kind == "vec":
                xs = list(list.__iter__(self.tl))
                return Vec([pick([v.c[c] for v in xs], i) for c in range(self.k)])
            else:
                v = pick(list(list.__iter__(self.tl)), i)
        else:
            v = self.tl.sym.at(i)
        return v.copy() if isinstance(v, Vec) else v

    def get_(self, i):
        i = idx(val_(i))
        n = self.n
        if isinstance(i, int) and isinstance(n, int):
            obligation("vector index in range", 0 <= i < n)
            if not 0 <= i < n:
                raise Unsupported("vector index out of range")
        else:
            obligation("vector index in range", SBool(in_range(SInt(ilift(i)), n)))
        return self.raw(i)
    __call__ = get_

    def __getitem__(self, i): return self.get_(i)

    def at(self, i):
        ok = in_range(SInt(ilift(i)), self.n)
        if not cur().fork(ok):
            raise CppError("out_of_range")
        return self.raw(i)

    def ref_(self, i): return Ref(self, i)
    def front(self): return self.get_(0)
    def back(self): return self.get_(self.n - 1)
    def begin(self): return It(self, 0)
    def end(self): return It(self, self.n, True)
    cbegin, cend = begin, end
    def data(self): return self

    def seq(self):
        if self.arr is None and self.tl.sym is None:
            return sseq([self.raw(i) for i in range(len(self))])
        if self.arr is not None:
            a = self.arr.copy()
            if self.kind == "vec":
                return SSeq(a.shape[0], lambda i: Vec([a.f(i, c) for c in range(self.k)]))
            return SSeq(a.shape[0], lambda i: a.f(i))
        return self.tl.sym.copy()

    # changing
    def guard(self):
        if recording(self.tl if self.arr is None else self.arr):
            raise Unsupported("a loop changes a vector as a whole")
        self.log()

    def growing(self):
        if self.arr is not None:
            if recording(self.arr):
                raise Unsupported("a loop stores into a vector and extends it")
            self.log()
            s = self.seq()
            self.tl, self.arr = TList(), None
            self.tl.sym = s

    def push_back(self, x):
        self.growing()
        self.tl.append(self.conv(x))

    def emplace_back(self, *a):
        self.push_back(ctor_(self.elem, list(a)) if self.kind in ("vec", "obj") or len(a) != 1 else a[0])

    def insert(self, pos, *a):
        if not isinstance(pos, It) or pos.v is not self:
            raise Unsupported("vector insertion")
        if not pos.end:
            return self.insert_inside(pos.off, *a)
        self.growing()
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            for x in a[0]:
                self.push_back(x)
        elif len(a) == 2 and isinstance(a[0], It) and isinstance(a[1], It) and a[0].v is a[1].v:
            lo, hi, v = a[0].off, a[1].off, a[0].v
            obligation("vector range in order", SBool(z3.And(ilift(lo) >= 0, ilift(lo) <= ilift(hi), ilift(hi) <= ilift(v.n))))
            self.append(v.slice(lo, hi))
        elif len(a) == 2 and not isinstance(a[0], It):
            self.append(SSeq(a[0], lambda i, x=self.conv(a[1]): copy_(x)))
        else:
            raise Unsupported("vector insertion")

    def insert_inside(self, off, *a):
        if recording(self.tl):
            raise Unsupported("insertion inside a vector in a loop")
        obligation("insertion position", SBool(z3.And(ilift(off) >= 0, ilift(off) <= ilift(self.n))))
        old = self.copy()
        whole = old.n
        front, back = old.slice(0, off), old.slice(off, whole)
        mid = StdVec(self.elem)
        mid.insert(mid.end(), *a)
        self.clear()
        for s in (front, mid.seq(), back):
            self.append(s)

    def slice(self, lo, hi):
        s = self.seq()
        n = hi - lo if not (isinstance(lo, int) and lo == 0) else hi
        return SSeq(n, lambda i: s.at(i + lo if not (isinstance(lo, int) and lo == 0) else i))

    def append(self, s):
        if isinstance(s.n, int) and self.tl.sym is None and not recording(self.tl):
            self.log()
            for i in range(s.n):
                list.append(self.tl, self.conv(s.at(i)))
            return
        if recording(self.tl):
            loops.record(self.tl, "extend", s)
            return
        self.log()
        if self.tl.sym is None and list.__len__(self.tl) == 0:
            self.tl.sym = s.copy()
        else:
            self.tl.extend(s)

    def log(self):
        tl = self.tl

        def get():
            return (self.tl, self.arr, self.tl._state())

        def put(st):
            self.tl, self.arr = st[0], st[1]
            self.tl._restore(st[2])
        loops.swap_log(get, put)

    def clear(self):
        self.guard()
        self.tl, self.arr = TList(), None

    def assign(self, *a):
        if len(a) == 2 and isinstance(a[0], It):
            s = a[0].v.slice(a[0].off, a[1].off)
            self.clear()
            self.append(s)
        else:
            s = ctor_("std::vector<%s>" % self.elem, list(a))
            self.set_(s)

    def set_(self, o):
        self.guard()
        o = copy_(o)
        self.tl, self.arr = o.tl, o.arr

    def swap(self, o):
        self.guard()
        o.guard()
        self.tl, self.arr, o.tl, o.arr = o.tl, o.arr, self.tl, self.arr

    def zero(self):
        return Vec([pyvc.SReal(pyvc.rv(0))] * self.k) if self.kind == "vec" else 0 if self.kind != "obj" else ctor_(self.elem, [])

    def resize(self, n, x=None):
        self.guard()
        s = self.seq()
        if self.kind == "vec" and x is None:
            # Eigen leaves new elements uninitialised
            fill = lambda: Vec([SReal(cur().fresh_real("uninit")) for _ in range(self.k)])
        else:
            z = self.zero() if x is None else self.conv(x)
            fill = lambda: copy_(z)
        m = s.n
        self.tl, self.arr = TList(), None
        if isinstance(n, int) and isinstance(m, int):
            for i in range(n):
                list.append(self.tl, s.at(i) if i < m else fill())
            return
        if isinstance(m, int) and m == 0:
            self.tl.sym = SSeq(n, lambda i: fill())
            return

        def at(i):
            c = scmp("<", i, m)
            if c is True or c is not False and bool(c):
                return s.at(i)
            return fill()
        self.tl.sym = SSeq(n, at)

    def pop_back(self):
        self.resize(self.n - 1)

    def erase(self, *a): raise Unsupported("vector erase")

    def array(self):
        """switch to an array: elements can be stored at symbolic positions"""
        if self.arr is None:
            if recording(self.tl):
                for f in cur().frames:
                    if any(e[0] is self.tl for e in f.effects):
                        raise Unsupported("a loop extends a vector and stores into it")
            s = self.seq()
            if self.kind == "vec":
                a = SArr((s.n, self.k), lambda i, c: s.at(i).get_(c), float)
            elif self.kind == "obj":
                raise Unsupported("store of an object into a vector")
            else:
                a = SArr((s.n,), lambda i: s.at(i), int if self.kind == "int" else float)
            a._tick = self.tl._tick
            if not recording(self.tl):
                self.log()
            self.arr = a
        return self.arr

    def put(self, i, x, comp=None):
        i = idx(val_(i))
        x = val_(x)
        obligation("vector index in range", SBool(in_range(SInt(ilift(i)), self.n)))
        if self.arr is None and self.tl.sym is None and isinstance(i, int) and not recording(self.tl):
            self.log()
            if comp is None:
                list.__setitem__(self.tl, i, self.conv(x))
            else:
                v = list.__getitem__(self.tl, i).copy()
                v.put(comp, x)
                list.__setitem__(self.tl, i, v)
            return
        a = self.array()
        if self.kind != "vec":
            a[i] = x
        elif comp is not None:
            a[i, comp] = x
        else:
            for c in range(self.k):
                a[i, c] = x.get_(c)

    def augment(self, i, op, x):
        i = idx(val_(i))
        x = val_(x)
        if op not in "+-" or self.kind == "obj":
            return self.put(i, binop(op, self.get_(i), x))
        obligation("vector index in range", SBool(in_range(SInt(ilift(i)), self.n)))
        if self.arr is None and self.tl.sym is None and isinstance(i, int) and not recording(self.tl):
            return self.put(i, binop(op, self.get_(i), x))
        a = self.array()
        fr = recording(a)
        for c in range(self.k or 1):
            d = x.get_(c) if self.kind == "vec" else x
            if op == "-":
                d = -d
            key = (i, c) if self.kind == "vec" else (i,)
            if fr is not None:
                fr.effects.append((a, "add", key, d))
            else:
                old = a.f(*key)
                a[key if len(key) > 1 else key[0]] = old + d

    def copy(self):
        o = StdVec(self.elem)
        if self.arr is not None:
            if recording(self.arr):
                self.arr[0:1]
            o.arr = self.arr.copy()
            o.arr._tick = next(TICK)
        else:
            self.tl._read()
            if self.tl.sym is not None:
                o.tl.sym = self.tl.sym.copy()
            else:
                for x in list.__iter__(self.tl):
                    list.append(o.tl, self.conv(x))
        return o


class CppError(RuntimeError):
    pass


class Default:
    def __init__(self, f): self.f = f


class Raw:
    def __init__(self, t): self.t = t


class _Meta(type):
    def __call__(cls, *a):
        return construct(cls, list(a))


class Obj(metaclass=_Meta):
    """an object of a class of the code under verification"""
    _fields_ = []

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return self
        raise Unsupported("pointer arithmetic")

    def __setattr__(self, k, v):
        if k in self.__dict__:
            if recording(self):
                raise Unsupported("a loop assigns a member of an object")
            loops.touch(self, k)
        self.__dict__[k] = v


def is_obj(x):
    return isinstance(x, Obj)


def ctors(cls):
    return [(k, v) for k, v in vars(cls).items() if re.match(r"ctor\d+$", k)]


def simple(t):
    return re.sub(r"\b(const|class|struct)\b|[\s*&]", "", t).split("::")[-1]


def accepts(t, x):
    """could a parameter of type t take the argument x?  (overloads on vectors of different elements)"""
    e = elem_of(t)
    if isinstance(x, StdVec):
        if e is None:
            return False
        a, b = vec_kind(e), vec_kind(x.elem)
        return a == b if a or b else simple(e) == simple(x.elem)
    if isinstance(x, Obj):
        return simple(t) in [c.__name__ for c in type(x).__mro__]
    if isinstance(x, (int, float, Sym)):
        return e is None and not isinstance(getattr(CPP.mod, simple(t), None), type)
    return True


def construct(cls, a):
    import inspect
    cs = ctors(cls)
    fit = []
    for k, v in cs:
        f = v.__func__ if isinstance(v, staticmethod) else v
        ps = list(inspect.signature(f).parameters.values())
        req = sum(p.default is inspect.Parameter.empty for p in ps)
        if req <= len(a) <= len(ps):
            fit.append(f)
    if len(a) == 1 and isinstance(a[0], cls):
        cp = getattr(cls, "_copy_", None)
        return cp(a[0]) if cp else copy_(a[0])
    if len(fit) > 1:
        fit = [f for f in fit if all(accepts(t, x) for t, x in zip(getattr(cls, f.__name__ + "_t", []), a))]
    if len(fit) > 1 and len(a) == 1:
        raise Unsupported("constructor of %s is ambiguous" % cls.__name__)
    if not fit:
        if not a and not cs:
            o = raw_(cls)
            for f, t, q in all_fields(cls):
                setattr(o, f, undef_(t) if t in ELEM or t.endswith("*") else ctor_(t, []))
            return o
        if cs or not len(a) == len(all_fields(cls)):
            raise Unsupported("constructor of %s" % cls.__name__)
        o = raw_(cls)
        for (f, t, q), x in zip(all_fields(cls), a):
            setattr(o, f, copy_(x))
        return o
    return fit[0](*a)


def all_fields(cls):
    out = []
    for c in reversed(cls.__mro__):
        out += vars(c).get("_fields_", [])
    return out


def raw_(cls):
    o = object.__new__(cls)
    o._tick = next(TICK)
    return o


def base_(self, o):
    for k, v in vars(o).items():
        if k != "_tick":
            setattr(self, k, v)


def copy_(x):
    x = val_(x)
    if isinstance(x, (StdVec, Vec, It)):
        return x.copy()
    if isinstance(x, Obj):
        o = raw_(type(x))
        refs = {f for f, t, q in all_fields(type(x)) if q.rstrip().endswith(("&", "*"))}
        for k, v in vars(x).items():
            if k != "_tick":
                setattr(o, k, v if k in refs else copy_(v))
        return o
    if hasattr(x, "cpp_copy"):
        return x.cpp_copy()
    return x


def vparam_(x, elem):
    """a vector parameter by value; Cython converts Python lists to it"""
    x = val_(x)
    if isinstance(x, (list, tuple, SSeq)) or hasattr(x, "_is_sarr"):
        return StdVec(elem.strip(), x)
    return copy_(x)


def binop(op, a, b):
    return op_({"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], a, b)


def num(x):
    return isinstance(x, (int, float, _np.number, bool))


def div_(a, b):
    a, b = val_(a), val_(b)
    if isinstance(a, Vec):
        return a.bin(b, div_)
    if num(a) and num(b):
        if b == 0:
            raise Unsupported("division by zero")
        return SReal(pyvc.rv(a)) / SReal(pyvc.rv(b)) if cur() is not None else a / b
    return a / b


def op_(name, a, b):
    a, b = val_(a), val_(b)
    if isinstance(a, It):
        if name == "add":
            return It(a.v, a.off + b if not (isinstance(b, int) and b == 0) else a.off)
        if name == "sub" and isinstance(b, It):
            return a.off - b.off
        if name == "sub":
            return It(a.v, a.off - b)
        if name in ("eq", "ne"):
            r = scmp("==", a.off, b.off)
            return r if name == "eq" else ~r if isinstance(r, SBool) else not r
        raise Unsupported("iterator operation")
    if isinstance(a, (Obj,)) or isinstance(b, Obj) or hasattr(a, "cpp_op"):
        if hasattr(a, "cpp_op"):
            return a.cpp_op(name, b)
        raise Unsupported("operator on objects")
    if isinstance(a, StdVec) or isinstance(b, StdVec):
        raise Unsupported("comparison of vectors")
    if isinstance(a, Vec) or isinstance(b, Vec):
        if name == "add":
            return a.bin(b, lambda x, y: x + y)
        if name == "sub":
            return a.bin(b, lambda x, y: x - y)
        if name == "mul":
            return a.bin(b, lambda x, y: x * y) if isinstance(a, Vec) else b.bin(a, lambda x, y: x * y)
        if name == "div":
            return a.bin(b, div_)
        if name == "eq":
            return a.same(b)
        if name == "ne":
            return ~a.same(b)
        raise Unsupported("vector operation")
    if name == "add":
        return a + b
    if name == "sub":
        return a - b
    if name == "mul":
        return a * b
    if name == "div":
        return div_(a, b)
    return scmp({"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], a, b)


def neg_(a):
    a = val_(a)
    return Vec([-x for x in a]) if isinstance(a, Vec) else -a


def usub_(a, b):
    if isinstance(a, It) or isinstance(b, It):
        return op_("sub", a, b)
    if num(a) and num(b):
        if a < b:
            raise Unsupported("unsigned subtraction wraps")
        return a - b
    obligation("unsigned subtraction does not wrap", SBool(ilift(a) >= ilift(b)))
    return a - b


def idiv_(a, b):
    a, b = val_(a), val_(b)
    if num(a) and num(b):
        return int(a // b) if (a >= 0) == (b > 0) or a % b == 0 else -int(-a // b)
    obligation("integer division of non-negative numbers", SBool(z3.And(ilift(a) >= 0, ilift(b) > 0)))
    return a // b


def imod_(a, b):
    if num(a) and num(b):
        return a - b * idiv_(a, b)
    obligation("integer division of non-negative numbers", SBool(z3.And(ilift(a) >= 0, ilift(b) > 0)))
    return a % b


LIMITS = {"unsigned char": (0, 255), "unsigned short": (0, 65535), "signed char": (-128, 127), "short": (-32768, 32767), "uint8_t": (0, 255), "uint16_t": (0, 65535)}


def icast_(x, t):
    x = val_(x)
    if t in LIMITS:
        lo, hi = LIMITS[t]
        if num(x):
            return (int(x) - lo) % (hi - lo + 1) + lo
        obligation("value fits %s" % t, SBool(z3.And(ilift(x) >= lo, ilift(x) <= hi)))
    elif t.startswith("unsigned") and num(x) and x < 0:
        raise Unsupported("negative number made unsigned")
    return x


def fcast_(x, t):
    return val_(x)


def tofloat_(x):
    x = val_(x)
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, SBool):
        return SReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    return SReal(lift(x)) if isinstance(x, SInt) else x


def trunc_(x, t):
    x = val_(x)
    if num(x):
        x = int(x)
    elif isinstance(x, SInt):
        pass
    elif bool(scmp(">=", x, 0)):
        x = pyvc.m_floor(x)
    else:
        x = -pyvc.m_floor(-x)
    return icast_(x, t) if t in LIMITS else x


def flit_(s):
    return float(s)


def deref_(x):
    if isinstance(x, It):
        return x.v.get_(x.off)
    if isinstance(x, Obj):
        for k in ("operator__2a",):
            f = getattr(type(x), k, None)
            if f is not None:
                return f(x)
    return x


def addr_(x): return x


def assign_(a, b):
    if isinstance(a, (Ref, CompRef, Vec, StdVec)):
        a.set_(val_(b))
    elif isinstance(a, Obj):
        if recording(a):
            raise Unsupported("a loop assigns an object")
        for k, v in vars(copy_(b)).items():
            if k != "_tick":
                setattr(a, k, v)
    elif hasattr(a, "cpp_assign"):
        a.cpp_assign(copy_(b))
    else:
        raise Unsupported("assignment to %s" % type(a).__name__)
    return a


def aug_(op, a, b):
    if isinstance(a, (Ref, CompRef)):
        a.aug(op, b)
    elif isinstance(a, Vec):
        a.set_(binop(op, a, b))
    elif hasattr(a, "aug"):
        a.aug(op, b)
    else:
        raise Unsupported("compound assignment to %s" % type(a).__name__)
    return a


def inc_(x, op):
    f = getattr(type(x), "operator_" + "".join("_%x" % ord(c) for c in op), None)
    raise Unsupported("increment of %s" % type(x).__name__)


def bind_(f, o):
    return lambda *a: f(o, *a)


def given_(x):
    return x.f() if isinstance(x, Default) else x


def throw_(x):
    raise CppError(str(x))


def undef_(t):
    r = cur()
    if ELEM.get(t) == "float" or t in ("float", "double"):
        return SReal(r.fresh_real("undef"))
    if t in ELEM:
        return SInt(r.fresh_int("undef"))
    return None


def steps_(lo, hi, step, ne):
    lo, hi = val_(lo), val_(hi)
    if num(lo) and num(hi):
        if ne and lo > hi:
            raise Unsupported("loop does not end")
        return range(int(lo), int(hi), step)
    if ne:
        obligation("the loop ends", SBool(ilift(lo) <= ilift(hi)))
    if step == 1:
        return SRange(lo, hi)
    n = pyvc.smax2((hi - lo + (step - 1)) // step, 0)
    return SSeq(n, lambda i: i * step + lo if not (isinstance(lo, int) and lo == 0) else i * step)


def count_(it):
    return len(it) if isinstance(it, (list, range)) else it.n


def shifted_(v, k, d):
    o = v.copy()
    o.c[k] = o.c[k] + d
    return o


def each_(x, byref):
    if isinstance(x, StdVec):
        n = x.n
        if isinstance(n, int):
            return [x.ref_(i) if byref else x.raw(i) for i in range(n)]
        if byref:
            return SSeq(n, lambda i: x.ref_(i))
        x = x.copy()
        return SSeq(n, lambda i: x.raw(i))
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, Obj):
        return user_range(x)
    if isinstance(x, Ref):
        return each_(x.val(), byref)
    raise Unsupported("loop over %s" % type(x).__name__)


def user_range(x):
    """begin/end of the class itself: the iterator must move one number by a constant until it equals the end's"""
    r = cur()
    b, e = type(x).begin(x), type(x).end(x)
    cls = type(b)
    if type(e) is not cls:
        raise Unsupported("iterator types")
    nums = [f for f, t, q in all_fields(cls) if t in ELEM]
    if len(nums) != 1:
        raise Unsupported("iterator state")
    f = nums[0]
    # the prefix increment: the one without a parameter
    import inspect
    inc = [v for k, v in vars(cls).items() if k.startswith("operator__2b_2b") and len(inspect.signature(v).parameters) == 1]
    ne = [v for k, v in vars(cls).items() if k.startswith("operator__21_3d")]
    dr = [v for k, v in vars(cls).items() if k == "operator__2a"]
    if len(inc) != 1 or len(ne) != 1 or len(dr) != 1:
        raise Unsupported("iterator operations")

    def at(v):
        o = copy_(b)
        setattr(o, f, v)
        return o
    k = SInt(r.fresh_int("pos"))
    o = at(k)
    inc[0](o)
    d = getattr(o, f) - k
    c = z3.simplify(ilift(d), som=True)
    if not z3.is_int_value(c) or c.as_long() < 1:
        raise Unsupported("iterator step")
    c = c.as_long()
    differ = ne[0](at(k), e)
    lo, hi = getattr(b, f), getattr(e, f)
    obligation("the iterator stops at its end", SBool(pyvc.blift(differ) == (k.e != ilift(hi))))
    span = hi - lo
    q, rem = loops.split_affine(span, c)
    obligation("the iterator reaches its end", SBool(z3.And(ilift(rem) == 0, ilift(span) >= 0)))
    if isinstance(q, int):
        return [dr[0](at(lo + c * t)) for t in range(q)]
    return SSeq(q, lambda t: dr[0](at(lo + t * c if not (isinstance(lo, int) and lo == 0) else t * c)))


class World:
    """types and functions supplied to a translated unit"""

    def __init__(self):
        self.types, self.ext, self.mod = {}, {}, None


CPP = World()


def ctor_(t, a):
    t = t.strip()
    e = elem_of(t)
    if e is not None:
        e = re.sub(r",\s*std::allocator<.*$", "", e)
        if not a:
            return StdVec(e)
        if len(a) == 1 and isinstance(a[0], StdVec):
            return a[0].copy()
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            return StdVec(e, a[0])
        if len(a) == 2 and isinstance(a[0], It):
            v = StdVec(e)
            v.append(a[0].v.slice(a[0].off, a[1].off))
            return v
        v = StdVec(e)
        x = v.conv(a[1]) if len(a) == 2 else v.zero()
        if isinstance(a[0], int):
            for _ in range(a[0]):
                list.append(v.tl, copy_(x))
        else:
            v.tl.sym = SSeq(a[0], lambda i: copy_(x))
        return v
    m = re.match(r"(?:const )?(?:std::)?array<(.*),\s*(\d+)(?:UL)?>$", t)
    if m and not a:
        v = StdVec(m.group(1).strip())
        for _ in range(int(m.group(2))):
            list.append(v.tl, v.zero())
        return v
    k = vec_kind(t)
    if k:
        a = [val_(x) for x in a]
        if len(a) == 1 and isinstance(a[0], (Vec,)):
            return a[0].copy()
        if len(a) == 1 and isinstance(a[0], Zero):
            return Vec([SReal(pyvc.rv(0))] * k[0])
        if not a:
            return Vec([SReal(cur().fresh_real("undef")) for _ in range(k[0])])
        if len(a) == k[0]:
            return Vec([x if isinstance(x, Sym) else SReal(pyvc.rv(x)) for x in a])
        raise Unsupported("construction of %s" % t)
    for key, f in CPP.types.items():
        if t == key or t.split("::")[-1] == key:
            return f(*a)
    n = t.split("::")[-1]
    c = getattr(CPP.mod, n, None) if CPP.mod else None
    if c is not None:
        return construct(c, a)
    if "iterator" in t and len(a) == 1:
        return a[0]
    if t in ELEM and len(a) == 1:
        return a[0]
    raise Unsupported("C++ type %s" % t)


class Zero:
    pass


def _reverse(first, last):
    v = first.v
    if last.v is not v:
        raise Unsupported("reverse")
    n = v.n
    if isinstance(n, int) and first.off == 0 and last.end:
        xs = [v.raw(i) for i in range(n)]
        for i, x in enumerate(reversed(xs)):
            v.put(i, x)
        return
    raise Unsupported("reverse of a symbolic vector")


EXT = {"reverse": _reverse, "Zero": lambda: Zero(), "sqrt": lambda x: MATH.sqrt(x), "abs": abs, "fabs": abs, "max": lambda a, b: pyvc.smax2(a, b), "min": lambda a, b: pyvc.smin2(a, b),
       "__builtin_inff": lambda: float("inf"), "__builtin_inf": lambda: float("inf"), "__builtin_huge_valf": lambda: float("inf"), "floor": lambda x: tofloat_(pyvc.m_floor(x)),
       "make_pair": lambda a, b: (a, b), "isfinite": lambda x: not pyvc.is_inf(x), "move": lambda x: x, "forward": lambda x: x}


def _inf():
    """infinity: a number no finite input reaches (given by the property that needs it)"""
    x = cur().memo.get("infinity")
    if x is None:
        raise Unsupported("infinity")
    return x


EXT.update({"__builtin_inff": _inf, "__builtin_inf": _inf, "__builtin_huge_val": _inf, "make_pair": lambda a, b: (a, b)})


def ext_(n):
    if n in CPP.ext:
        return CPP.ext[n]
    if n in EXT:
        return EXT[n]
    raise Unsupported("C++ name %s" % n)


def unsupported_(m):
    raise Unsupported(m)


def load(V, api, path, extra=()):
    """the translated unit as a module"""
    import ast
    import cppfront
    import load as ld
    import seq
    text, notes, U = cppfront.translate(cppfront.ast_of(api, path, extra))
    return execute(text, path), notes, text


def link(*mods):
    """Several translation units that share classes: every method from the unit that defines it, one class object per name."""
    main = mods[-1]
    classes = {}
    for m in mods[::-1]:
        for k, v in list(m.__dict__.items()):
            if isinstance(v, type) and issubclass(v, Obj) and v is not Obj:
                if k not in classes:
                    classes[k] = v
                    continue
                c = classes[k]
                for a, f in list(vars(v).items()):
                    if a not in vars(c) and not a.startswith("__"):
                        setattr(c, a, f)
    for m in mods:
        for k, c in classes.items():
            m.__dict__[k] = c
        for n in mods:
            for k, f in n.__dict__.items():
                if isinstance(f, types.FunctionType) and k not in m.__dict__:
                    m.__dict__[k] = f
    CPP.mod = main
    return main


def execute(text, path):
    import ast
    import builtins
    import load as ld
    import seq
    m = types.ModuleType(path)
    m.__file__ = path
    g = m.__dict__
    b = dict(builtins.__dict__)
    b.update(ld.BUILTINS)
    b["dict"] = loops.SDict
    g["__builtins__"] = b
    for k, v in globals().items():
        if k.endswith("_") and not k.startswith("_"):
            g[k] = v
    g["DEFAULT_"] = Default
    g["Obj_"] = Obj
    tree = seq.instrument(ast.parse(text, path), m)
    exec(compile(tree, path + " (translated)", "exec"), g)
    CPP.mod = m
    return m
