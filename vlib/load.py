"""Loads the current /repo source for symbolic execution.

.py files are executed as they are, .pyx files after the mechanical
translation of cyfront.  Inside the loaded modules `numpy` and `math` are the
contract shims of pyvc, other modules of the package are loaded the same way
(or replaced by a contract given by the property), third-party modules without
a contract become stubs that refuse to be used.
"""
import ast
import builtins
import importlib
import os
import types

import numpy as _np

import cyfront
import pyvc
from pyvc import (A, MATH, NP, SBool, SInt, SNum, SReal, Sym, Unsupported, cast, ite, m_floor, m_trunc)


class Stub:
    """Anything of an external library without a contract."""

    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Stub(self._name + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of %s (no contract)" % self._name)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SInt))

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class Int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SReal):
            return m_trunc(x)
        if isinstance(x, SBool):
            return SInt(pyvc.ilift(x))
        if isinstance(x, str) and pyvc.CUR is not None and x.strip() in pyvc.CUR.texts:
            return Int(pyvc.CUR.texts[x.strip()])
        if hasattr(x, "_sint") and not a:
            return x._sint()
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SReal))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class Float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SReal):
            return x
        if isinstance(x, Sym):
            return SReal(pyvc.lift(x))
        if isinstance(x, str) and pyvc.CUR is not None and x.strip() in pyvc.CUR.texts:
            return Float(pyvc.CUR.texts[x.strip()])
        if isinstance(x, _np.ndarray) and x.size == 1 and pyvc.has_sym(x):
            return x.reshape(-1)[0]
        return builtins.float(x)


def s_len(x):
    if hasattr(x, "_slen"):
        return x._slen()
    return builtins.len(x)


def s_round(x, n=None):
    if isinstance(x, SReal):
        if n is not None:
            raise Unsupported("round to digits")
        # nearest, ties to even is abstracted to: |r - x| <= 1/2
        r = SInt(pyvc.cur().fresh_int("round"))
        pyvc.cur().axiom(pyvc.z3.And(2 * (pyvc.z3.ToReal(r.e) - x.e) <= 1, 2 * (x.e - pyvc.z3.ToReal(r.e)) <= 1))
        return r
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_sum(x, start=0):
    if hasattr(x, "_ssum"):
        return x._ssum(start)
    return builtins.sum(x, start)


def s_sorted(x, **k):
    if hasattr(x, "_is_sarr"):
        raise Unsupported("sorted of symbolic sequence")
    if hasattr(x, "_is_sseq") and not isinstance(x._slen(), int):
        r = x.copy()
        r.sort(**k)
        return r
    return builtins.sorted(x, **k)


def s_range(*a):
    if any(isinstance(x, SInt) for x in a):
        a = [int(x) if isinstance(x, SInt) and pyvc.z3.is_int_value(pyvc.z3.simplify(x.e)) else x for x in a]
        if any(isinstance(x, SInt) for x in a):
            import seq
            return seq.srange(*a)
    return builtins.range(*a)


def _wrapiter(name):
    f = getattr(builtins, name)

    def g(*a, **k):
        if any(hasattr(x, "_is_sarr") or hasattr(x, "_is_sseq") for x in a):
            import seq
            return getattr(seq, "s" + name)(*a, **k)
        return f(*a, **k)
    g.__name__ = name
    return g


def _extremum(kind, xs):
    import seq
    s = seq.sseq(xs)
    if not bool(seq.scmp(">", s.n, 0)):
        raise ValueError("%s() arg is an empty sequence" % kind)
    return seq.reduction(kind, s.n, lambda i: s.at(i))


def s_min(*a, **k):
    if len(a) == 1 and not k and _symbolic(a[0]):
        return _extremum("min", a[0])
    if len(a) == 1 and not k:
        a = list(a[0])
    if k or not any(isinstance(x, Sym) for x in a):
        return builtins.min(*a, **k) if len(a) > 1 or k else builtins.min(a)
    if pyvc.many(a):
        return pyvc.extreme(a, 1)
    r = a[0]
    for x in a[1:]:
        r = pyvc.smin2(r, x)
    return r


def s_max(*a, **k):
    if len(a) == 1 and not k and _symbolic(a[0]):
        return _extremum("max", a[0])
    if len(a) == 1 and not k:
        a = list(a[0])
    if k or not any(isinstance(x, Sym) for x in a):
        return builtins.max(*a, **k) if len(a) > 1 or k else builtins.max(a)
    if pyvc.many(a):
        return pyvc.extreme(a, -1)
    r = a[0]
    for x in a[1:]:
        r = pyvc.smax2(r, x)
    return r


def _symbolic(xs):
    return (hasattr(xs, "_is_sseq") or hasattr(xs, "_is_sarr")) and not isinstance(xs._slen(), int)


def s_any(xs):
    if _symbolic(xs):
        import seq
        s = seq.sseq(xs)
        return bool(seq.exists((s.n,), lambda i: pyvc.SBool(pyvc.blift(s.at(i)))))
    for x in xs:
        if x:
            return True
    return False


def s_all(xs):
    if _symbolic(xs):
        import seq
        s = seq.sseq(xs)
        return not bool(seq.exists((s.n,), lambda i: pyvc.SBool(pyvc.z3.Not(pyvc.blift(s.at(i))))))
    for x in xs:
        if not x:
            return False
    return True


def s_str(x=""):
    if isinstance(x, SBool):
        return "True" if bool(x) else "False"
    if isinstance(x, Sym):
        return pyvc.cur().text_of(x)
    if getattr(x, "_opaque_text", False):
        return x
    return builtins.str(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str) or getattr(x, "_opaque_text", False)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)

    def __getattr__(cls, n):
        return getattr(builtins.str, n)


class Str(metaclass=_StrMeta):
    def __new__(cls, x="", *a):
        return s_str(x) if not a else builtins.str(x, *a)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.set)

    def __eq__(cls, o):
        return o is cls or o is builtins.set

    def __hash__(cls):
        return hash(builtins.set)

    def __getattr__(cls, n):
        return getattr(builtins.set, n)


class Set(metaclass=_SetMeta):
    """set(): truth values are decided (by cases) so that equal elements are one"""

    def __new__(cls, *a):
        if len(a) == 1:
            return builtins.set([bool(x) if isinstance(x, SBool) else x for x in a[0]])
        return builtins.set(*a)


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.tuple)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.tuple)

    def __eq__(cls, o):
        return o is cls or o is builtins.tuple

    def __hash__(cls):
        return hash(builtins.tuple)

    def __getattr__(cls, n):
        return getattr(builtins.tuple, n)


class Tuple(metaclass=_TupleMeta):
    """tuple() of a sequence of symbolic length is such a sequence"""

    def __new__(cls, *a):
        if len(a) == 1 and hasattr(a[0], "_is_sseq"):
            import seq
            return seq.sseq(a[0]).copy()
        return builtins.tuple(*a)


def s_map(f, *xs):
    if len(xs) == 1 and (hasattr(xs[0], "_is_sseq") or hasattr(xs[0], "_is_sarr")):
        import seq
        return seq.comprehension(lambda x: f(x), [], xs[0])
    return builtins.map(f, *xs)


BUILTINS = {"set": Set, "tuple": Tuple, "map": s_map, "int": Int, "float": Float, "len": s_len, "round": s_round, "sum": s_sum, "range": s_range,
            "min": s_min, "max": s_max, "sorted": s_sorted, "any": s_any, "all": s_all, "enumerate": _wrapiter("enumerate"), "zip": _wrapiter("zip"),
            "reversed": _wrapiter("reversed"), "str": Str, "print": lambda *a, **k: None}

REAL = {"json", "re", "os", "sys", "csv", "collections", "itertools", "functools", "copy", "random", "xml",
        "xml.etree.ElementTree", "struct", "mimetypes", "__future__", "typing", "os.path", "string", "enum", "operator", "types",
        "warnings", "abc", "logging", "contextlib", "dataclasses"}


class World:
    def __init__(self, V, api=None):
        self.V = V
        self.api = api or os.path.join(V.repo, "sumo-api")
        self.mods = {}
        self.contracts = {}         # dotted module -> replacement object
        self.inject = {}            # dotted module -> names supplied for cimports
        self.cnew = {}
        self.new = {}
        self.files = {}
        self.instrument = True
        self.cvector = None
        self.raw = {}
        self.cworld = ()            # modules whose translated functions are linked into the modules that cimport them

    def path(self, name):
        base = os.path.join(self.api, name.replace(".", "/"))
        for ext in (".pyx", ".py", "/__init__.py"):
            if os.path.exists(base + ext):
                return base + ext
        return None

    def source(self, name):
        p = self.path(name)
        if p is None:
            raise Unsupported("module %s not found" % name)
        src = open(p, encoding="utf-8").read()
        if p.endswith(".pyx"):
            raw, src = src, cyfront.translate(src)[0]
            pxd = p[:-3] + "pxd"
            if os.path.exists(pxd):
                dcl = open(pxd, encoding="utf-8").read()
                import re
                for c, base in re.findall(r"^cdef class (\w+)\((\w+)\):", dcl, re.M) if self.cworld else ():
                    src = re.sub(r"(?m)^class %s *:" % c, "class %s(%s):" % (c, base), src)
                raw = raw + "\n" + dcl
            self.raw[name] = raw
        return p, src

    def cimports(self, name):
        """functions of other modules of the package that this one cimports"""
        import re
        out = {}
        for mod, names in re.findall(r"^from (sumo[\w.]*) cimport (\([^)]*\)|.*)$", self.raw.get(name, ""), re.M):
            if mod not in self.cworld or mod == name:
                continue
            m = self.load(mod)
            for n in names.strip("() \n").split(","):
                n = n.strip()
                if n and hasattr(m, n):
                    out[n] = getattr(m, n)
        return out

    def load(self, name):
        if name in self.contracts:
            return self.contracts[name]
        if name in self.mods:
            return self.mods[name]
        p, src = self.source(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__file__ = p
        g = m.__dict__
        b = dict(builtins.__dict__)
        b.update(BUILTINS)
        b["__import__"] = self._import
        if self.instrument:
            import loops
            b["dict"] = loops.SDict
        g["__builtins__"] = b
        g["__cast"] = self._cast
        g["__cnew"] = self._cnew
        g["__new"] = self._new
        # class bodies mangle __x names inside methods: supply the mangled forms too
        import re as _re
        for cname in _re.findall(r"^class\s+(\w+)", src, _re.M):
            for h in ("__cast", "__cnew", "__new"):
                g["_" + cname.lstrip("_") + h] = g[h]
        g["np"] = NP
        g.update(self.cimports(name))
        for k, v in self.inject.get(name, {}).items():
            g[k] = v
        tree = ast.parse(src, p)
        if self.instrument:
            try:
                import seq
                tree = seq.instrument(tree, m)
            except ImportError:
                pass
        exec(compile(tree, p, "exec"), g)
        for k, v in self.inject.get(name, {}).items():
            if k not in g:
                g[k] = v
        return m

    def _cast(self, t, x):
        if isinstance(x, (Sym,)):
            return cast(x, t)
        if isinstance(x, _np.ndarray) or hasattr(x, "_is_sarr") or x is None:
            return x
        if isinstance(x, (builtins.int, builtins.float, _np.number)):
            if t in ("float32", "float64", "bool"):
                return x if t != "bool" else bool(x)
            return builtins.int(x)
        return x

    def _cnew(self, t):
        if t in self.cnew:
            return self.cnew[t]()
        if t.startswith("vector["):
            return self.cvector(t) if self.cvector else CVec()
        return Stub("C++ object " + t)

    def _new(self, t):
        if t in self.new:
            return self.new[t]
        return Stub("C++ constructor " + t)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in ("numpy",):
            return NP
        if name == "numpy.matlib":
            return NP
        if name == "math":
            return MATH
        if name.startswith("xml.etree.cElementTree") and name not in self.contracts:
            import xml.etree.ElementTree as ET
            if fromlist:
                return ET
            ns = types.SimpleNamespace(etree=types.SimpleNamespace(cElementTree=ET, ElementTree=ET))
            return ns
        if name in self.contracts:
            m = self.contracts[name]
            return m if fromlist else self.contracts.get(name.split(".")[0]) or _Pkg(self, name.split(".")[0])
        if name == "sumo" or name.startswith("sumo."):
            if not fromlist:
                return _Pkg(self, "sumo")
            if self.path(name) and not self.path(name).endswith("__init__.py"):
                return self.load(name)
            return _Pkg(self, name)
        if name in REAL:
            m = importlib.import_module(name)
            if not fromlist and "." in name:
                return importlib.import_module(name.split(".")[0])
            return m
        if name.split(".")[0] == "matplotlib":
            return _Plot(name)
        return Stub(name)


class _Plot(Stub):
    """Plotting has no effect on results."""

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return _Plot(self._name + "." + n)

    def __call__(self, *a, **k):
        return None


class _Pkg:
    def __init__(self, W, name):
        self.W, self.name = W, name

    def __getattr__(self, n):
        full = self.name + "." + n
        if full in self.W.contracts:
            return self.W.contracts[full]
        p = self.W.path(full)
        if p and not p.endswith("__init__.py"):
            return self.W.load(full)
        if p or os.path.isdir(os.path.join(self.W.api, full.replace(".", "/"))):
            return _Pkg(self.W, full)
        raise AttributeError(full)


class CVec(list):
    """std::vector of concrete length."""

    def push_back(self, x):
        self.append(x)

    def size(self):
        return len(self)

    def reserve(self, n):
        pass
