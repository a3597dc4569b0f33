"""Values the code only carries around: identifiers (texts compared for equality) and opaque objects."""
import z3

import pyvc
from pyvc import SBool, Unsupported, cur, ilift


def code(s):
    """literal texts are distinct constants"""
    m = cur().memo.setdefault("text codes", {})
    return z3.IntVal(-1 - m.setdefault(s, len(m)))


class Tok:
    """A text: literal parts and unknown parts.  Equality of single unknown parts, and with literals, is decided by the solver."""
    _opaque_text = True

    def __init__(self, *parts, origin=None):
        out = []
        for p in parts:
            if isinstance(p, Tok):
                out += p.parts
            elif isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(ilift(p))
                cur().keep.append(out[-1])
        self.parts = tuple(out)
        self.origin = origin if origin is not None else next((p.origin for p in parts if isinstance(p, Tok) and p.origin is not None), None)

    def eqz(self, o):
        o = Tok(o) if isinstance(o, str) else o
        a, b = list(self.parts), list(o.parts)

        def same(x, y):
            return x == y if isinstance(x, str) or isinstance(y, str) else x.eq(y)
        while a and b and type(a[0]) is type(b[0]) and same(a[0], b[0]):
            a.pop(0), b.pop(0)
        while a and b and type(a[-1]) is type(b[-1]) and same(a[-1], b[-1]):
            a.pop(), b.pop()
        if not a and not b:
            return z3.BoolVal(True)
        if len(a) <= 1 and len(b) <= 1:
            x, y = a[0] if a else "", b[0] if b else ""
            if isinstance(x, str) and isinstance(y, str):
                return z3.BoolVal(x == y)
            return (code(x) if isinstance(x, str) else x) == (code(y) if isinstance(y, str) else y)
        # common literal ends
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            k = 0
            while k < len(a[0]) and k < len(b[0]) and a[0][k] == b[0][k]:
                k += 1
            if k < len(a[0]) and k < len(b[0]):
                return z3.BoolVal(False)
            return Tok(a[0][k:], *a[1:]).eqz(Tok(b[0][k:], *b[1:])) if k else self._no()
        if a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
            k = 0
            while k < len(a[-1]) and k < len(b[-1]) and a[-1][-1 - k] == b[-1][-1 - k]:
                k += 1
            if k < len(a[-1]) and k < len(b[-1]):
                return z3.BoolVal(False)
            if k:
                return Tok(*a[:-1], a[-1][:-k]).eqz(Tok(*b[:-1], b[-1][:-k]))
        return self._no()

    def _no(self):
        raise Unsupported("equality of composed texts")

    def __eq__(self, o):
        if isinstance(o, (Tok, str)):
            return SBool(self.eqz(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (Tok, str)):
            return SBool(z3.Not(self.eqz(o)))
        return True

    def __add__(self, o): return Tok(self, o) if isinstance(o, (Tok, str)) else NotImplemented
    def __radd__(self, o): return Tok(o, self) if isinstance(o, (Tok, str)) else NotImplemented
    def __bool__(self): return bool(self != "")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __hash__(self):
        raise Unsupported("hash of an unknown text")

    def __str__(self):
        return "<text>"
    __repr__ = __str__

    def __getattr__(self, n):
        if hasattr(str, n) and not n.startswith("__"):
            raise Unsupported("str.%s of an unknown text" % n)
        raise AttributeError(n)


class Opaque:
    """An object of unknown class and content; equal only to itself and to copies of it."""

    def __init__(self, name, *args):
        self.__dict__["_name"], self.__dict__["_args"] = name, tuple(ilift(a) for a in args)

    def __eq__(self, o):
        if not isinstance(o, Opaque) or o._name != self._name or len(o._args) != len(self._args):
            return False
        return SBool(z3.And(*[x == y for x, y in zip(self._args, o._args)])) if self._args else True

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    __hash__ = None
    def __copy__(self): return Opaque(self._name, *self._args)
    def __deepcopy__(self, memo): return Opaque(self._name, *self._args)
    def __bool__(self): return True
    def __repr__(self): return "<%s>" % self._name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("attribute %s of an opaque %s" % (n, self._name))

    def __setattr__(self, n, v):
        raise Unsupported("an opaque %s is changed" % self._name)
