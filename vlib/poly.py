"""Exact polynomial / rational-function arithmetic used as the `ring` back end.

A polynomial is a dict {monomial: Fraction}, a monomial a sorted tuple of
(variable-index, exponent).  Equalities are decided modulo rewrite relations
  v**2 -> p     (unit quaternions, sin/cos pairs, square roots)
whose leading monomials are pairwise coprime, hence form a Groebner basis of
the ideal they generate (Buchberger's first criterion): reduction to normal
form is confluent, and a zero normal form proves the equality.
"""
from fractions import Fraction
import z3

ZERO = {}


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def var(i):
    return {((i, 1),): Fraction(1)}


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = 60000


def mul(p, q):
    r = {}
    if len(p) * len(q) > 4000000:
        raise TooBig()
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


class Ring:
    """Polynomials over z3 real/int atoms modulo square relations."""

    def __init__(self):
        self.index = {}       # ast id -> var index
        self.atoms = []       # var index -> z3 expr
        self.rel = {}         # var index -> polynomial equal to v**2
        self.hidden = set()   # roots of paths left, not to be used as values again
        self.cache = {}       # ast id -> (num, den)
        self.keep = []

    def atom(self, e):
        k = e.get_id()
        if k not in self.index:
            self.index[k] = len(self.atoms)
            self.atoms.append(e)
        return self.index[k]

    def relate_square(self, v, p):
        """v*v == p for z3 atom v, p a z3 polynomial expression."""
        i = self.atom(v)
        self.rel[i] = None
        n, d = self.of(p)
        assert len(d) == 1 and () in d
        self.rel[i] = {m: c / d[()] for m, c in n.items()}
        self.cache = {}

    # -- normal form -------------------------------------------------------
    def reduce(self, p):
        rel = self.rel
        if not rel:
            return p
        out = {}
        work = p
        while work:
            nxt = {}
            for m, c in work.items():
                for k, (v, e) in enumerate(m):
                    if e >= 2 and rel.get(v) is not None:
                        rest = m[:k] + (((v, e - 2),) if e > 2 else ()) + m[k + 1:]
                        for m2, c2 in rel[v].items():
                            mm = mmul(rest, m2)
                            val = nxt.get(mm, 0) + c * c2
                            if val:
                                nxt[mm] = val
                            else:
                                nxt.pop(mm, None)
                        break
                else:
                    val = out.get(m, 0) + c
                    if val:
                        out[m] = val
                    else:
                        out.pop(m, None)
            if len(nxt) > LIMIT:
                raise TooBig()
            work = nxt
        return out

    # -- z3 expression -> (num, den), both reduced --------------------------
    def of(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._of(e)
        self.cache[k] = r
        self.keep.append(e)
        return r

    def _of(self, e):
        one = const(1)
        if z3.is_rational_value(e):
            return const(Fraction(e.numerator_as_long(), e.denominator_as_long())), one
        if z3.is_int_value(e):
            return const(e.as_long()), one
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        if k == z3.Z3_OP_UMINUS:
            n, d = self.of(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.of(ch[0])
            for c in ch[1:]:
                n2, d2 = self.of(c)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = add(n, n2, s)
                else:
                    n = self.reduce(add(mul(n, d2), mul(n2, d), s))
                    d = self.reduce(mul(d, d2))
            return n, d
        if k == z3.Z3_OP_MUL:
            n, d = self.of(ch[0])
            for c in ch[1:]:
                n2, d2 = self.of(c)
                n, d = self.reduce(mul(n, n2)), self.reduce(mul(d, d2))
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.of(ch[0])
            n2, d2 = self.of(ch[1])
            if len(n2) == 1 and () in n2:
                c = n2[()]
                return {m: x / c for m, x in self.reduce(mul(n, d2)).items()}, d
            return self.reduce(mul(n, d2)), self.reduce(mul(d, n2))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1):
            p = ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1].numerator_as_long()
            n, d = self.of(ch[0])
            rn, rd = const(1), const(1)
            for _ in range(abs(p)):
                rn, rd = self.reduce(mul(rn, n)), self.reduce(mul(rd, d))
            return (rn, rd) if p >= 0 else (rd, rn)
        return var(self.atom(e)), one

    def equal(self, a, b):
        """True: a == b proved (where denominators are non-zero)."""
        try:
            n1, d1 = self.of(a)
            n2, d2 = self.of(b)
            if d1 == d2:
                return not self.reduce(add(n1, n2, -1))
            return not self.reduce(add(mul(n1, d2), mul(n2, d1), -1))
        except TooBig:
            return None

    def constant(self, e):
        """Fraction if e is provably constant, else None."""
        try:
            n, d = self.of(e)
        except TooBig:
            return None
        if not n:
            return Fraction(0)
        if len(d) == 1 and () in d and len(n) == 1 and () in n:
            return n[()] / d[()]
        # n proportional to d (as normal forms)
        m0 = next(iter(d))
        if m0 in n and len(n) == len(d):
            c = n[m0] / d[m0]
            if all(n.get(m) == c * x for m, x in d.items()):
                return c
        return None

    def to_z3(self, p):
        terms = []
        for m, c in sorted(p.items()):
            t = z3.RealVal(str(c))
            fs = []
            for v, e in m:
                a = self.atoms[v]
                if z3.is_int(a):
                    a = z3.ToReal(a)
                fs.extend([a] * e)
            if fs:
                x = fs[0]
                for f in fs[1:]:
                    x = x * f
                t = x if c == 1 else t * x
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def square_root(self, p):
        """q with q*q == p (mod relations), if p is c*monomial^2; else None."""
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(e % 2 == 0 for _, e in m):
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return {tuple((v, e // 2) for v, e in m): Fraction(n, d)}
        # p may be the normal form of (c*v)^2 with v^2 -> rel[v]
        for v, q in self.rel.items():
            if not q or v in self.hidden:
                continue
            m0 = next(iter(q))
            if m0 in p:
                c = p[m0] / q[m0]
                if c > 0 and not add(p, {m: x * c for m, x in q.items()}, -1):
                    import math
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return {((v, 1),): Fraction(n, d)}
        return None
