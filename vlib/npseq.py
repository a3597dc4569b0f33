"""Contracts of numpy functions over one-dimensional arrays of any length that need recursion or quantifiers (cumsum, argsort, searchsorted),
ghost functions defined by recursion, and induction."""
import z3
import numpy as _np

import pyvc
from pyvc import SBool, SInt, SReal, Unsupported, cur, ilift, lift, blift
import loops
from seq import Lam, SArr, SSeq, as_sarr, in_range, normal


def num(x):
    """a number for a truth value"""
    if isinstance(x, (bool, _np.bool_)):
        return int(x)
    return SInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0))) if isinstance(x, SBool) else x


class Rec:
    """A ghost function over lo <= i < hi: f(first) = start, f(i) = step(i, f at the neighbour before), counted upwards or downwards.
    Unfolded where it is asked for."""

    def __init__(self, name, lo, hi, start, step, down=False, real=True):
        r = cur()
        self.lo, self.hi, self.start, self.step, self.down = ilift(lo), ilift(hi), start, step, down
        self.sort = z3.RealSort() if real else z3.IntSort()
        self.F = z3.Function(r._name(name), z3.IntSort(), self.sort)
        self.wrap = SReal if real else SInt
        self.up = lift if real else ilift

    def raw(self, i):
        """the value, without unfolding"""
        r = cur()
        t = self.F(ilift(i))
        k = ("recdef", t.get_id())
        if k not in r.memo:
            r.memo[k] = True
            r.keep.append(t)
        return self.wrap(t)

    def at(self, i):
        """the value, unfolded once"""
        r, i = cur(), ilift(i)
        v = self.raw(SInt(i))
        k = ("rec", v.e.get_id())
        if k not in r.memo:
            r.memo[k] = True
            first = z3.simplify(self.hi - 1 if self.down else self.lo)
            nb = i + 1 if self.down else i - 1
            r.axiom(z3.Implies(i == first, v.e == self.up(self.start)))
            inside = z3.And(i >= self.lo, i < first) if self.down else z3.And(i > first, i < self.hi)
            if not r.known(z3.Not(inside)):
                s = self.step(SInt(i), self.raw(SInt(nb)))
                r.axiom(z3.Implies(inside, v.e == self.up(s)))
        return v


def induction(S, name, lo, hi, P, down=False):
    """Proves P(i) for lo <= i <= hi by induction; returns the lemma, which states P at a given index."""
    lo, hi = ilift(lo), ilift(hi)
    first = hi if down else lo
    nonempty = lo <= hi
    r = cur()

    i = SInt(S.fresh_int("ind"))
    nxt = i - 1 if down else i + 1
    pi, pn = blift(P(i)), blift(P(nxt))
    rng = z3.And(i.e > lo, i.e <= hi) if down else z3.And(i.e >= lo, i.e < hi)
    S.prove(name + " (base)", SBool(z3.Implies(nonempty, blift(P(SInt(first))))))
    S.prove(name + " (step)", SBool(z3.Implies(z3.And(rng, pi), pn)))

    def lemma(j):
        j = ilift(j)
        p = blift(P(SInt(j)))
        S.axiom(z3.Implies(z3.And(j >= lo, j <= hi), p))
        return SBool(p)
    return lemma


def monotone(S, name, lo, hi, f, down=False):
    """Proves f(a) <= f(b) (down: >=) for lo <= a <= b <= hi by induction over b; returns the lemma, which states it for a given pair."""
    rel = (lambda x, y: x >= y) if down else (lambda x, y: x <= y)
    a = SInt(S.fresh_int("from"))
    S.axiom(z3.And(a.e >= ilift(lo), a.e <= ilift(hi)))
    induction(S, name, a, hi, lambda i: SBool(rel(lift(f(a)), lift(f(i)))))

    def lemma(x, y):
        x, y = ilift(x), ilift(y)
        S.axiom(z3.Implies(z3.And(x >= ilift(lo), x <= y, y <= ilift(hi)), rel(lift(f(SInt(x))), lift(f(SInt(y))))))
    return lemma


def cumsum(x):
    """numpy.cumsum of a one-dimensional array: c[0] = x[0], c[i] = c[i - 1] + x[i]"""
    r = cur()
    if x.ndim != 1:
        raise Unsupported("cumsum over several dimensions")
    el = lambda i: num(x.f(i))
    lam = Lam(x.shape[0], el)
    integral = isinstance(lam.body, (int, _np.integer, SInt)) and not isinstance(lam.body, bool)
    key = None
    if lam.sym and not any(q.get_id() in lam.fresh for q in pyvc_consts(lam.e)):
        ne, nn = normal(lam.e), z3.simplify(ilift(x.shape[0]))
        r.keep += [ne, nn]
        key = ("cumsum", ne.get_id(), nn.get_id(), lam.g.get_id())
    if key is None or key not in r.memo:
        R = Rec("cumsum", 0, x.shape[0], el(0), lambda i, before: before + el(i), real=not integral)
        R.el = el
        r.memo.setdefault("cumsums", []).append(R)
        if key is None:
            return SArr(x.shape, R.at, int if integral else float)
        r.memo[key] = R
    return SArr(x.shape, r.memo[key].at, int if integral else float)


def pyvc_consts(e):
    from seq import consts
    return consts(e)


class Order:
    """numpy.argsort(keys): a permutation of the indices that puts the keys in increasing order (equal keys in any order)"""

    def __init__(self, keys):
        r = cur()
        self.keys, self.n = keys, keys.shape[0]
        t, I = r._name("order"), z3.IntSort()
        self.P, self.I = z3.Function("perm" + t, I, I), z3.Function("rank" + t, I, I)

    def at(self, j):
        """the index of the j-th smallest key"""
        r, j = cur(), ilift(j)
        p = self.P(j)
        k = ("perm", p.get_id())
        if k not in r.memo:
            r.memo[k] = True
            r.keep.append(p)
            r.axiom(z3.Implies(in_range(SInt(j), self.n), z3.And(in_range(SInt(p), self.n), self.I(p) == j)))
        return SInt(p)

    def rank(self, i):
        """the place of index i"""
        r, i = cur(), ilift(i)
        q = self.I(i)
        k = ("rank", q.get_id())
        if k not in r.memo:
            r.memo[k] = True
            r.keep.append(q)
            r.axiom(z3.Implies(in_range(SInt(i), self.n), z3.And(in_range(SInt(q), self.n), self.P(q) == i)))
        return SInt(q)

    def sorted(self, i, j):
        """places i <= j hold keys in increasing order"""
        r = cur()
        a, b = self.at(i), self.at(j)
        r.axiom(z3.Implies(z3.And(in_range(i, self.n), in_range(j, self.n), ilift(i) <= ilift(j)), lift(self.keys.f(a)) <= lift(self.keys.f(b))))


def argsort(x, *a, **k):
    r = cur()
    if a or k or x.ndim != 1:
        raise Unsupported("argsort with options")
    lam = Lam(x.shape[0], x.f)
    if lam.sym and not any(q.get_id() in lam.fresh for q in pyvc_consts(lam.e)):
        ne, nn = normal(lam.e), z3.simplify(ilift(x.shape[0]))
        r.keep += [ne, nn]
        key = ("argsort", ne.get_id(), nn.get_id(), lam.g.get_id())
        o = r.memo.get(key)
        if o is None:
            o = r.memo[key] = Order(x)
    else:
        o = Order(x)
    if o not in r.memo.setdefault("orders", []):
        r.memo["orders"].append(o)
    return SArr(x.shape, o.at, int)


def searchsorted(a, v, side="left", sorter=None):
    """numpy.searchsorted(a, v): the number of elements before v, for an increasing array (an obligation)"""
    r = cur()
    if sorter is not None or side not in ("left", "right") or not hasattr(a, "_is_sarr") or a.ndim != 1:
        raise Unsupported("searchsorted with options")
    i = SInt(r.fresh_int("adj"))
    r.instantiate(i)
    r.instantiate(i + 1)
    x, y = a.f(i), a.f(i + 1)
    r.prove("searchsorted: the array is increasing", SBool(z3.Implies(z3.And(i.e >= 0, i.e + 1 < ilift(a.shape[0])), lift(x) <= lift(y))))
    before = (lambda p, q: lift(p) < lift(q)) if side == "left" else (lambda p, q: lift(p) <= lift(q))
    F = z3.Function(r._name("place"), z3.IntSort(), z3.IntSort())
    v = as_sarr(v)
    if v.ndim != 1:
        raise Unsupported("searchsorted of several dimensions")

    def at(j):
        q = F(ilift(j))
        k = ("place", q.get_id())
        if k not in r.memo:
            r.memo[k] = True
            r.keep.append(q)
            n = ilift(a.shape[0])
            val = v.f(j)
            ok = in_range(SInt(ilift(j)), v.shape[0])
            r.axiom(z3.Implies(ok, z3.And(q >= 0, q <= n)))
            r.axiom(z3.Implies(z3.And(ok, q > 0), before(a.f(SInt(q - 1)), val)))
            r.axiom(z3.Implies(z3.And(ok, q < n), z3.Not(before(a.f(SInt(q)), val))))
        return SInt(q)
    r.memo.setdefault("searches", []).append(at)
    return SArr(v.shape, at, int)


def accumulate_min_max(kind, x):
    R = Rec("running", 0, x.shape[0], x.f(0), lambda i, b: pyvc.ite(SBool(lift(b) >= lift(x.f(i))) if kind == "max" else SBool(lift(b) <= lift(x.f(i))), b, x.f(i)))
    return SArr(x.shape, R.at)


class Nearest:
    """What the nearest neighbours of the rows of Q among the rows of X are: index and distance, by their definition.
    Equally distant points may be resolved either way."""

    def __init__(self, X, Q):
        r = cur()
        self.X, self.Q, self.n, self.m = X, Q, X.shape[0], Q.shape[0]
        I, R = z3.IntSort(), z3.RealSort()
        t = r._name("nearest")
        self.J, self.D = z3.Function(t, I, I), z3.Function(t + "distance", I, R)

    def sq(self, i, j):
        """squared distance of row i of Q and row j of X"""
        s = 0
        for c in range(self.X.shape[1]):
            d = self.Q.f(i, c) - self.X.f(j, c)
            s = s + d * d
        return s

    def unfold(self, i):
        r, i = cur(), ilift(i)
        j, d = self.J(i), self.D(i)
        k = ("nearest", j.get_id())
        if k not in r.memo:
            r.memo[k] = True
            r.keep += [j, d]
            r.axiom(z3.Implies(in_range(SInt(i), self.m), z3.And(in_range(SInt(j), self.n), d >= 0, d * d == lift(self.sq(SInt(i), SInt(j))))))
        return SInt(j), SReal(d)

    def index(self, i):
        return self.unfold(i)[0]

    def distance(self, i):
        return self.unfold(i)[1]

    def least(self, i, j):
        """row j of X is no nearer to row i of Q"""
        d = self.distance(i).e
        i, j = SInt(ilift(i)), SInt(ilift(j))
        cur().axiom(z3.Implies(z3.And(in_range(i, self.m), in_range(j, self.n)), d * d <= lift(self.sq(i, j))))


def nearest(X, Q):
    """the same two sets of points have the same neighbours"""
    r = cur()
    key = []
    for A in (X, Q):
        if A.ndim != 2 or not isinstance(A.shape[1], int):
            raise Unsupported("BallTree of an array that is not a list of points")
        for c in range(A.shape[1]):
            lam = Lam(A.shape[0], lambda i, A=A, c=c: A.f(i, c))
            if not lam.sym or any(q.get_id() in lam.fresh for q in pyvc_consts(lam.e)):
                key = None
                break
            e = normal(z3.substitute(lam.e, (lam.g, z3.Int("row!"))))
            r.keep.append(e)
            key.append(e.get_id())
        if key is None:
            break
        n = z3.simplify(ilift(A.shape[0]))
        r.keep.append(n)
        key.append(n.get_id())
    key = None if key is None else ("nearest",) + tuple(key)
    if key is None or key not in r.memo:
        N = Nearest(X.copy(), Q.copy())
        if key is None:
            return N
        r.memo[key] = N
    return r.memo[key]


class BallTree:
    """sklearn.neighbors.BallTree with its default (Euclidean) metric"""

    def __init__(self, X, *a, **k):
        if a or k:
            raise Unsupported("BallTree with options")
        self.X = as_sarr(X)
        cur().prove("BallTree: there are points", self.X.shape[0] > 0)
        self.X = self.X.copy()

    def query(self, Q, k=1, **kw):
        if kw or k != 1:
            raise Unsupported("query with options")
        Q = as_sarr(Q)
        cur().prove("BallTree.query: there are points", Q.shape[0] > 0)
        N = nearest(self.X, Q)
        cur().memo.setdefault("trees", []).append(N)
        return SArr((N.m, 1), lambda i, c: N.distance(i), float), SArr((N.m, 1), lambda i, c: N.index(i), int)


def total(S, name, n, el):
    """the sum over 0 <= i < n as a ghost recursion: R(0) = 0, R(i + 1) = R(i) + el(i)"""
    from seq import reduction
    R = Rec(name, 0, n + 1, SReal(z3.RealVal(0)), lambda i, b: b + SReal(lift(num(el(i - 1)))))
    S.axiom(lift(R.at(n)) == lift(reduction("sum", n, lambda i: num(el(i)))))
    return R


class Totals(SSeq):
    """A list of numbers of which only the length and the sum are known (for loop invariants)."""

    def __init__(self, n, total):
        self.total = total

        def at(i):
            raise Unsupported("an element of a list known by its sum")
        SSeq.__init__(self, n, at)

    def plus(self, x):
        return Totals(self.n + 1, self.total + SReal(lift(num(x))))

    def copy(self):
        return Totals(self.n, self.total)


def totals(lst):
    """(length, sum) of a list"""
    s = getattr(lst, "sym", None)
    if isinstance(s, Totals):
        return s.n, s.total
    if s is None and isinstance(lst, list):
        t = SReal(z3.RealVal(0))
        for x in list.__iter__(lst):
            t = t + SReal(lift(num(x)))
        return SInt(z3.IntVal(list.__len__(lst))), t
    raise Unsupported("sum of this list")


def set_totals(lst, n, t):
    lst._log()
    lst.sym = Totals(n, t)


class DictInvariant:
    """A dictionary (nested to a given depth) of which an invariant is known instead of its entries: each value stored is acceptable for its
    keys (an obligation at every store), so each value read is the one the invariant determines.  Which keys are present is not known after `havoc`."""

    def __init__(self, S, d, depth, good, value):
        self.S, self.depth, self.good, self.value = S, depth, good, value
        if dict.__len__(d) or d.seg is not None:
            raise Unsupported("invariant for a dictionary with entries")
        self.known, self.gen = [], 0
        self.fresh = [True] * depth          # nothing but the known keys is present
        d.inv = (self, ())

    def havoc(self):
        self.known, self.fresh, self.gen = [], [False] * self.depth, self.gen + 1

    def present(self, ks):
        hits = []
        for u in self.known:
            if len(u) == len(ks):
                hits.append(z3.And(*[loops.key_eq(a, b) for a, b in zip(u, ks)]))
        if not self.fresh[len(ks) - 1]:
            es = [k.e for k in ks]
            hits.append(z3.Function("has!%d!%d" % (self.gen, len(ks)), *([e.sort() for e in es] + [z3.BoolSort()]))(*es))
        return SBool(z3.Or(*hits)) if hits else SBool(z3.BoolVal(False))

    def contains(self, pre, k):
        return self.present(pre + (k,))

    def get(self, pre, k, d=None, default=False):
        ks = pre + (k,)
        if not bool(self.present(ks)):
            if default:
                return d
            raise KeyError(k)
        if len(ks) < self.depth:
            s = loops.SDict()
            s.inv = (self, ks)
            return s
        return self.value(*ks)

    def store(self, pre, k, v):
        ks = pre + (k,)
        if len(ks) < self.depth:
            if type(v) is dict and not v:
                v = loops.SDict()           # written as a new dictionary here: no other name for it
            if type(v) is not loops.SDict or dict.__len__(v) or v.seg is not None or v.inv is not None:
                raise Unsupported("storing another dictionary than a new one under an invariant")
            # what it held before under deeper keys is gone: unknown from here on
            self.gen += 1
            self.fresh = [f and len(ks) > i for i, f in enumerate(self.fresh)]
            self.known = [u for u in self.known if len(u) <= len(ks)]
            v.inv = (self, ks)
        else:
            self.good(ks, v)
        self.known.append(ks)
