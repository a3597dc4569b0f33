"""C26 overlap of point sets and symmetric surface distances."""
import math
import types

import pyvc
from load import World
from pyvc import SBool, SInt, SReal, z3, ilift, lift, blift
from seq import SArr, SSeq, in_range, reduction
from loops import SDict
from npseq import BallTree, DictInvariant, Rec, induction, nearest, num, set_totals, total, totals
from meshlib import zand

R0 = SReal(z3.RealVal(0))
I0 = SInt(z3.IntVal(0))
Z = z3.IntSort()


def xyz(P):
    return SArr((P.shape[0], 3), P.f, float)


def near(N, i, j, t):
    """rows i of Q and j of X are within t (square roots avoided)"""
    return z3.And(lift(t) >= 0, lift(N.sq(i, j)) <= lift(t) * lift(t))


def prove(V):
    W = World(V)
    U = W.load("sumo.metrics.utils")
    U.BallTree = BallTree
    V.trust("sklearn BallTree(X).query(Q): for every row of Q the index and the Euclidean distance of a nearest row of X (an error without points, which the code must avoid: checked)")
    V.assume("machine floats are treated as real numbers", "the bounding boxes given to points_iou contain their points",
             "the associations are those of the evaluator: per threshold, distinct detections with the matched element and whether it is evaluated")

    def icase(v):
        return {"check": "overlap", "args": {"seed": 5, "n1": 4, "n2": 6, "kind": "lattice", "shift": "other", "thresh": 0.5, "cols": 6}}

    def rcase(v):
        return {"check": "rms", "args": {"seed": 3, "nt": 3, "nd": 3, "ng": 3, "same_geo": False, "same_col": False}}

    def cdiff(P, Q, N, i):
        """squared colour difference of point i of P and its neighbour in Q"""
        s, w = 0, N.index(i)
        for c in range(3, 6):
            d = P.f(i, c) - Q.f(w, c)
            s = s + d * d
        return s

    def sets(S, empty=False):
        lo = 0 if empty else 1
        n1, n2 = S.int("n1", lo, sampler=lambda r: r.randint(lo, 3)), S.int("n2", lo, sampler=lambda r: r.randint(lo, 3))
        return n1, n2, SArr.input(S, "P", (n1, 6)), SArr.input(S, "Q", (n2, 6))

    def boxed(S, name, P):
        """a bounding box that contains the points; the lemma states it for point i"""
        lo, hi = S.vec(name + "lo"), S.vec(name + "hi")

        def inside(i):
            for c in range(3):
                x = lift(P.f(i, c))
                S.axiom(z3.Implies(in_range(i, P.shape[0]), z3.And(lift(lo[c]) <= x, x <= lift(hi[c]))))
        return types.SimpleNamespace(min_corner=lo, max_corner=hi), inside

    def iou(S):
        n1, n2, P, Q = sets(S)
        fp, fq = P.f, Q.f
        t = S.real("thresh")
        b1, in1 = boxed(S, "a", P)
        b2, in2 = boxed(S, "b", Q)
        v = U.points_iou(P, b1, Q, b2, t)
        S.prove("points unchanged", P.f is fp and Q.f is fq)
        A, B = nearest(xyz(Q), xyz(P)), nearest(xyz(P), xyz(Q))
        c1, c2 = [lambda i, N=N: N.distance(i) <= t for N in (A, B)]
        i, j = SInt(S.fresh_int("i")), SInt(S.fresh_int("j"))
        S.axiom(z3.And(in_range(i, n1), in_range(j, n2)))
        # the quantity counted is the one of the definition
        A.least(i, j), B.least(j, i)
        w, u = A.index(i), B.index(j)
        S.prove("a point with a neighbour within the threshold has its nearest there", SBool(z3.Implies(near(A, i, j, t), z3.And(c1(i).e, c2(j).e))))
        S.prove("the nearest within the threshold is a neighbour", SBool(z3.And(z3.Implies(c1(i).e, near(A, i, w, t)), z3.Implies(c2(j).e, near(B, j, u, t)))))
        # the count
        T1, T2 = total(S, "near1", n1, c1), total(S, "near2", n2, c2)
        s = T1.at(n1) + T2.at(n2)
        if S.known(lift(v) == 0):
            # the boxes are too far apart: no pair is within the threshold
            def none(N, T, c, n, ins, outs):
                def P_(k):
                    q = k - 1
                    ins(q), outs(N.index(q)), N.distance(q)
                    T.at(k)
                    S.axiom(z3.Implies(in_range(q, n), z3.Not(c(q).e)))
                    return SBool(T.at(k).e == 0)
                k = SInt(S.fresh_int("k"))
                S.axiom(in_range(k, n))
                ins(k), outs(N.index(k))
                S.prove("boxes farther apart than the threshold: no neighbour", SBool(z3.Not(c(k).e)))
                induction(S, "none counted", 0, n, P_)(n)
            none(A, T1, c1, n1, in1, in2)
            none(B, T2, c2, n2, in2, in1)
            S.prove("overlap: neighbours over all points", SBool(lift(s) == 0))
        else:
            S.prove_eq("overlap: neighbours over all points", SReal(lift(v)) * (SReal(lift(n1)) + SReal(lift(n2))), s)
    V.forall("points_iou", ["points_iou", "nearest_neighbors"], iou, icase)

    def swap(S):
        n1, n2, P, Q = sets(S, True)
        t = S.real("thresh")
        b1, in1 = boxed(S, "a", P)
        b2, in2 = boxed(S, "b", Q)
        v = U.points_iou(P, b1, Q, b2, t)
        w = U.points_iou(Q, b2, P, b1, t)
        S.prove("symmetric", SBool(lift(v) == lift(w)))
        if S.known(z3.Or(ilift(n1) == 0, ilift(n2) == 0)):
            S.prove("an empty set overlaps nothing", SBool(lift(v) == 0))
    V.forall("points_iou (arguments swapped)", ["points_iou", "nearest_neighbors"], swap, icase)

    def nn(S):
        n1, n2, P, Q = sets(S)
        P3, Q3 = P[:, 0:3], Q[:, 0:3]
        i12, i21, d12, d21 = U.nearest_neighbors(P3, Q3)
        i, j = SInt(S.fresh_int("i")), SInt(S.fresh_int("j"))
        S.axiom(z3.And(in_range(i, n1), in_range(j, n2)))
        A, B = nearest(xyz(Q), xyz(P)), nearest(xyz(P), xyz(Q))
        S.prove("lengths", zand(*[SBool(ilift(x.shape[0]) == ilift(n)) for x, n in ((i12, n1), (i21, n2), (d12, n1), (d21, n2))]) & (i12.ndim == 1) & (i21.ndim == 1))
        for nm, N, ind, dist, x, y in (("first", A, i12, d12, i, j), ("second", B, i21, d21, j, i)):
            d = dist.f(*([x] + [I0] * (dist.ndim - 1)))
            k = ind.f(x)
            N.least(x, y), N.least(x, k)
            S.prove("%s set: neighbours are points of the other" % nm, SBool(in_range(k, N.n)))
            S.prove("%s set: distance to the neighbour" % nm, SBool(z3.And(lift(d) >= 0, lift(d) * lift(d) == lift(N.sq(x, k)))))
            S.prove("%s set: no point is nearer" % nm, SBool(lift(d) * lift(d) <= lift(N.sq(x, y))))
    V.forall("nearest_neighbors", "nearest_neighbors", nn, icase)

    def nn0(S):
        n1, n2, P, Q = sets(S, True)
        S.assume(SBool(z3.Or(n1.e == 0, n2.e == 0)))
        out = U.nearest_neighbors(P[:, 0:3], Q[:, 0:3])
        S.prove("no neighbours in an empty set", zand(*[SBool(ilift(x.shape[0]) == 0) for x in out]))
    V.forall("nearest_neighbors (an empty set)", "nearest_neighbors", nn0, icase)

    def counts(S):
        """consequences: range, identical sets, far sets"""
        n1, n2, P, Q = sets(S)
        t = S.real("thresh")
        A, B = nearest(xyz(Q), xyz(P)), nearest(xyz(P), xyz(Q))
        for N, n in ((A, n1), (B, n2)):
            T = total(S, "near", n, lambda i, N=N: N.distance(i) <= t)
            induction(S, "count in range", 0, n, lambda k, T=T: SBool(z3.And(T.at(k).e >= 0, T.at(k).e <= lift(k))))(n)
            S.prove("between none and all points", SBool(z3.And(T.at(n).e >= 0, T.at(n).e <= lift(n))))
    V.forall("overlap in [0, 1]", "points_iou", counts, icase)

    def identical(S):
        n1, n2, P, Q = sets(S)
        t = S.real("thresh")
        S.assume(t >= 0)
        A = nearest(xyz(Q), xyz(P))
        g = z3.Function("same", Z, Z)

        def twin(i):
            k = SInt(g(ilift(i)))
            S.axiom(z3.Implies(in_range(i, n1), z3.And(in_range(k, n2), *[lift(P.f(i, c)) == lift(Q.f(k, c)) for c in range(3)])))
            A.least(i, k)
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n1))
        twin(i)
        S.prove("a point that is in both sets has distance zero", A.distance(i) == 0)
        T = total(S, "near", n1, lambda i: A.distance(i) <= t)
        D = total(S, "squares", n1, lambda i: A.distance(i) * A.distance(i))

        def all_(k):
            q = k - 1
            S.axiom(z3.Implies(in_range(q, n1), A.distance(q).e == 0))
            return SBool(z3.And(T.at(k).e == lift(k), D.at(k).e == 0))
        induction(S, "all counted, no distance", 0, n1, all_)(n1)
        S.prove("every point of a set within the other is counted", SBool(T.at(n1).e == lift(n1)))
        S.prove("the distances of a set within the other sum to zero", SBool(D.at(n1).e == 0))
    V.forall("identical sets", ["points_iou", "points_rmsssd"], identical, icase)

    def colours(S):
        """equal points have equal colours: no colour differs"""
        n1, n2, P, Q = sets(S)
        A = nearest(xyz(Q), xyz(P))
        g = z3.Function("same", Z, Z)

        def fact(i):
            k, w = SInt(g(ilift(i))), A.index(i)
            S.axiom(z3.Implies(in_range(i, n1), z3.And(in_range(k, n2), *[lift(P.f(i, c)) == lift(Q.f(k, c)) for c in range(3)])))
            A.least(i, k)
            same = z3.And(*[lift(P.f(i, c)) == lift(Q.f(w, c)) for c in range(3)])
            S.axiom(z3.Implies(z3.And(in_range(i, n1), in_range(w, n2), same), z3.And(*[lift(P.f(i, c)) == lift(Q.f(w, c)) for c in range(3, 6)])))
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n1))
        fact(i)
        S.prove("the neighbour is at the same place", SBool(z3.And(*[lift(P.f(i, c)) == lift(Q.f(A.index(i), c)) for c in range(3)])))
        S.prove("its colour is the same", SBool(lift(cdiff(P, Q, A, i)) == 0))
        C = total(S, "colours", n1, lambda i: cdiff(P, Q, A, i))

        def zero(k):
            q = k - 1
            S.axiom(z3.Implies(in_range(q, n1), lift(cdiff(P, Q, A, q)) == 0))
            return C.at(k) == 0
        induction(S, "no colour differs", 0, n1, zero)(n1)
        S.prove("colour differences sum to zero", C.at(n1) == 0)
    V.forall("equal colours", "color_rmsssd", colours, rcase)

    class Sums:
        """sums over the matches of the first k detections at a threshold, and over the first k thresholds"""

        def __init__(self, name, T, inner):
            self.T, self.inner, self.name = T, inner, name
            self.F = z3.Function(name, Z, z3.RealSort(), z3.RealSort())
            self.outer = Rec(name + "all", 0, T.n + 1, R0, lambda i, b: b + self.at(T.thr(i - 1), T.count(T.thr(i - 1))))

        def at(self, x, k):
            from pyvc import cur
            S, k = cur(), ilift(k)
            v, p = self.F(k, lift(x)), self.F(k - 1, lift(x))
            key = ("sums", v.get_id())
            if key not in S.memo:
                S.memo[key] = True
                S.keep += [v, p]
                S.axiom(z3.Implies(k == 0, v == 0))
                S.axiom(z3.Implies(z3.And(k > 0, k <= ilift(self.T.count(x))), v == p + lift(self.inner(x, SInt(k - 1)))))
            return SReal(v)

    class Matches:
        """the evaluator's associations: any number of thresholds and of detections at each"""

        def __init__(self, S, F):
            self.S, self.F = S, F
            self.n = S.int("thresholds", 0, sampler=lambda r: r.randint(0, 2))
            I, R, B = Z, z3.RealSort(), z3.BoolSort()
            self._thr, self._n = z3.Function("threshold", I, R), z3.Function("detections", R, I)
            self._det, self._gt, self._ev = z3.Function("det", I, R, I), z3.Function("gt", I, R, I), z3.Function("evaluated", I, R, B)
            self._where = z3.Function("where", I, R, I)
            self.cnt = Sums("count", self, lambda x, k: SReal(z3.If(self.ev(x, k), z3.RealVal(1), z3.RealVal(0))))
            self.tot = Sums("total", self, lambda x, k: SReal(z3.If(self.ev(x, k), lift(self.F(self.det(x, k), self.gt(x, k))), z3.RealVal(0))))

        def thr(self, i): return SReal(self._thr(ilift(i)))

        def count(self, x):
            n = self._n(lift(x))
            self.S.axiom(n >= 0)
            return SInt(n)

        def det(self, x, k):
            d = self._det(ilift(k), lift(x))
            # detections are distinct: where() finds the place of one
            self.S.axiom(z3.Implies(in_range(SInt(ilift(k)), self.count(x)), self._where(d, lift(x)) == ilift(k)))
            return SInt(d)

        def gt(self, x, k): return SInt(self._gt(ilift(k), lift(x)))
        def ev(self, x, k): return self._ev(ilift(k), lift(x))

        def thresholds(self):
            return SSeq(self.n, self.thr)

        def assoc(self):
            M = self

            class At:
                """data_assoc[t]"""

                def __init__(self, x): self.x = x
                def _symbolic_keys(self): return self.keys()
                def keys(self): return SSeq(M.count(self.x), lambda k: M.det(self.x, k))

                def at(self, d):
                    k = SInt(M._where(ilift(d), lift(self.x)))
                    M.S.prove("the detection is matched at this threshold", SBool(z3.And(in_range(k, M.count(self.x)), M._det(k.e, lift(self.x)) == ilift(d))))
                    M.det(self.x, k)
                    return types.SimpleNamespace(det_id=d, gt_id=M.gt(self.x, k), evaluated=SBool(M.ev(self.x, k)))

                __getitem__ = at
                def items(self): return SSeq(M.count(self.x), lambda k: (M.det(self.x, k), self.at(M.det(self.x, k))))
                def values(self): return SSeq(M.count(self.x), lambda k: self.at(M.det(self.x, k)))

            class All:
                def __getitem__(self, x): return At(x)
            return All()

    class Elements:
        """element id -> a namespace with its points"""

        def __init__(self, S, name, least):
            self.S, self.name, self.least = S, name, least
            self.n = z3.Function(name + "points", Z, Z)
            self.p = z3.Function(name, Z, Z, Z, z3.RealSort())

        def points(self, e):
            e = ilift(e)
            n = SInt(self.n(e))
            self.S.axiom(n.e >= self.least)
            return SArr((n, 6), lambda i, c: SReal(self.p(ilift(i), ilift(c), e)), float)

        def __getitem__(self, e):
            return types.SimpleNamespace(id=e, posed_points=self.points(e))

    class Inv:
        """invariant of both loops: the list holds what the matches so far demand, the cache only distances of its keys"""

        def __init__(self, S, M, info, lst, cache, cnt, tot):
            self.S, self.M, self.info, self.lst, self.cache, self.cnt, self.tot = S, M, info, lst, cache, cnt, tot

        def enter(self, i):
            n = SInt(S_int(self.S, self.cnt(i)))
            set_totals(self.lst, n, self.tot(i))
            for c in self.cache:
                c.havoc()
            return {}

        def check(self, i, vals):
            n, t = totals(self.lst)
            a, b = self.cnt(i), self.tot(i)
            self.S.prove("loop invariant: number of matches", SBool(z3.ToReal(ilift(n)) == lift(a)))
            self.S.prove("loop invariant: sum of distances", SBool(lift(t) == lift(b)))

    def S_int(S, x):
        """the integer that a count is"""
        n = S.fresh_int("matches")
        S.axiom(z3.And(z3.ToReal(n) == lift(x), n >= 0))        # the length of a list
        return n

    def scores(name, square):
        def go(S):
            least = 1 if square is cdiff else 0      # no colours are compared between a set and an empty one
            S.nonneg_sums = True
            sub, gt = Elements(S, "sub", least), Elements(S, "ref", least)
            Fn = z3.Function("distance", Z, Z, z3.RealSort())
            F = lambda d, g: SReal(Fn(ilift(d), ilift(g)))
            M = Matches(S, F)
            ev = types.SimpleNamespace(_settings={"thresholds": M.thresholds()}, _agnostic_data_assoc=M.assoc(),
                                       _submission=types.SimpleNamespace(elements=sub), _ground_truth=types.SimpleNamespace(elements=gt))

            def definition(d, g):
                """F by its definition"""
                P, Q = sub.points(d), gt.points(g)
                n1, n2 = P.shape[0], Q.shape[0]
                A, B = nearest(xyz(Q), xyz(P)), nearest(xyz(P), xyz(Q))
                s = reduction("sum", n1, lambda i: square(P, Q, A, i)) + reduction("sum", n2, lambda j: square(Q, P, B, j))
                empty = z3.Or(ilift(n1) == 0, ilift(n2) == 0)
                f = F(d, g)
                return empty, f, s, SReal(lift(n1)) + SReal(lift(n2))

            def good(ks, v):
                empty, f, s, n = definition(*ks)
                v = SReal(lift(v))
                if S.known(empty):
                    S.prove("no distance without points", v == 0)
                    S.axiom(z3.Implies(empty, f.e == 0))
                    return
                S.prove("the distance is not negative", v >= 0)
                S.prove_eq("mean square distance of the points of both sets", v * v * n, s)
                # F is the number with these two properties
                S.axiom(f.e == lift(v))
            S.good = good
            state = {"cache": []}
            added = []

            def ann(info):
                lst = [x for x in info.stored.values() if isinstance(x, list)]
                ds = [x for x in info.stored.values() if isinstance(x, SDict)]
                if len(lst) != 1 or info.carried or len(lst) + len(ds) != len(info.stored):
                    return None
                for d in ds:
                    if d.inv is None:
                        state["cache"].append(DictInvariant(S, d, 2, good, F))
                if "t" not in state:
                    if not S.known(ilift(info.n) == ilift(M.n)):
                        return None
                    state["t"] = True
                    inv = Inv(S, M, info, lst[0], state["cache"], lambda i: M.cnt.outer.at(i), lambda i: M.tot.outer.at(i))
                    en = inv.enter

                    def enter(i):
                        state["i"] = i
                        return en(i)
                    inv.enter = enter
                    return inv
                i = state["i"]
                x = M.thr(i)
                if not S.known(ilift(info.n) == ilift(M.count(x))):
                    return None
                return Inv(S, M, info, lst[0], state["cache"], lambda k: M.cnt.outer.at(i) + M.cnt.at(x, k), lambda k: M.tot.outer.at(i) + M.tot.at(x, k))
            S.invariants.append(ann)
            r = getattr(U, name)(ev, ev._submission, ev._ground_truth)
            c, t = M.cnt.outer.at(M.n), M.tot.outer.at(M.n)
            if pyvc.is_inf(r) or (isinstance(r, float) and r == math.inf):
                S.prove("infinite only without matches", c == 0)
            else:
                S.prove("not infinite without matches", c > 0)
                S.prove("average over all matches and thresholds", SBool(lift(r) * lift(c) == lift(t)))
        V.forall(name, [name, "nearest_neighbors"], go, rcase)
    scores("points_rmsssd", lambda P, Q, N, i: N.distance(i) * N.distance(i))
    scores("color_rmsssd", cdiff)

    def mean(S):
        """consequences for the mean: not negative; zero when all distances are"""
        Fn = z3.Function("distance", Z, Z, z3.RealSort())
        zero = z3.Bool("zero")
        M = Matches(S, lambda d, g: SReal(Fn(ilift(d), ilift(g))))

        def dist(x, k):
            f = lift(M.F(M.det(x, k), M.gt(x, k)))
            S.axiom(z3.And(f >= 0, z3.Implies(zero, f == 0)))
        ok = lambda v: SBool(z3.And(lift(v) >= 0, z3.Implies(zero, lift(v) == 0)))
        x = S.real("x")

        def inner(k):
            dist(x, k - 1)
            return ok(M.tot.at(x, k))
        n = M.count(x)
        induction(S, "at one threshold", 0, n, inner)(n)
        S.prove("sum at one threshold", ok(M.tot.at(x, n)))

        def outer(i):
            y = M.thr(i - 1)
            S.axiom(ok(M.tot.at(y, M.count(y))).e)
            return ok(M.tot.outer.at(i))
        induction(S, "over the thresholds", 0, M.n, outer)(M.n)
        S.prove("sum over all thresholds", ok(M.tot.outer.at(M.n)))
    V.forall("mean distance", ["points_rmsssd", "color_rmsssd"], mean, rcase)

    def rms(S):
        """mean squares are not negative: the square root exists"""
        n1, n2, P, Q = sets(S)
        A = nearest(xyz(Q), xyz(P))
        for nm, sq in (("distances", lambda P, Q, N, i: N.distance(i) * N.distance(i)), ("colours", cdiff)):
            T = total(S, nm, n1, lambda i: sq(P, Q, A, i))
            induction(S, "squares of " + nm, 0, n1, lambda k: T.at(k) >= 0)(n1)
            S.prove("sum of squares of %s is not negative" % nm, T.at(n1) >= 0)
    V.forall("sums of squares", ["points_rmsssd", "color_rmsssd"], rms, rcase)
