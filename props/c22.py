"""C22 precision, recall and average precision."""
from fractions import Fraction

import numpy as np

import pyvc
from load import World
from pyvc import SBool, SInt, SReal, z3, ilift, lift, blift, ite
from seq import SArr, in_range, reduction
from npseq import Rec, Order, induction, monotone, num
from meshlib import zand

EPS = Fraction(repr(float(np.spacing(1))))
I0, I1 = SInt(z3.IntVal(0)), SInt(z3.IntVal(1))
R0 = SReal(z3.RealVal(0))


def real(x):
    return SReal(lift(x))


class Curve:
    """The definitions, for detections in order of decreasing score: m(i) says whether the i-th is correct."""

    def __init__(self, n, m):
        self.n, self.m = n, m
        one = lambda i: SInt(z3.If(blift(m(i)), z3.IntVal(1), z3.IntVal(0)))
        self.one = one

    def __getattr__(self, k):
        # defined when first used: the code has ranked the detections by then
        if k not in "TSA" or k.startswith("_"):
            raise AttributeError(k)
        self.define()
        return self.__dict__[k]

    def raw(self, i):
        """precision after i + 1 detections (up to the code's guard against division by zero)"""
        return real(self.T.at(i)) / (real(i) + 1 + EPS)

    def define(self):
        n, one, m = self.n, self.one, self.m
        # true positives among the first i + 1
        self.T = Rec("tp", 0, n, one(I0), lambda i, b: b + one(i), real=False)
        # the best precision from there on
        self.S = Rec("best", 0, n, self.raw(n - 1), lambda i, after: ite(SBool(lift(after) > lift(self.raw(i))), after, self.raw(i)), down=True)
        # n_gt times the area under the interpolated curve from i on
        self.A = Rec("area", 0, n + 1, R0, lambda i, after: after + ite(m(i), self.S.at(i), R0), down=True)


class Backwards:
    """the loop that interpolates the precision from the end, and sums the area if it has an accumulator"""

    def __init__(self, S, C, n_gt, info):
        self.S, self.C, self.n_gt, self.info = S, C, n_gt, info
        self.arr = list(info.stored.values())[0]
        self.acc = list(info.carried)[0] if info.carried else None
        self.old = self.arr.f

    def place(self, t):
        return self.C.n - 1 - t

    def content(self, t):
        j = self.place(t)
        return lambda k: ite(SBool(ilift(k) >= ilift(j)), self.C.S.at(SInt(ilift(k))), self.C.raw(SInt(ilift(k))))

    def enter(self, t):
        import loops
        loops.touch(self.arr, "f")
        self.arr.f = self.content(t)
        return {self.acc: self.area(t)} if self.acc else {}

    def area(self, t):
        return self.C.A.at(self.place(t) + 1) / real(self.n_gt)

    def check(self, t, vals):
        S, C = self.S, self.C
        k = SInt(S.fresh_int("k"))
        S.axiom(in_range(k, C.n))
        j = self.place(t)
        C.S.at(j)
        C.S.at(j + 1)
        S.tp(k)
        for q in (j, j + 1):
            S.tp(q)
        S.prove_same("loop invariant: precision", self.arr.f(k), self.content(t)(k))
        if self.acc:
            a = vals[self.acc]
            C.A.at(j + 1)
            S.prove_same("loop invariant: area", real(a) * real(self.n_gt), C.A.at(j + 1), SBool(ilift(C.n) > 0))


def prove(V):
    W = World(V)
    U = W.load("sumo.metrics.utils")
    V.trust("numpy: argsort (a permutation that sorts; ties in any order), cumsum (by its recursion), searchsorted on an increasing array (checked), not_equal, equal, mean (sum over count)")
    V.assume("machine floats are treated as real numbers (numpy.spacing(1) is 2^-52); precision is then the quotient of the definition up to that guard in the denominator",
             "there is at least one ground-truth element, and no more true positives than ground-truth elements")

    def case(v):
        m = [int(x != 0) for x in v.get("matches", [1, 0])]
        s = [float(x) for x in v.get("scores", range(len(m)))][:len(m)]
        s += [0.0] * (len(m) - len(s))
        return {"check": "curve", "args": {"matches": m, "scores": s, "n_gt": max(1, int(v.get("n_gt", 1)), sum(m)), "samples": [i / 10 for i in range(11)]}}

    def fixed(v):
        return {"check": "ranking", "args": {"matches": [1, 0, 1, 1, 0], "n_gt": 4, "seed": 1}}

    def setup(S):
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        g = S.int("n_gt", 1, sampler=lambda r: r.randint(1, 5))
        M = SArr.input(S, "matches", (n,), "int", -3, 3)
        X = SArr.input(S, "scores", (n,))

        def ranked(i):
            """the detection at place i of the code's ranking"""
            o = S.memo["orders"][-1]
            return o.at(i)
        S.ranked = ranked
        C = Curve(n, lambda i: M.f(ranked(i)) != 0)
        return n, g, M, X, C

    def lemmas(S, n, C):
        """what the code's running sums are: proved by induction"""
        out = []
        for R in S.memo.get("cumsums", []):
            g = SInt(S.fresh_int("g"))
            e = ilift(num(R.el(g)))
            S.axiom(in_range(g, n))
            one = ilift(C.one(g))
            if S.known(e == one):
                spec = lambda i: C.T.at(i)
            elif S.known(e == 1 - one):
                spec = lambda i: i + 1 - C.T.at(i)
            else:
                continue
            k = ("proved", R.F.name())
            if k not in S.memo:
                S.memo[k] = induction(S, "running sum", 0, n - 1, lambda i, R=R, spec=spec: SBool(ilift(R.at(i)) == ilift(spec(i))))
            out.append(S.memo[k])
        return out

    def by_score(S, n, X):
        i, j = SInt(S.fresh_int("i")), SInt(S.fresh_int("j"))
        S.axiom(z3.And(i.e >= 0, i.e < j.e, j.e < ilift(n)))
        o = S.memo["orders"][-1]
        o.sorted(i, j)
        S.prove("detections are taken by decreasing score", X.f(S.ranked(i)) >= X.f(S.ranked(j)))

    def run(S, f, C, n, g):
        """f with the annotation for its loop"""
        def tp(i):
            for l in lemmas(S, n, C):
                l(i)
        S.tp = tp

        def same(name, a, b, when=None):
            a, b = lift(a), lift(b)
            S.prove(name, SBool(z3.Implies(blift(when), a == b) if when is not None else a == b))
        S.prove_same = same

        def ann(info):
            arrs = list(info.stored.values())
            if len(arrs) == 1 and hasattr(arrs[0], "_is_sarr") and arrs[0].ndim == 1 and len(info.carried) <= 1 and not S.memo.get("second"):
                if not S.known(ilift(info.n) <= ilift(n) ) or not S.known(z3.Implies(ilift(n) > 0, ilift(info.n) == ilift(n) - 1)):
                    return None
                return Backwards(S, C, g, info)
            return None
        S.invariants.append(ann)
        return f()

    def auc(S, name="compute_auc_ap"):
        n, g, M, X, C = setup(S)
        fm, fx = M.f, X.f
        ap, p, r = run(S, lambda: getattr(U, name)(M, X, g), C, n, g)
        S.prove("inputs unchanged", M.f is fm and X.f is fx)
        k = SInt(S.fresh_int("at"))
        S.axiom(in_range(k, n))
        by_score(S, n, X)
        S.tp(k)
        S.prove("as many values as detections", zand(pyvc.eq(p.shape[0], n), pyvc.eq(r.shape[0], n)))
        S.prove_same("interpolated precision", p.f(k), C.S.at(k))
        S.prove_same("recall: true positives over ground truth", r.f(k), real(C.T.at(k)) / real(g))
        S.tp(I0)
        C.A.at(I0)
        C.A.at(I1)
        C.T.at(I0)
        S.prove_same("average precision: the area under the interpolated curve", real(ap) * real(g), C.A.at(I0))
    V.forall("compute_auc_ap", "compute_auc_ap", auc, case)
    V.forall("compute_ap (area)", ["compute_ap", "compute_auc_ap"], lambda S: auc(S, "compute_ap"), case)

    def pr(interp, samples):
        def b(S):
            n, g, M, X, C = setup(S)
            fm, fx = M.f, X.f
            rs = None
            if samples:
                rs = SArr.input(S, "samples", (S.int("k", 0, sampler=lambda r: r.randint(0, 3)),))
            how = {"recall_samples": rs} if samples else {}
            if interp:
                how["interp"] = True
            orig = rs.f if samples else None
            p, r = run(S, lambda: U.compute_pr(M, X, g, **how), C, n, g)
            S.prove("inputs unchanged", M.f is fm and X.f is fx and (not samples or rs.f is orig))
            if not samples:
                by_score(S, n, X)
                k = SInt(S.fresh_int("at"))
                S.axiom(in_range(k, n))
                S.tp(k)
                S.prove("as many values as detections", zand(pyvc.eq(p.shape[0], n), pyvc.eq(r.shape[0], n)))
                S.prove_same("precision: %s" % ("best from here on" if interp else "true positives over detections"), p.f(k), C.S.at(k) if interp else C.raw(k))
                S.prove_same("recall: true positives over ground truth", r.f(k), real(C.T.at(k)) / real(g))
                return
            sampled(S, n, g, C, interp, rs, p, r)
        return b

    def sampled(S, n, g, C, interp, rs, p, r):
        S.prove("the samples are the recall values", r is rs or r.f is rs.f)
        S.prove("a value for every sample", pyvc.eq(p.shape[0], rs.shape[0]))
        R = lambda i: real(C.T.at(i)) / real(g)
        mono = monotone(S, "recall", 0, n - 1, R)
        j, q = SInt(S.fresh_int("sample")), SInt(S.fresh_int("q"))
        S.axiom(z3.And(in_range(j, rs.shape[0]), in_range(q, n)))
        x = lift(rs.f(j))
        v = p.f(j)
        S.instantiate(j)
        for w in [f(j) for f in S.memo.get("searches", [])]:
            for k in (w, w - 1):
                S.tp(k)
                C.S.at(k)
                mono(q, k)
                mono(k, q - 1)
                mono(k, n - 1)
                mono(k, k + 1)
        for k in (q, q - 1, n - 1):
            S.tp(k)
        base = C.S.at(q) if interp else C.raw(q)
        here = z3.And(lift(R(q)) >= x, z3.Or(q.e == 0, lift(R(q - 1)) < x))
        at = [f(j) for f in S.memo.get("searches", [])][-1:]
        before = S.fork(q.e < at[0].e) if at else False
        after = not before and S.fork(q.e > at[0].e) if at else False
        S.prove("value at a sample: the precision at the first recall from it on" + (" (not before it)" if before else " (not after it)" if after else ""),
                SBool(z3.Implies(here, lift(v) == lift(base))))
        S.prove("value at a sample beyond the last recall: zero", SBool(z3.Implies(z3.Or(ilift(n) == 0, lift(R(n - 1)) < x), lift(v) == 0)))

    def mean(S):
        n, g, M, X, C = setup(S)
        k = S.int("k", 1, sampler=lambda r: r.randint(1, 3))
        rs = SArr.input(S, "samples", (k,))
        ap, p, r = run(S, lambda: U.compute_ap(M, X, g, rs, True, area_under_curve=False), C, n, g)
        sampled(S, n, g, C, True, rs, p, r)
        S.prove_same("average over the samples", real(ap) * real(k), reduction("sum", k, p.f))
    for i in (False, True):
        V.forall("compute_pr (%s)" % ("interpolated" if i else "plain"), "compute_pr", pr(i, False), case)
        V.forall("compute_pr (%s, at samples)" % ("interpolated" if i else "plain"), "compute_pr", pr(i, True), case)
    V.forall("compute_ap (mean over samples)", ["compute_ap", "compute_pr"], mean, case)

    # consequences of the definitions, which the contracts above establish for the code
    def curve(S, name, n):
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        return Curve(n, lambda i: SBool(f(ilift(i))))

    def both(*cs):
        return SBool(z3.And(*[blift(c) for c in cs]))

    def basics(S, C, n, g):
        T, B, A = C.T, C.S, C.A
        tr = induction(S, "count of true positives", 0, n - 1, lambda i: both(T.at(i) >= 0, T.at(i) <= i + 1))
        mono = monotone(S, "recall", 0, n - 1, lambda i: T.at(i))

        def rawr(i):
            tr(i)
            S.axiom(z3.Implies(z3.And(ilift(i) >= 0, ilift(i) < ilift(n)), z3.And(lift(C.raw(i)) >= 0, lift(C.raw(i)) <= 1)))
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n))
        tr(i)
        S.prove("precision in [0, 1]", both(C.raw(i) >= 0, C.raw(i) <= 1))

        def br(i):
            rawr(i)
            v = B.at(i)
            return both(v >= 0, v <= 1)
        bl = induction(S, "interpolated precision in [0, 1]", 0, n - 1, br, down=True)
        return tr, mono, rawr, bl

    def ranges(S):
        n, g = S.int("n", 1, sampler=lambda r: r.randint(1, 4)), S.int("n_gt", 1, sampler=lambda r: r.randint(1, 5))
        C = curve(S, "correct", n)
        T, B, A = C.T, C.S, C.A
        S.axiom(ilift(T.at(n - 1)) <= g.e)
        tr, mono, rawr, bl = basics(S, C, n, g)
        i = SInt(S.fresh_int("i"))
        S.axiom(z3.And(in_range(i, n), in_range(i + 1, n)))
        mono(i, i + 1), mono(i, n - 1), tr(i), rawr(i)
        S.prove("recall never decreases", T.at(i) <= T.at(i + 1))
        S.prove("recall in [0, 1]", both(T.at(i) >= 0, T.at(i) <= g))
        S.prove("interpolated precision never increases", B.at(i) >= B.at(i + 1))
        S.prove("interpolation never lowers the precision", B.at(i) >= C.raw(i))

        def area(i):
            bl(i), T.at(i), T.at(i - 1), tr(i), tr(i - 1)
            before = SInt(z3.If(ilift(i) <= 0, z3.IntVal(0), ilift(T.at(i - 1))))
            return both(A.at(i) >= 0, A.at(i) <= real(T.at(n - 1) - before))
        al = induction(S, "area from a place on", 0, n, area, down=True)
        al(I0)
        S.prove("average precision in [0, 1]", both(A.at(I0) >= 0, A.at(I0) <= real(g)))
    V.forall("values in [0, 1]", ["compute_pr", "compute_auc_ap"], ranges, fixed)

    def none(S):
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        C = curve(S, "correct", n)

        def zero(i):
            S.axiom(z3.Implies(in_range(SInt(ilift(i)), n), z3.Not(blift(C.m(i)))))
            return C.A.at(i) == 0
        induction(S, "no matches", 0, n, zero, down=True)(I0)
        S.prove("average precision is 0 without matches", C.A.at(I0) == 0)
    V.forall("no matches", ["compute_auc_ap"], none, fixed)

    def perfect(S):
        n, g = S.int("n", 1, sampler=lambda r: r.randint(1, 4)), S.int("n_gt", 1, sampler=lambda r: r.randint(1, 5))
        S.assume(g <= n)
        C = Curve(n, lambda i: SBool(ilift(i) < g.e))
        tc = induction(S, "every detection correct so far", 0, g - 1, lambda i: C.T.at(i) == i + 1)

        def area(i):
            tc(i)
            C.S.at(i)
            return C.A.at(i) >= real(g - i) * (1 - EPS)
        C.A.at(g)
        S.prove("area beyond the matches", induction(S, "nothing after the matches", g, n, lambda i: C.A.at(i) >= 0, down=True)(g))
        l = induction(S, "area up to the matches", 0, g, area, down=True)
        l(I0)
        S.prove("average precision is 1 when everything is matched first", C.A.at(I0) >= real(g) * (1 - EPS))
    V.forall("perfect ranking", ["compute_auc_ap"], perfect, fixed)

    def better(S):
        """a false positive becomes a true positive"""
        n, g = S.int("n", 1, sampler=lambda r: r.randint(1, 4)), S.int("n_gt", 1, sampler=lambda r: r.randint(1, 5))
        q = S.int("q", 0, sampler=lambda r: 0)
        S.assume(q < n)
        C = curve(S, "correct", n)
        D = Curve(n, lambda i: SBool(z3.Or(blift(C.m(i)), ilift(i) == q.e)))
        S.axiom(z3.Not(blift(C.m(q))))
        basics(S, C, n, g)
        bd = basics(S, D, n, g)[3]
        t = induction(S, "no fewer true positives", 0, n - 1, lambda i: C.T.at(i) <= D.T.at(i))

        def raw(i):
            t(i)
            return SBool(z3.Implies(in_range(SInt(ilift(i)), n), lift(C.raw(i)) <= lift(D.raw(i))))
        i = SInt(S.fresh_int("i"))
        S.prove("precision is no lower", raw(i))

        def best(i):
            S.axiom(raw(i).e)
            return C.S.at(i) <= D.S.at(i)
        b = induction(S, "interpolated precision is no lower", 0, n - 1, best, down=True)

        def area(i):
            b(i), bd(i)
            return C.A.at(i) <= D.A.at(i)
        induction(S, "area is no smaller", 0, n, area, down=True)(I0)
        S.prove("average precision is no lower", C.A.at(I0) <= D.A.at(I0))
        # at a recall sample (times n_gt)
        x = S.real("x")
        k, l = SInt(S.fresh_int("k")), SInt(S.fresh_int("l"))
        S.axiom(z3.And(in_range(k, n), in_range(l, n)))
        first = lambda X, k: z3.And(lift(real(X.T.at(k))) >= x.e, z3.Or(k.e == 0, lift(real(X.T.at(k - 1))) < x.e))
        S.axiom(z3.And(first(C, k), first(D, l)))
        md = monotone(S, "recall", 0, n - 1, lambda i: D.T.at(i))
        ms = monotone(S, "interpolated precision", 0, n - 1, lambda i: D.S.at(i), down=True)
        t(k), md(k, l - 1), ms(l, k), b(k)
        S.prove("sampled precision is no lower", C.S.at(k) <= D.S.at(l))
    V.forall("a false positive becomes correct", ["compute_ap", "compute_pr", "compute_auc_ap"], better, fixed)

    def ranking(S):
        """the ranking depends on the order of distinct scores only: neither on their scale nor on the order of the input"""
        n = S.int("n", 1, sampler=lambda r: r.randint(1, 4))
        K, K2 = SArr.input(S, "a", (n,)), SArr.input(S, "b", (n,))
        sg, I = z3.Function("position", z3.IntSort(), z3.IntSort()), z3.IntSort()
        p, p2 = Order(K), Order(K2)

        def facts(i, j):
            """for i != j: different positions, distinct scores, ordered alike"""
            i, j = ilift(i), ilift(j)
            for a in (i, j):
                S.axiom(z3.Implies(in_range(SInt(a), n), in_range(SInt(sg(a)), n)))
            ok = z3.And(in_range(SInt(i), n), in_range(SInt(j), n), i != j)
            u, v, x, y = [lift(A.f(SInt(e))) for A, e in ((K, sg(i)), (K, sg(j)), (K2, i), (K2, j))]
            S.axiom(z3.Implies(ok, z3.And(sg(i) != sg(j), u != v, (x < y) == (u < v), (y < x) == (v < u))))

        def f(i):
            a = p2.at(SInt(ilift(i)))
            S.axiom(z3.Implies(in_range(a, n), in_range(SInt(sg(a.e)), n)))
            return p.rank(SInt(sg(a.e)))

        def step(i):
            """f(i) < f(i + 1)"""
            i = SInt(ilift(i))
            p2.sorted(i, i + 1)
            facts(p2.at(i), p2.at(i + 1))
            p.at(f(i)), p.at(f(i + 1))
            p.sorted(f(i + 1), f(i))
            return SBool(z3.Implies(z3.And(i.e >= 0, i.e + 1 < n.e), ilift(f(i)) < ilift(f(i + 1))))
        i = SInt(S.fresh_int("i"))
        S.prove("later places stay later", step(i))

        def use(i):
            S.axiom(step(i).e)

        def low(i):
            use(i), p.rank(SInt(sg(p2.at(SInt(ilift(i))).e)))
            return SBool(ilift(f(i)) >= ilift(i))

        def high(i):
            use(i)
            return SBool(ilift(f(i)) <= ilift(i))
        l = induction(S, "no place moves forward", 0, n - 1, low)
        h = induction(S, "no place moves back", 0, n - 1, high, down=True)
        j = SInt(S.fresh_int("j"))
        S.axiom(in_range(j, n))
        l(j), h(j), p.at(j)
        S.prove("the same detection is at every place of the ranking", SBool(sg(p2.at(j).e) == p.at(j).e))
        # the same ranked matches give the same values
        f1, f2 = [z3.Function(x, I, z3.BoolSort()) for x in ("c1", "c2")]
        C, D = [Curve(n, lambda i, x=x: SBool(x(ilift(i)))) for x in (f1, f2)]

        def same(get, name, hi, down, *use):
            def P(i):
                S.axiom(z3.Implies(in_range(SInt(ilift(i)), n), f1(ilift(i)) == f2(ilift(i))))
                for u in use:
                    u(i)
                return SBool(lift(get(C, i)) == lift(get(D, i)))
            return induction(S, name, 0, hi, P, down=down)
        t = same(lambda X, i: X.T.at(i), "same true positives", n - 1, False)
        b = same(lambda X, i: X.S.at(i), "same precision", n - 1, True, t)
        same(lambda X, i: X.A.at(i), "same average precision", n, True, t, b)
    V.forall("only the ranking matters", ["compute_pr", "compute_auc_ap"], ranking, fixed)
