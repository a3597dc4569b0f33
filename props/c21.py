"""C21 data association: the similarity cache, the greedy matcher, its restriction to categories and what the constructor passes."""
import types

import loops
import npseq
import pyvc
from load import World
from loops import SDict
from pyvc import SBool, SInt, SReal, Unsupported, z3, ilift, lift, blift
from seq import SArr, SSeq, in_range

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Ghost:
    """what one path of the proof knows: sequences of distinct keys, to be told about every term of interest"""

    def __init__(self, S):
        self.S, self.enums, self.rows = S, [], {}
        self.sim = z3.Function("sim", I, I, R)
        self.score = z3.Function("score", I, R)
        self.ev = z3.Function("evaluated", I, B)

    def fresh(self, name):
        return self.S.fresh_int(name)

    def know(self, *terms):
        for t in terms:
            for e in list(self.enums):
                e.know(t)
            self.S.instantiate(SInt(t))


class Enum:
    """a finite sequence of distinct keys, in any order; with `member`, exactly the keys it holds for"""

    def __init__(self, G, name, n=None, member=None):
        S = G.S
        t = S._name(name)
        self.G, self.S = G, S
        self.K, self.P = z3.Function("key" + t, I, I), z3.Function("pos" + t, I, I)
        if n is None:
            n = S.fresh_int("n" + name)
            S.axiom(n >= 0)
            n = SInt(n)
        self.n, self.member, self.seen = n, member, {}
        G.enums.append(self)

    def key(self, i):
        i = ilift(i)
        if ("k", i.get_id()) not in self.seen:
            self.seen["k", i.get_id()] = i
            k = self.K(i)
            ok = in_range(SInt(i), self.n)
            self.S.axiom(z3.Implies(ok, self.P(k) == i))
            if self.member is not None:
                self.S.axiom(z3.Implies(ok, self.member(k)))
            self.know(k)
        return self.K(i)

    def know(self, d):
        if self.member is not None and ("d", d.get_id()) not in self.seen:
            self.seen["d", d.get_id()] = d
            self.S.axiom(self.member(d) == self.has(d))

    def has(self, d):
        return z3.And(in_range(SInt(self.P(d)), self.n), self.K(self.P(d)) == d)

    def before(self, d, i):
        """d is among the first i keys"""
        return z3.And(self.has(d), self.P(d) < ilift(i))

    def seq(self, f, tag=None):
        s = SSeq(self.n, lambda i: f(SInt(self.key(i))))
        self.G.rows[id(s._at)] = (s._at, self, tag)
        return s


def ident(x):
    if not isinstance(x, SInt):
        raise Unsupported("a key that is no id")
    return x.e


class Logged:
    """state whose changes are in the journal, so that what is evaluated later sees the state of its time"""
    logged = True

    def __setattr__(self, name, v):
        loops.touch(self, name)
        object.__setattr__(self, name, v)


def recorded():
    if getattr(pyvc.cur(), "frames", None):
        raise Unsupported("a loop without an invariant changes a dictionary")


class Elements:
    """the elements of a scene by their ids (project_object_dict: a dictionary)"""

    def __init__(self, G, enum, kind, cat):
        self.G, self.enum, self.kind, self.cat = G, enum, kind, cat

    def element(self, d):
        e = types.SimpleNamespace(id=d, kind=self.kind, category=SInt(self.cat(d.e)))
        if self.kind == "det":
            e.score = SReal(self.G.score(d.e))
        else:
            e.evaluated = SBool(self.G.ev(d.e))
        return e

    def values(self): return self.enum.seq(self.element, "values")
    def items(self): return self.enum.seq(lambda d: (d, self.element(d)), "items")
    def keys(self): return self.enum.seq(lambda d: d, "keys")
    _symbolic_keys = keys
    def _slen(self): return self.enum.n

    def __contains__(self, d):
        return bool(SBool(self.enum.has(ident(d))))

    def __getitem__(self, d):
        if d not in self:
            raise KeyError(d)
        return self.element(d)


class Cache(Logged):
    """similarity cache: a row per detection; which pairs are present is `pres`"""
    _tick = 0

    def __init__(self, M, G, enum, pres, given=False):
        self.M, self.G, self.enum, self.pres, self.given = M, G, enum, pres, given

    def __deepcopy__(self, memo):
        return Cache(self.M, self.G, self.enum, self.pres)

    def corr(self, d, g):
        G = self.G
        return self.M.Corr(det_id=d, gt_id=g, similarity=SReal(G.sim(d.e, g.e)), det_score=SReal(G.score(d.e)), evaluated=SBool(G.ev(g.e)))

    def keys(self): return self.enum.seq(lambda d: d, ("cache", self))
    _symbolic_keys = keys
    def values(self): return self.enum.seq(lambda d: CacheRow(self, d), ("cache", self))
    def items(self): return self.enum.seq(lambda d: (d, CacheRow(self, d)), ("cache", self))
    def _slen(self): return self.enum.n

    def __contains__(self, d): return bool(SBool(self.enum.has(ident(d))))

    def __getitem__(self, d):
        if d not in self:
            raise KeyError(d)
        return CacheRow(self, d)


class CacheRow:
    _tick = 0

    def __init__(self, cache, d): self.c, self.d = cache, d

    def enum(self):
        p, d = self.c.pres, self.d.e
        return Enum(self.c.G, "row", member=lambda g: p(d, g))

    def keys(self): return self.enum().seq(lambda g: g, ("row", self))
    _symbolic_keys = keys
    def values(self): return self.enum().seq(lambda g: self.c.corr(self.d, g), ("row", self))
    def items(self): return self.enum().seq(lambda g: (g, self.c.corr(self.d, g)), ("row", self))
    def __contains__(self, g): return bool(SBool(self.c.pres(self.d.e, ident(g))))

    def __getitem__(self, g):
        if g not in self:
            raise KeyError(g)
        return self.c.corr(self.d, g)

    def pop(self, g, *default):
        if g not in self:
            if default:
                return default[0]
            raise KeyError(g)
        recorded()
        c, old, d, e = self.c, self.c.pres, self.d.e, g.e
        if c.given:
            c.G.S.prove("the similarities given are unchanged", False)
        c.pres = lambda x, y: z3.And(old(x, y), z3.Not(z3.And(x == d, y == e)))
        return c.corr(self.d, g)

    def __delitem__(self, g): self.pop(g)


class Functional:
    """Loop invariant that determines the state: after i iterations the predicate obj.attr is formula(i)."""

    def __init__(self, G, info, what, *states):
        self.G, self.info, self.what, self.states = G, info, what, states

    def enter(self, i):
        for obj, attr, arity, formula in self.states:
            setattr(obj, attr, formula(i))
        return {}

    def check(self, i, vals):
        for obj, attr, arity, formula in self.states:
            xs = [self.G.fresh("x") for _ in range(arity)]
            self.G.know(*xs)
            self.G.S.prove("loop invariant: " + self.what, SBool(getattr(obj, attr)(*xs) == formula(i)(*xs)))


class Table(Logged):
    """two-level dictionary: rows, and entries of a row"""

    def __init__(self, G, d, good):
        self.G, self.good = G, good
        self.row, self.entry = lambda x: z3.BoolVal(False), lambda x, y: z3.BoolVal(False)
        attach(d, self)
        self.enum = None

    def at(self, pre, k):
        return self.entry(pre[0].e, ident(k)) if pre else self.row(ident(k))

    def contains(self, pre, k): return SBool(self.at(pre, k))

    def get(self, pre, k, d=None, default=False):
        if not bool(SBool(self.at(pre, k))):
            if default:
                return d
            raise KeyError(k)
        if not pre:
            s = SDict()
            s.inv = (self, (k,))
            return s
        raise Unsupported("an entry that was stored is read")

    def store(self, pre, k, v):
        a = ident(k)
        if not pre:
            v = empty(v)
            r, e = self.row, self.entry
            self.row, self.entry = lambda x: z3.Or(r(x), x == a), lambda x, y: z3.And(e(x, y), x != a)
            v.inv = (self, (k,))
            return
        self.good(pre[0], k, v)
        e, b = self.entry, pre[0].e
        self.entry = lambda x, y: z3.Or(e(x, y), z3.And(x == b, y == a))


def empty(v):
    if type(v) is dict and not v:
        return SDict()
    if not isinstance(v, SDict) or dict.__len__(v) or v.seg is not None or v.inv is not None:
        raise Unsupported("storing another dictionary than a new one")
    return v


def attach(d, ghost):
    if not isinstance(d, SDict) or dict.__len__(d) or d.seg is not None or d.inv is not None:
        raise Unsupported("invariant for a dictionary with entries")
    d.inv = (ghost, ())


class Match(Logged):
    """detections matched so far: has(d), partner(d)"""

    def __init__(self, G, cache):
        self.G, self.cache = G, cache
        self.has, self.partner = lambda d: z3.BoolVal(False), lambda d: z3.IntVal(0)
        self.last = None

    def store(self, pre, k, v):
        S, G, d = self.G.S, self.G, ident(k)
        if not isinstance(v, self.cache.M.Corr):
            raise Unsupported("a match that is no Corr")
        g = ident(v.gt_id)
        S.prove("a match is recorded for its own detection, with its own data", SBool(z3.And(
            ident(v.det_id) == d, lift(v.similarity) == G.sim(d, g), lift(v.det_score) == G.score(d), blift(v.evaluated) == G.ev(g))))
        h, p = self.has, self.partner
        self.has, self.partner = lambda x: z3.Or(h(x), x == d), lambda x: z3.If(x == d, g, p(x))
        self.last = g

    def contains(self, pre, k): return SBool(self.has(ident(k)))

    def get(self, pre, k, d=None, default=False):
        if not bool(SBool(self.has(ident(k)))):
            if default:
                return d
            raise KeyError(k)
        return self.cache.corr(k, SInt(self.partner(ident(k))))


class Owners(Logged):
    """ground truth assigned so far: taken(g), owner(g)"""

    def __init__(self, G, d):
        self.G = G
        self.taken, self.owner = lambda g: z3.BoolVal(False), lambda g: z3.IntVal(0)
        attach(d, self)

    def store(self, pre, k, v):
        g, d = ident(k), ident(v)
        t, o = self.taken, self.owner
        self.taken, self.owner = lambda x: z3.Or(t(x), x == g), lambda x: z3.If(x == g, d, o(x))

    def contains(self, pre, k): return SBool(self.taken(ident(k)))

    def get(self, pre, k, d=None, default=False):
        if not bool(SBool(self.taken(ident(k)))):
            if default:
                return d
            raise KeyError(k)
        return SInt(self.owner(ident(k)))


class Assoc(Logged):
    """associations by threshold: only the one of the iteration under way is known"""

    def __init__(self, G, d, cache):
        self.G, self.cache, self.now = G, cache, None
        attach(d, self)

    def store(self, pre, k, v):
        v = empty(v)
        if self.now is not None:
            raise Unsupported("two associations are stored in one iteration")
        self.now = (k, Match(self.G, self.cache))
        v.inv = (self.now[1], ())

    def contains(self, pre, k):
        raise Unsupported("presence of a threshold")

    def get(self, pre, k, d=None, default=False):
        if self.now is None or not self.G.S.known(lift(k) == lift(self.now[0])):
            raise Unsupported("the association of another threshold is read")
        s = SDict()
        s.inv = (self.now[1], ())
        return s


class Greedy:
    """Invariant of the loop over the detections, best score first: who is matched so far, and that nobody better was available."""

    def __init__(self, G, info, dets, order, match, owners, pres):
        self.G, self.info, self.dets, self.order, self.match, self.owners, self.pres = G, info, dets, order, match, owners, pres
        self.i = None

    def rank(self, d):
        return self.order.rank(SInt(self.dets.P(d))).e

    def a(self, i, d):
        m, o = self.match, self.owners
        g = m.partner(d)
        return z3.Implies(m.has(d), z3.And(self.dets.has(d), self.rank(d) < i, self.pres(d, g), o.taken(g), o.owner(g) == d))

    def b(self, i, g):
        m, o = self.match, self.owners
        d = o.owner(g)
        return z3.Implies(o.taken(g), z3.And(m.has(d), m.partner(d) == g, self.dets.has(d), self.rank(d) < i))

    def c(self, i, d, g):
        m, o, sim = self.match, self.owners, self.G.sim
        return z3.Implies(z3.And(self.dets.has(d), self.rank(d) < i, self.pres(d, g)),
                          z3.Or(z3.And(m.has(d), sim(d, m.partner(d)) >= sim(d, g)), z3.And(o.taken(g), self.rank(o.owner(g)) < self.rank(d))))

    def state(self):
        return self.match.has, self.match.partner, self.owners.taken, self.owners.owner

    def put(self, st):
        self.match.has, self.match.partner, self.owners.taken, self.owners.owner = st

    def enter(self, i):
        t = self.G.S._name("state")
        fs = [z3.Function(n + t, I, s) for n, s in (("has", B), ("partner", I), ("taken", B), ("owner", I))]
        self.put([lambda x, f=f: f(x) for f in fs])
        self.i, self.was = ilift(i), self.state()
        self.cur = self.dets.key(self.order.at(i)) if self.order is not None else None
        self.order.rank(SInt(self.dets.P(self.cur)))
        self.G.know(self.cur)
        self.match.last = None
        return {}

    def recall(self, ds, gs):
        """the invariant as it was on entry, for these"""
        S = self.G.S
        now = self.state()
        self.put(self.was)
        i = self.i
        for d in ds:
            S.axiom(self.a(i, d))
            for g in gs:
                S.axiom(self.c(i, d, g))
        for g in gs:
            S.axiom(self.b(i, g))
        self.put(now)

    def check(self, i, vals):
        G, S = self.G, self.G.S
        i = ilift(i)
        d, g = G.fresh("d"), G.fresh("g")
        G.know(d, g)
        if self.i is not None:
            has, partner, taken, owner = self.was
            gs = [g, partner(d), partner(self.cur)] + ([self.match.last] if self.match.last is not None else [])
            ds = [d, self.cur] + [owner(x) for x in gs]
            G.know(*(ds + gs))
            self.recall(ds, gs)
            # the list the match was chosen from
            for e in list(G.enums):
                if e.member is not None:
                    p = SInt(e.P(g))
                    for f in S.memo.get("filters", []):
                        f.member(p.e)
                        for o in S.memo.get("sorts", []):
                            if o is not self.order:
                                v = o.rank(SInt(f.inv(p.e)))
                                o.sorted(v, o.n - 1)
        S.prove("loop invariant: matched pairs are candidates, each partner taken by its detection", SBool(self.a(i, d)))
        S.prove("loop invariant: what is taken is matched, once", SBool(self.b(i, g)))
        S.prove("loop invariant: no candidate is left over, and none is better than the one taken", SBool(self.c(i, d, g)))


def prove(V):
    W = World(V)
    M = W.load("sumo.metrics.evaluator")
    V.trust("sorted, list.sort, numpy.sort: a permutation in order of the keys (equal keys in any order)", "copy.deepcopy; a dictionary has each key once",
            "the elements of a scene are stored under their own ids (C12)")
    V.assume("similarities, scores and thresholds are real numbers (no NaN)")

    def case(v):
        return {"check": "run", "args": dict(sim=[[0.5, 0.75, 0.25], [0.5, 0.25, 0.5], [1.0, 1.0, 0.0]], scores=[0.3, 0.9, 0.5], evaluated=[True, False, True],
                                             dcats=["a", "b", "a"], gcats=["a", "a", "b"], thresholds=[0.75, 0.25, 0.5], categories=["a", "b", "c"], default=True)}

    def evaluator():
        return M.Evaluator.__new__(M.Evaluator)

    def world(S):
        G = Ghost(S)
        D, T = Enum(G, "det"), Enum(G, "gt")
        dcat, gcat = z3.Function("dcat", I, I), z3.Function("gcat", I, I)
        return G, D, T, Elements(G, D, "det", dcat), Elements(G, T, "gt", gcat)

    def row_of(G, info):
        r = G.rows.get(id(info.seq._at))
        return (r[1], r[2]) if r else (None, None)

    # ---- the greedy matcher ----------------------------------------------------
    def greedy(S):
        G, D, T, dets, gts = world(S)
        rows = Enum(G, "rows")
        given = z3.Function("present", I, I, B)
        pres0 = lambda d, g: given(d, g)
        nt = S.int("thresholds", 0)
        thr = z3.Function("threshold", I, R)
        thresholds = SArr((nt,), lambda i: SReal(thr(ilift(i))), float)
        S.universals.append((1, lambda ix: S.axiom(z3.Implies(D.has(ilift(ix[0])), rows.has(ilift(ix[0]))))))
        cache0 = Cache(M, G, rows, pres0, True)
        st = types.SimpleNamespace(k=None, assoc=None, cache=None, inv=None)

        class Outer:
            """no pair that reaches the next threshold was removed; the association of this threshold is complete"""

            def __init__(self, info): self.info = info

            def clauses(self, k, d, g):
                p = st.cache.pres(d, g)
                return z3.And(z3.Implies(p, pres0(d, g)), z3.Implies(z3.And(pres0(d, g), z3.Or(k == 0, G.sim(d, g) >= thr(k - 1))), p))

            def enter(self, k):
                t = S._name("left")
                f = z3.Function("left" + t, I, I, B)
                k = ilift(k)
                st.k, st.assoc.now, st.inv = k, None, None
                seen = {}

                def pres(d, g):
                    if (d.get_id(), g.get_id()) not in seen:
                        seen[d.get_id(), g.get_id()] = (d, g)
                        now, st.cache.pres = st.cache.pres, lambda x, y: f(x, y)
                        S.axiom(self.clauses(k, d, g))
                        st.cache.pres = now
                    return f(d, g)
                st.cache.pres = pres
                # increasing thresholds
                S.axiom(z3.Implies(z3.And(k >= 1, k < nt.e), thr(k - 1) <= thr(k)))
                return {}

            def check(self, k, vals):
                k = ilift(k)
                d, g = G.fresh("d"), G.fresh("g")
                G.know(d, g)
                S.prove("pairs that reach the next threshold are kept", SBool(self.clauses(k, d, g)))
                if st.k is None:
                    return
                t = thr(st.k)
                if not S.prove("one association is stored, for this threshold", st.assoc.now is not None and S.known(lift(st.assoc.now[0]) == t)) or st.inv is None:
                    return
                m = st.assoc.now[1]
                inv = st.inv
                has, partner = m.has(d), m.partner(d)
                o = inv.owners
                d2 = G.fresh("other")
                G.know(d2, partner, o.owner(g), m.partner(d2))
                inv.recall([d, d2, o.owner(g)], [g, partner, m.partner(d2)])
                o_ = inv.order
                for x, y in ((inv.rank(o.owner(g)), inv.rank(d)),):
                    o_.sorted(SInt(x), SInt(y))
                cand = z3.And(D.has(d), pres0(d, g), G.sim(d, g) >= t)
                S.prove("matched detections are detections, their partners candidates that reach the threshold",
                        SBool(z3.Implies(has, z3.And(D.has(d), pres0(d, partner), G.sim(d, partner) >= t))))
                S.prove("matching is one to one", SBool(z3.Implies(z3.And(has, m.has(d2), m.partner(d2) == partner), d == d2)))
                by = o.owner(g)
                used = z3.And(o.taken(g), m.has(by), m.partner(by) == g)
                S.prove("no pair that reaches the threshold is left with both elements free", SBool(z3.Implies(cand, z3.Or(has, used))))
                S.prove("a more similar candidate went to a detection of no lower score",
                        SBool(z3.Implies(z3.And(cand, z3.Or(z3.Not(has), G.sim(d, g) > G.sim(d, partner))), z3.And(used, by != d, G.score(by) >= G.score(d)))))

        def ann(info):
            enum, tag = row_of(G, info)
            caches = [v for v in info.stored.values() if isinstance(v, Cache)]
            dicts = [v for v in info.stored.values() if isinstance(v, SDict)]
            if st.cache is None:
                if len(caches) != 1 or caches[0].given or len(dicts) != 1 or not S.known(ilift(info.n) == nt.e) or not S.known(lift(info.seq.at(SInt(z3.IntVal(0)))) == thr(z3.IntVal(0))):
                    return None
                st.cache = caches[0]
                st.assoc = Assoc(G, dicts[0], st.cache)
                return Outer(info)
            if st.k is None:
                return None
            t = thr(st.k)
            c = st.cache
            if caches == [c] and not dicts and enum is not None and tag and tag[0] == "cache":
                pre = c.pres
                return Functional(G, info, "pairs below the threshold are removed row by row",
                                  (c, "pres", 2, lambda i: lambda x, y: z3.And(pre(x, y), z3.Not(z3.And(enum.before(x, i), G.sim(x, y) < t)))))
            if caches == [c] and not dicts and enum is not None and tag and tag[0] == "row":
                pre, d = c.pres, tag[1].d.e
                return Functional(G, info, "pairs below the threshold are removed from a row",
                                  (c, "pres", 2, lambda i: lambda x, y: z3.And(pre(x, y), z3.Not(z3.And(x == d, enum.before(y, i), G.sim(x, y) < t)))))
            order = getattr(info.seq, "order", None)
            if not caches and len(dicts) == 2 and order is not None and st.assoc.now is not None:
                new = [x for x in dicts if x.inv is None]
                if len(new) != 1:
                    return None
                j = SInt(S.fresh_int("j"))
                S.axiom(in_range(j, D.n))
                e = info.seq.at(j)
                S.prove("all detections are visited", SBool(z3.And(ilift(info.n) == D.n.e, z3.Implies(in_range(j, D.n), e.id.e == D.key(order.at(j))))))
                j2 = SInt(S.fresh_int("j2"))
                S.axiom(z3.And(in_range(j2, D.n), j.e <= j2.e))
                order.sorted(j, j2)
                S.prove("detections are visited by decreasing score", SBool(G.score(e.id.e) >= G.score(info.seq.at(j2).id.e)))
                pres = c.pres
                st.inv = Greedy(G, info, D, Descending(order, D, G, S), st.assoc.now[1], Owners(G, new[0]), pres)
                return st.inv
            return None
        S.invariants.append(ann)
        out = evaluator()._compute_agnostic_data_assoc(dets, gts, thresholds, cache0)
        S.prove("the associations are returned", st.assoc is not None and isinstance(out, SDict) and out.inv is not None and out.inv[0] is st.assoc)
        S.prove("the similarities given are unchanged", cache0.pres is pres0)

    class Descending:
        """the order of the detections, with its fact about scores stated for ranks"""

        def __init__(self, o, D, G, S): self.o, self.D, self.G, self.S, self.n = o, D, G, S, o.n
        def rank(self, i): return self.o.rank(i)

        def at(self, j):
            p = self.o.at(j)
            self.D.key(p)
            return p

        def sorted(self, i, j):
            a, b = self.D.key(self.at(i)), self.D.key(self.at(j))
            self.o.sorted(i, j)
    V.forall("greedy matching at every threshold", ["Evaluator._compute_agnostic_data_assoc", "sort_corrs_by_similarity"], greedy, case)

    # ---- the similarity cache ------------------------------------------------------
    def cache(S):
        G, D, T, dets, gts = world(S)
        ev = evaluator()

        def similarity(a, b):
            if not (isinstance(a, types.SimpleNamespace) and isinstance(b, types.SimpleNamespace)):
                raise Unsupported("similarity of something else")
            S.prove("the similarity is of a detection and a ground truth element, in this order", (a.kind, b.kind) == ("det", "gt"))
            return SReal(G.sim(a.id.e, b.id.e))
        ev._shape_similarity = similarity
        st = types.SimpleNamespace(table=None, d=None)

        def good(d, k, v):
            if not isinstance(v, M.Corr):
                raise Unsupported("an entry that is no Corr")
            S.prove("an entry is the pair's, with the detection's score and the partner's flag", SBool(z3.And(
                ident(v.det_id) == d.e, ident(v.gt_id) == k.e, lift(v.similarity) == G.sim(d.e, k.e), lift(v.det_score) == G.score(d.e), blift(v.evaluated) == G.ev(k.e))))

        def ann(info):
            enum, tag = row_of(G, info)
            dicts = [v for v in info.stored.values() if isinstance(v, SDict)]
            if len(dicts) != 1 or enum is None:
                return None
            if st.table is None and enum is D:
                t = st.table = Table(G, dicts[0], good)
                st.d = dicts[0]
                return Functional(G, info, "rows of the detections so far",
                                  (t, "row", 1, lambda i: lambda x: D.before(x, i)), (t, "entry", 2, lambda i: lambda x, y: z3.And(D.before(x, i), T.has(y))))
            t = st.table
            if t is not None and enum is T and dicts[0].inv is not None and dicts[0].inv[0] is t:
                row, entry = t.row, t.entry
                # the row under way: the detection of the outer iteration
                cur = loopdet(info)
                if cur is None:
                    return None
                return Functional(G, info, "entries of a row so far",
                                  (t, "row", 1, lambda i: row), (t, "entry", 2, lambda i: lambda x, y: z3.If(x == cur, T.before(y, i), entry(x, y))))
            return None

        def loopdet(info):
            ks = [k for k in D.seen if k[0] == "k"]
            return D.K(D.seen[ks[-1]]) if ks else None
        S.invariants.append(ann)
        scene = lambda e: types.SimpleNamespace(elements=e)
        out = ev._make_similarity_cache(scene(dets), scene(gts))
        S.prove("the cache is returned", isinstance(out, SDict) and st.table is not None and out.inv == (st.table, ()))
        d, g = G.fresh("d"), G.fresh("g")
        G.know(d, g)
        S.prove("a row for every detection, an entry for every pair, nothing else",
                SBool(z3.And(st.table.row(d) == D.has(d), st.table.entry(d, g) == z3.And(D.has(d), T.has(g)))))
    V.forall("similarity cache", "Evaluator._make_similarity_cache", cache, case)

    # ---- association by category -----------------------------------------------------
    class Cats(SSeq):
        """categories, possibly repeated"""

        def __init__(self, G):
            S = G.S
            self.S, self.C, self.F = S, z3.Function("category", I, I), z3.Function("firstplace", I, I)
            n = S.int("categories", 0)
            SSeq.__init__(self, n, self.one)
            G.enums.append(self)
            self.seen = set()
            self.keep = []

        def one(self, i):
            e = ilift(i)
            self.S.axiom(z3.Implies(in_range(i, self.n), z3.And(self.F(self.C(e)) >= 0, self.F(self.C(e)) <= e, self.C(self.F(self.C(e))) == self.C(e))))
            return SInt(self.C(e))

        def know(self, c):
            pass

        def has(self, c): return z3.And(in_range(SInt(self.F(c)), self.n), self.C(self.F(c)) == c)
        def before(self, c, i): return z3.And(self.has(c), self.F(c) < ilift(i))
        def __contains__(self, c): return bool(SBool(self.has(ident(c))))
        def copy(self): return SSeq(self.n, self._at)

    class Bag:
        """a new ProjectObjectDict"""
        _tick = 0

    class Bags(Logged):
        """dictionary from category to the elements of that category"""

        def __init__(self, G, d, name):
            self.G, self.name, self.kind = G, name, None
            self.has, self.member = lambda c: z3.BoolVal(False), lambda c, x: z3.BoolVal(False)
            attach(d, self)

        def contains(self, pre, k): return SBool(self.has(ident(k)))

        def get(self, pre, k, d=None, default=False):
            if not bool(SBool(self.has(ident(k)))):
                if default:
                    return d
                raise KeyError(k)
            return BagView(self, k)

        def store(self, pre, k, v):
            if not isinstance(v, Bag):
                raise Unsupported("another container of elements")
            c, h, m = ident(k), self.has, self.member
            self.has, self.member = lambda x: z3.Or(h(x), x == c), lambda x, y: z3.And(m(x, y), x != c)

    class BagView:
        _tick = 0

        def __init__(self, bags, c): self.b, self.c, self._e = bags, c, None

        @property
        def enum(self):
            if self._e is None:
                m, c = self.b.member, self.c.e
                self._e = Enum(self.b.G, "bag", member=lambda x: m(c, x))
            return self._e

        def keys(self): return self.enum.seq(lambda d: d, ("bag", self))
        _symbolic_keys = keys
        def _slen(self): return self.enum.n

        def __setitem__(self, k, v):
            recorded()
            if not isinstance(v, types.SimpleNamespace):
                raise Unsupported("an element")
            b, c, x = self.b, self.c.e, ident(k)
            b.G.S.prove("an element is stored under its id, with the others of its scene",
                        (b.kind in (None, v.kind)) and b.G.S.known(ident(v.id) == x))
            b.kind = v.kind
            m = b.member
            b.member = lambda p, q: z3.Or(m(p, q), z3.And(p == c, q == x))

    class Results(Logged):
        """associations by category: only that of the iteration under way is known"""

        def __init__(self, G, d):
            self.G, self.now = G, None
            attach(d, self)

        def contains(self, pre, k):
            raise Unsupported("presence of a category")

        def get(self, pre, k, d=None, default=False):
            raise Unsupported("the association of a category is read")

        def store(self, pre, k, v):
            if not isinstance(v, types.SimpleNamespace) or self.now is not None:
                raise Unsupported("what is stored as an association")
            self.now = (k, v)

    def categories(S):
        G, D, T, dets, gts = world(S)
        cats = Cats(G)
        ev = evaluator()
        pres = lambda d, g: z3.And(D.has(d), T.has(g))
        sims = Cache(M, G, D, pres, True)
        thresholds = object()
        M.ProjectObjectDict = Bag
        st = types.SimpleNamespace(bags=None, out=None, mini=None, cat=None)

        def good(d, k, v):
            S.prove("a similarity of a category is that of the pair", SBool(z3.And(ident(v.det_id) == d.e, ident(v.gt_id) == k.e, lift(v.similarity) == G.sim(d.e, k.e),
                    lift(v.det_score) == G.score(d.e), blift(v.evaluated) == G.ev(k.e))))

        def agnostic(a, b, t, c):
            if not isinstance(a, BagView) or not isinstance(b, BagView) or not isinstance(c, SDict) or c.inv is None or not isinstance(c.inv[0], Table):
                raise Unsupported("arguments of the matcher")
            S.prove("the matcher gets the thresholds", t is thresholds)
            S.prove("the matcher gets detections and ground truth, in this order", (a.b.kind, b.b.kind) in (("det", "gt"), ("det", None), (None, "gt"), (None, None)) and a.b is not b.b)
            S.prove("of one category", SBool(a.c.e == b.c.e))
            x, y = G.fresh("d"), G.fresh("g")
            G.know(x, y)
            cat = a.c.e
            ina, inb = z3.And(D.has(x), dets.cat(x) == cat), z3.And(T.has(y), gts.cat(y) == cat)
            S.prove("the detections of the category", SBool(a.b.member(cat, x) == ina))
            S.prove("the ground truth of the category", SBool(b.b.member(cat, y) == inb))
            t = c.inv[0]
            S.prove("the similarities of the category", SBool(z3.And(t.row(x) == ina, t.entry(x, y) == z3.And(ina, inb))))
            return types.SimpleNamespace(cat=cat)
        ev._compute_agnostic_data_assoc = agnostic

        class Outer:
            def __init__(self, info): self.info = info

            def enter(self, i):
                st.out.now, st.cat = None, ilift(i)
                return {}

            def check(self, i, vals):
                if st.cat is None:
                    return
                c = cats.C(st.cat)
                if st.out.now is None:
                    x = G.fresh("x")
                    G.know(x)
                    S.prove("only a category without elements has no association", SBool(z3.And(z3.Not(z3.And(D.has(x), dets.cat(x) == c)), z3.Not(z3.And(T.has(x), gts.cat(x) == c)))))
                else:
                    k, v = st.out.now
                    S.prove("the association is stored for its category", SBool(z3.And(ident(k) == c, v.cat == c)))

        def ann(info):
            enum, tag = row_of(G, info)
            dicts = [v for v in info.stored.values() if isinstance(v, SDict)]
            overcats = info.seq._at == cats._at
            if overcats and st.bags is None:
                bs = [Bags(G, d, "b%d" % k) for k, d in enumerate(dicts)]
                if not bs:
                    return None
                st.bags = bs
                return Functional(G, info, "an empty dictionary for every category so far",
                                  *[s for b in bs for s in ((b, "has", 1, lambda i: lambda c: cats.before(c, i)), (b, "member", 2, lambda i: lambda c, x: z3.BoolVal(False)))])
            if overcats and st.bags is not None and st.out is None:
                new = [d for d in dicts if d.inv is None]
                if len(new) != 1:
                    return None
                st.out = Results(G, new[0])
                return Outer(info)
            if enum in (D, T) and st.bags is not None and len(dicts) == 1 and dicts[0].inv is not None and dicts[0].inv[0] in st.bags:
                b = dicts[0].inv[0]
                el = dets if enum is D else gts
                has, member = b.has, b.member
                inv = Functional(G, info, "elements of each category so far", (b, "has", 1, lambda i: has),
                                 (b, "member", 2, lambda i: lambda c, x: z3.Or(member(c, x), z3.And(enum.before(x, i), el.cat(x) == c, cats.has(c)))))
                return KindInv(inv, b, el.kind)
            if tag and tag[0] == "bag" and len(dicts) == 1 and st.out is not None:
                d = dicts[0]
                if d.inv is None:
                    Table(G, d, good)
                t = d.inv[0]
                if not isinstance(t, Table):
                    return None
                row, entry = t.row, t.entry
                if tag[1].b.kind == "det":
                    t.outer = enum
                    other = lambda y, c=tag[1].c.e: z3.And(T.has(y), gts.cat(y) == c)
                    return Functional(G, info, "rows of the category so far", (t, "row", 1, lambda i: lambda x: z3.Or(row(x), enum.before(x, i))),
                                      (t, "entry", 2, lambda i: lambda x, y: z3.Or(entry(x, y), z3.And(enum.before(x, i), other(y)))))
                cur = lastkey(t.outer)
                return Functional(G, info, "entries of a row of the category so far", (t, "row", 1, lambda i: row),
                                  (t, "entry", 2, lambda i: lambda x, y: z3.If(x == cur, enum.before(y, i), entry(x, y))))
            return None

        def lastkey(e):
            ks = [k for k in e.seen if k[0] == "k"]
            return e.K(e.seen[ks[-1]])

        class KindInv:
            def __init__(self, inv, b, kind):
                self.inv, self.b, self.kind, self.info = inv, b, kind, inv.info
                if b.kind not in (None, kind):
                    raise Unsupported("elements of both scenes in one dictionary")
                b.kind = kind

            def enter(self, i): return self.inv.enter(i)
            def check(self, i, vals): return self.inv.check(i, vals)
        S.invariants.append(ann)
        out = ev._compute_category_data_assoc(dets, gts, thresholds, cats, sims)
        S.prove("the associations are returned", isinstance(out, SDict) and st.out is not None and out.inv == (st.out, ()))
        S.prove("the similarities given are unchanged", sims.pres is pres)
    V.forall("association by category", "Evaluator._compute_category_data_assoc", categories, case)

    # ---- what the constructor passes --------------------------------------------------
    def constructor(S):
        n = S.int("n", 0)
        raw = SArr.input(S, "threshold", (n,))
        calls = []

        class E(M.Evaluator):
            def _make_similarity_cache(self, a, b):
                calls.append(("cache", (a, b)))
                return sims

            def _compute_agnostic_data_assoc(self, *a):
                calls.append(("all", a))
                return "all"

            def _compute_category_data_assoc(self, *a):
                calls.append(("categories", a))
                return "categories"
        sims, cats = object(), object()
        sub, gt = types.SimpleNamespace(elements=object()), types.SimpleNamespace(elements=object())
        given = {"thresholds": raw, "categories": cats}
        e = E(sub, gt, given)
        S.prove("similarities of the submission with the ground truth", [c for c in calls if c[0] == "cache"] == [("cache", (sub, gt))])
        for name, tail in (("all", (sims,)), ("categories", (cats, sims))):
            a = [c[1] for c in calls if c[0] == name]
            if not S.prove("association is computed once (%s)" % name, len(a) == 1):
                continue
            a = a[0]
            S.prove("association of the elements of the scenes (%s)" % name, len(a) == 3 + len(tail) and a[0] is sub.elements and a[1] is gt.elements and all(x is y for x, y in zip(a[3:], tail)))
            t = a[2]
            o = getattr(t, "order", None)
            if o is None:
                raise Unsupported("order of the thresholds")
            i = SInt(S.fresh_int("i"))
            j = o.rank(i)
            S.prove("the thresholds are those given (%s)" % name, SBool(z3.Implies(in_range(i, n), z3.And(in_range(j, t.shape[0]), lift(t.f(j)) == lift(raw.f(i)), ilift(t.shape[0]) == n.e))))
            k = SInt(S.fresh_int("k"))
            o.sorted(k, k + 1)
            S.prove("the thresholds increase (%s)" % name, SBool(z3.Implies(z3.And(k.e >= 0, k.e + 1 < n.e), lift(t.f(k)) <= lift(t.f(k + 1)))))
        S.prove("the settings given are unchanged", given["thresholds"] is raw and len(given) == 2)
    V.forall("constructor", "Evaluator.__init__", constructor, case)
