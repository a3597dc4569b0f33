"""Loops over symbolic sequences, as contracts: the body is executed once for a generic index (all its paths), its effects on
containers that exist outside the loop are recorded, and after the loop the containers are functions of the index.
No bound on the number of iterations; a form that is not known raises Unsupported (undecided, never skipped)."""
import ast
import copy
import itertools
import types

import numpy as _np
import z3

import pyvc
from pyvc import Sym, SInt, SReal, SBool, Unsupported, cur, ilift, lift, blift, ite, eq, join

TICK = itertools.count(1)


class Frame:
    def __init__(self):
        self.tick = next(TICK)
        self.effects = []
        self.reads = []


# --- time ---------------------------------------------------------------------------------------
# Iterations of a loop over a symbolic sequence are evaluated when one of their results is needed, against the state the loop saw:
# changes made since are undone for the evaluation and redone afterwards.

def journal(undo, redo):
    r = cur()
    if r is None or getattr(r, "frames", None):
        return
    r.__dict__.setdefault("journal", []).append((undo, redo))


def swap_log(get, put):
    """call before a change: get() is the state, put(state) restores it"""
    r = cur()
    if r is None or getattr(r, "frames", None):
        return
    old, cell = get(), []

    def undo():
        cell[:] = [get()]
        put(old)
    journal(undo, lambda: put(cell[0]))


MISSING = object()


def touch(obj, name):
    """call before the attribute is set"""
    d = getattr(obj, "__dict__", None)
    if d is None or isinstance(obj, type):
        return

    def put(v):
        if v is MISSING:
            d.pop(name, None)
        else:
            d[name] = v
    swap_log(lambda: d.get(name, MISSING), put)


class Past:
    """the state when the journal had p entries"""

    def __init__(self, r, p):
        self.r, self.p = r, p

    def __enter__(self):
        J = self.r.__dict__.get("journal", [])
        self.J = J
        self.late = J[self.p:]
        if self.late:
            for u, _ in reversed(self.late):
                u()
            self.r.journal = J[:self.p]

    def __exit__(self, *a):
        if self.late:
            for _, f in self.late:
                f()
            self.r.journal = self.J


def then(f):
    """f, evaluated against the state of now whenever it is called"""
    r = cur()
    t = len(getattr(r, "journal", ()))

    def g(*a):
        with Past(r, t):
            return f(*a)
    return g


class Ret:
    def __init__(self, v):
        self.v = v


def recording(target):
    """the innermost loop body under way, if `target` existed before it"""
    fr = getattr(cur(), "frames", None)
    if fr and getattr(target, "_tick", 0) < fr[-1].tick:
        return fr[-1]
    return None


def record(target, *eff):
    f = recording(target)
    if f is None:
        return False
    f.effects.append((target,) + eff)
    return True


def mutable(x):
    """guard of a mutation inside a symbolic loop body"""
    if hasattr(x, "_tick") or isinstance(x, SDict):
        return x
    fr = getattr(cur(), "frames", None)
    if not fr:
        return x
    raise Unsupported("a loop over a symbolic sequence changes a %s" % type(x).__name__)


def unsupported(msg):
    raise Unsupported(msg)


def acc(name, inc):
    cur().frames[-1].effects.append((None, "acc", name, inc))


def linear_in(e, k):
    """(a, b) with e == a*k + b, a a constant; or None"""
    c0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
    c1 = z3.simplify(z3.substitute(e, (k, k + 1)) - e)
    if not z3.is_int_value(c1):
        c1 = z3.simplify(c1, som=True)
    if z3.is_int_value(c1):
        return c1.as_long(), c0
    return None


def split_affine(e, m):
    """(q, r) with e == m*q + r, 0 <= r < m, when visible in the polynomial; else (e div m, e mod m)"""
    if isinstance(e, int):
        return e // m, e % m
    if m == 1:
        return e, 0
    x = z3.simplify(ilift(e), som=True)
    terms = list(x.children()) if x.decl().kind() == z3.Z3_OP_ADD else [x]
    const, q = 0, []
    for t in terms:
        if z3.is_int_value(t):
            const += t.as_long()
        elif t.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % m == 0:
            c = t.arg(0).as_long() // m
            rest = t.arg(1) if t.num_args() == 2 else z3.Product(*t.children()[1:])
            q.append(rest if c == 1 else c * rest)
        else:
            return SInt(ilift(e) / m), SInt(ilift(e) % m)
    s = z3.Sum(*q) if len(q) > 1 else q[0] if q else z3.IntVal(0)
    return SInt(z3.simplify(s + const // m)), const % m


class Loop:
    def __init__(self, it, body):
        from seq import sseq
        self.s = sseq(it).copy() if hasattr(it, "_is_sseq") else sseq(it)
        self.n = self.s.n
        self.body = body
        self.time = len(getattr(cur(), "journal", ()))

    def paths(self, t):
        """[(condition, effects)] of the iteration at index t"""
        from seq import in_range
        run = cur()
        key = t if isinstance(t, int) else ilift(t).get_id()
        depth = len(run.pc)
        if not hasattr(run, "frames"):
            run.frames = []

        def fn():
            f = Frame()
            run.frames.append(f)
            try:
                try:
                    r = self.body(self.s.at(t))
                except (Unsupported, pyvc.EndPath, z3.Z3Exception, pyvc.TooBig, RecursionError):
                    raise
                except Exception as ex:
                    if pyvc._engine_fault(ex):
                        raise
                    f.effects.append((None, "raise", ex))
                    r = None
                if isinstance(r, Ret):
                    f.effects.append((None, "ret", r.v))
                return f
            finally:
                run.frames.pop()
        ok = in_range(SInt(ilift(t)), self.n)
        if not isinstance(t, int):
            run.keep.append(ilift(t))
        with Past(run, self.time):
            return run.merged(fn, assume=[ok] if not z3.is_true(z3.simplify(ok)) else [], raw=True)

    def exits(self, t, kind):
        return z3.Or(*[c for c, f in self.paths(t) if any(e[0] is None and e[1] == kind for e in f.effects)])


def has_effects(s, body):
    """does a generic iteration change something outside, or raise?"""
    k = SInt(cur().fresh_int("it"))
    try:
        return any(f.effects for _, f in Loop(s, lambda x: (body(x), None)[1]).paths(k))
    except (Unsupported, z3.Z3Exception, pyvc.TooBig):
        return False


def pure(f):
    """f, refusing to change anything outside"""
    def g(x):
        run = cur()
        if not hasattr(run, "frames"):
            run.frames = []
        fr = Frame()
        run.frames.append(fr)
        try:
            v = f(x)
        finally:
            run.frames.pop()
        if fr.effects:
            raise Unsupported("an element expression has effects")
        return v
    return g


class Result:
    def __init__(self):
        self.ret = None
        self.accs = {}

    def acc(self, name):
        return self.accs.get(name, 0)


def freeze(f):
    """the function with the variables of the enclosing function as they are now (it may be evaluated later)"""
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def run_loop(it, body):
    body = freeze(body)
    from seq import in_range, exists, SSeq, SArr, Filter, reduction
    run = cur()
    if not hasattr(run, "frames"):
        run.frames = []
    L = Loop(it, body)
    k = SInt(run.fresh_int("it"))
    raw = L.paths(k)
    res = Result()
    every = [(c, f, [e for e in f.effects]) for c, f in raw]
    # exits: the first iteration that raises or returns
    kinds = {e[1] for _, _, es in every for e in es if e[0] is None and e[1] in ("raise", "ret")}
    if kinds:
        if "ret" in kinds and any(e[1] not in ("ret", "raise") for _, _, es in every for e in es):
            raise Unsupported("a loop that both returns and has effects")
        out = lambda t: z3.Or(*[L.exits(t, kd) for kd in sorted(kinds)])
        b = exists((L.n,), lambda i: SBool(out(i)))
        if bool(b):
            w = run.memo["wits"][-1]
            if "ret" in kinds:
                run.universals.append((1, lambda ix: run.axiom(z3.Implies(z3.And(ilift(ix[0]) >= 0, ilift(ix[0]) < w.e), z3.Not(out(SInt(ilift(ix[0]))))))))
            at = [(c, e) for c, f in L.paths(w) for e in f.effects if e[0] is None and e[1] in kinds]
            for c, e in at[:-1]:
                if run.fork(c):
                    break
            else:
                c, e = at[-1]
                run.axiom(c)
            if e[1] == "raise":
                raise e[2]
            res.ret = (e[2],)
            return res
    live = [(c, [e for e in es]) for c, f, es in every if not any(e[0] is None and e[1] in ("raise", "ret") for e in es)]
    done = lambda t: [(c, f.effects) for c, f in L.paths(t) if not any(e[0] is None and e[1] in ("raise", "ret") for e in f.effects)]
    # accumulators
    names = {e[2] for _, es in live for e in es if e[0] is None and e[1] == "acc"}
    for nm in sorted(names):
        def inc(i, nm=nm):
            vals = []
            for c, es in done(i):
                tot = 0
                for e in es:
                    if e[0] is None and e[1] == "acc" and e[2] == nm:
                        tot = tot + e[3]
                vals.append((c, tot))
            return join(vals)
        p = inc(k)
        if isinstance(p, _np.ndarray):
            out = _np.empty(p.shape, dtype=object)
            for ix in _np.ndindex(*p.shape):
                out[ix] = reduction("sum", L.n, lambda i, ix=ix: inc(i)[ix])
            res.accs[nm] = out.view(pyvc.A)
        elif isinstance(p, (Sym, int, float, _np.number)):
            res.accs[nm] = reduction("sum", L.n, inc)
        else:
            raise Unsupported("accumulator of %s" % type(p).__name__)
    # containers
    targets, order = {}, []
    for _, es in live:
        for e in es:
            if e[0] is not None and id(e[0]) not in targets:
                targets[id(e[0])] = e[0]
                order.append(e[0])
    for fr in [f for _, f, _ in every]:
        for t, key in fr.reads:
            if id(t) in targets and not hasattr(t, "_is_sarr"):
                raise Unsupported("a loop reads a container it changes")
    summaries = []
    for T in order:
        mine = lambda es, T=T: [e for e in es if e[0] is T]
        summaries.append((T, T._summary(L, k, live, done, mine, [f for _, f, _ in every])))
    for T, s in summaries:
        T._apply(s)
    return res


def choose_path(run, cases):
    """one of the paths [(condition, value)], by forking"""
    for c, v in cases[:-1]:
        if run.fork(c):
            return v
    if not cases:
        raise pyvc.EndPath()
    return cases[-1][1]


def join_or_choose(run, cases):
    try:
        return join(cases)
    except Unsupported:
        return choose_path(run, cases)


def seq_summary(self, L, k, live, done, mine, frames):
    """appends: every iteration appends m items, or none (order-preserving filter)"""
    from seq import Filter, SSeq
    run = cur()
    counts = []
    if any(e[1] == "extend" for _, es in live for e in mine(es)):
        return flat_summary(self, L, k, live, done, mine)
    for c, es in live:
        es = mine(es)
        if any(e[1] != "append" for e in es):
            raise Unsupported("a loop extends a sequence by a symbolic number of items")
        counts.append(len(es))
    ms = {c for c in counts if c}
    if len(ms) != 1:
        raise Unsupported("a loop appends different numbers of items")
    m = ms.pop()
    always = all(counts)

    def items(t):
        cs = [(c, [e[2] for e in mine(es)]) for c, es in done(t)]
        return [(c, xs) for c, xs in cs if xs]

    def pick_item(t, r):
        cs = items(t)
        if isinstance(r, int):
            return join_or_choose(run, [(c, xs[r]) for c, xs in cs])
        v = join_or_choose(run, [(c, xs[m - 1]) for c, xs in cs])
        for q in reversed(range(m - 1)):
            v = ite(eq(r, q), join_or_choose(run, [(c, xs[q]) for c, xs in cs]), v)
        return v
    if m == 1:
        flat = (L.n, None if always else lambda i: SBool(z3.Or(*[c for c, xs in items(i)])), lambda i: pick_item(i, 0))
        if recording(self):
            # only the enclosing loop's summary needs it
            seg = SSeq(None, None)
            seg.flat = flat
            return seg
    if always:
        def at(j):
            t, r = split_affine(j, m)
            return pick_item(t, r)
        seg = SSeq(L.n * m, at)
    else:
        F = Filter(L.n, lambda i: SBool(z3.Or(*[c for c, xs in items(i)])))

        def at(j):
            t, r = split_affine(j, m)
            F.position(ilift(t))
            return pick_item(SInt(F.pos(ilift(t))), r)
        seg = SSeq(SInt(F.m) * m, at)
        seg.filter = F
    seg.block = m
    if m == 1:
        seg.flat = flat
    return seg


class Flat:
    """row(j), col(j): the position j of an n x w table in row-major order (j = row*w + col, 0 <= col < w)"""

    def __init__(self, n, w):
        run = cur()
        t = run._name("rm")
        self.n, self.w = n, w
        self.row = z3.Function("row" + t, z3.IntSort(), z3.IntSort())
        self.col = z3.Function("col" + t, z3.IntSort(), z3.IntSort())
        self.size = SInt(run.fresh_int("cells"))
        run.axiom(self.size.e >= 0)
        run.axiom((self.size.e == 0) == z3.Or(ilift(n) <= 0, ilift(w) <= 0))
        run.define(self.size.e, lambda v: max(0, int(run.ev(ilift(n), v))) * max(0, int(run.ev(ilift(w), v))))

    def at(self, j):
        run = cur()
        e = ilift(j)
        r, c = self.row(e), self.col(e)
        key = ("cell", self.row.get_id(), e.get_id())
        if key not in run.memo:
            run.memo[key] = True
            run.keep += [e, r, c]
            wd = lambda v: max(1, int(run.ev(ilift(self.w), v)))
            run.define(r, lambda v: int(run.ev(e, v)) // wd(v))
            run.define(c, lambda v: int(run.ev(e, v)) % wd(v))
            run.axiom(z3.Implies(z3.And(e >= 0, e < self.size.e), z3.And(r >= 0, r < ilift(self.n), c >= 0, c < ilift(self.w))))
        return SInt(r), SInt(c)


def flat_of(n, w):
    run = cur()
    key = ("flat", z3.simplify(ilift(n)).get_id(), z3.simplify(ilift(w)).get_id())
    if key not in run.memo:
        run.keep += [z3.simplify(ilift(n)), z3.simplify(ilift(w))]
        run.memo[key] = Flat(n, w)
    return run.memo[key]


def flat_summary(self, L, k, live, done, mine):
    """nested loops: every iteration appends what the inner loop over 0 <= c < w (the same w in every iteration) appends, at most one item each"""
    from seq import Filter, SSeq
    run = cur()
    w = None
    for c, es in live:
        es = mine(es)
        if len(es) != 1 or es[0][1] != "extend" or getattr(es[0][2], "flat", None) is None:
            raise Unsupported("a loop extends a sequence by a symbolic number of items")
        n2 = z3.simplify(ilift(es[0][2].flat[0]))
        if depends(n2, k.e) or (w is not None and not n2.eq(w)):
            raise Unsupported("a loop extends a sequence by different numbers of items")
        w = n2
    always = all(mine(es)[0][2].flat[1] is None for _, es in live)
    M = flat_of(L.n, SInt(w))

    def inner(t):
        cs = [(c, mine(es)[0][2].flat) for c, es in done(t) if mine(es)]
        return choose_path(run, cs)

    def item(j):
        t, c = M.at(j)
        return inner(t)[2](c)

    def pred(j):
        t, c = M.at(j)
        p = inner(t)[1]
        return SBool(z3.BoolVal(True)) if p is None else p(c)
    if always:
        seg = SSeq(M.size, item)
    else:
        F = Filter(M.size, pred)

        def at(j):
            F.position(ilift(j))
            return item(SInt(F.pos(ilift(j))))
        seg = SSeq(SInt(F.m), at)
        seg.filter = F
    seg.block = 1
    seg.flatmap = M
    return seg


def affine_stores(self, effs, k, frames):
    """(dimension, factor, offset) of stores at positions affine in the loop index, none at the same place in two iterations"""
    forms = set()
    for e in effs:
        dep = []
        for d, q in enumerate(e[2]):
            if isinstance(q, slice):
                for s in (q.start, q.stop):
                    if isinstance(s, SInt) and depends(s.e, k.e):
                        # a slice moving with the index: start affine, constant length
                        dep.append(d)
                        break
            elif isinstance(q, SInt) and depends(q.e, k.e):
                dep.append(d)
        if len(dep) != 1:
            raise Unsupported("a loop stores at a position that is not affine in its index")
        d = dep[0]
        q = e[2][d]
        width = 1
        if isinstance(q, slice):
            lf = linear_in(ilift(q.start), k.e)
            w = z3.simplify(ilift(q.stop) - ilift(q.start), som=True)
            if lf is None or not z3.is_int_value(w):
                raise Unsupported("a loop stores at a slice that is not affine in its index")
            width = w.as_long()
        else:
            lf = linear_in(q.e, k.e)
        if lf is None or lf[0] < 1 or not z3.is_int_value(lf[1]):
            raise Unsupported("a loop stores at a position that is not affine in its index")
        forms.add((d, lf[0], lf[1].as_long(), width))
    d, a = {(f[0], f[1]) for f in forms}.pop()
    b0 = min(f[2] for f in forms)
    if len({(f[0], f[1]) for f in forms}) != 1 or max(f[2] + f[3] for f in forms) > b0 + a:
        raise Unsupported("iterations of a loop store at overlapping positions")
    # reads of the array in the loop must be of the iteration's own cells
    for fr in frames:
        for t, key in fr.reads:
            if t is self:
                q = key[d] if len(key) > d else slice(None)
                lf = linear_in(q.e, k.e) if isinstance(q, SInt) else None
                if lf is None or lf[0] != a or not z3.is_int_value(lf[1]) or not b0 <= lf[1].as_long() < b0 + a:
                    raise Unsupported("a loop reads other parts of an array it changes")
    return d, a, b0


def scatter(self, L, k, live, done, mine, frames):
    """stores at any positions along one dimension: a cell has the value of the last iteration that stores there.
    has(p) says whether one does, last(p) is that iteration."""
    from seq import SArr, in_range
    run = cur()
    per = [mine(es) for _, es in live]
    if not all(per) or len(live) != len(done(SInt(k.e))):
        raise Unsupported("a loop stores at a position that is not affine in its index, in some iterations only")
    dims = set()
    for es in per:
        for e in es:
            dep = [d for d, q in enumerate(e[2]) if isinstance(q, slice) and any(isinstance(s, SInt) and depends(s.e, k.e) for s in (q.start, q.stop))
                   or isinstance(q, SInt) and depends(q.e, k.e)]
            if len(dep) != 1 or not isinstance(e[2][dep[0]], SInt):
                raise Unsupported("a loop stores at a position that is not affine in its index")
            dims.add(dep[0])
    if len(dims) != 1 or any(not e[2][min(dims)].e.eq(es[0][2][min(dims)].e) for es in per for e in es):
        raise Unsupported("an iteration of a loop stores at different positions")
    if any(t is self for fr in frames for t, key in fr.reads):
        raise Unsupported("a loop reads an array it changes")
    d = dims.pop()
    run.counter += 1
    I = z3.IntSort()
    has, last = z3.Function("stored!%d" % run.counter, I, z3.BoolSort()), z3.Function("last!%d" % run.counter, I, I)

    run.scattered.append(last)

    def effects(i, f):
        cs = []
        for c, es in done(SInt(i)):
            es = mine(es)
            if not es:
                raise Unsupported("a loop stores in some iterations only")
            cs.append((c, f(es)))
        return join(cs)

    def place(i):
        return ilift(run.merged(lambda: effects(i, lambda es: es[0][2][d]), assume=[in_range(SInt(i), L.n)]))

    def inst(ix):
        i = ilift(ix[0])
        try:
            p = place(i)
        except pyvc.EndPath:
            return                  # not an index of the loop
        run.keep.append(p)
        run.axiom(z3.Implies(in_range(SInt(i), L.n), z3.And(has(p), last(p) >= i)))
    run.universals.append((1, inst))
    old = self.f

    def g(*ix):
        p = ilift(ix[d])
        w = last(p)
        run.keep += [p, w]
        try:
            pw = place(w)
        except pyvc.EndPath:
            return old(*ix)         # no iterations
        run.axiom(z3.Implies(has(p), z3.And(in_range(SInt(w), L.n), pw == p)))

        def value(es):
            tmp = SArr(self.shape, old, self.decl)
            tmp._tick = 10 ** 12
            for e in es:
                key = e[2][:d] + (SInt(p),) + e[2][d + 1:]
                tmp[key if len(key) != 1 else key[0]] = e[3]
            return tmp.f(*ix)
        try:
            v = run.merged(lambda: effects(w, value), assume=[has(p), in_range(SInt(w), L.n)])
        except pyvc.EndPath:
            return old(*ix)
        return ite(SBool(has(p)), v, old(*ix))
    return g


def arr_summary(self, L, k, live, done, mine, frames):
    """stores at positions that are affine in the loop index, or additions at any positions"""
    from seq import SArr, in_range, reduction
    run = cur()
    effs = [e for _, es in live for e in mine(es)]
    if recording(self):
        return row_summary(self, L, k, live, done, mine, frames, effs)
    if all(e[1] == "add" for e in effs):
        old = self.f

        def g(*ix):
            def inc(i):
                cs = []
                for c, es in done(i):
                    tot = SReal(pyvc.rv(0))
                    for e in mine(es):
                        m, v = match(self, e[2], e[3], ix)
                        tot = tot + ite(m, v, 0)
                    cs.append((c, tot))
                return join(cs)
            return old(*ix) + reduction("sum", L.n, inc)
        return g
    if any(e[1] == "add" for e in effs):
        raise Unsupported("a loop both stores and adds to an array")
    try:
        d, a, b0 = affine_stores(self, effs, k, frames)
    except Unsupported:
        return scatter(self, L, k, live, done, mine, frames)
    old = self.f

    def g(*ix):
        t, r = split_affine(ix[d] - b0 if not (isinstance(b0, int) and b0 == 0) else ix[d], a)
        cs = []
        ok = in_range(SInt(ilift(t)), L.n)
        for c, es in done(t):
            tmp = SArr(self.shape, old, self.decl)
            tmp._tick = 10 ** 12
            for e in mine(es):
                tmp[e[2] if len(e[2]) != 1 else e[2][0]] = e[3]
            cs.append((c, tmp.f(*ix)))
        v = join(cs)
        if z3.is_true(z3.simplify(ok)) or run.known(ok):
            return v
        return ite(SBool(ok), v, old(*ix))
    return g


class Row:
    """what an inner loop stores: arr[key] = val with a slice in the key"""

    def __init__(self, key, val):
        self.key, self.val = key, val


def row_summary(self, L, k, live, done, mine, frames, effs):
    """an inner loop that stores one element per iteration, at consecutive positions along one axis: a slice assignment"""
    from seq import SArr, same_key
    if any(e[1] != "set" for e in effs) or any(len(mine(es)) != 1 for _, es in live):
        raise Unsupported("a nested loop changes an array of an outer loop")
    for f in frames:
        if any(r[0] is self for r in f.reads):
            raise Unsupported("a nested loop reads the array of an outer loop that it changes")
    d, a, b0 = affine_stores(self, effs, k, frames)
    key = effs[0][2]
    if not (isinstance(a, int) and a == 1) or len(key) != self.ndim or any(isinstance(x, slice) for e in effs for x in e[2]):
        raise Unsupported("a nested loop changes an array of an outer loop")
    for j in range(self.ndim):
        for e in effs:
            if j != d and (isinstance(e[2][j], Sym) and depends(e[2][j].e, k.e) or not same_key((e[2][j],), (key[j],), 1)):
                raise Unsupported("a nested loop changes an array of an outer loop")

    def value(t):
        return join([(c, mine(es)[0][3]) for c, es in done(t)])
    return Row(tuple(slice(b0, b0 + L.n) if j == d else x for j, x in enumerate(key)), SArr((L.n,), value, self.decl))


def match(arr, key, val, ix):
    """(condition, value) of a store at `key` seen at position ix"""
    from seq import SArr, in_range
    tmp = SArr(arr.shape, lambda *q: SReal(pyvc.rv(0)), arr.decl)
    tmp._tick = 10 ** 12
    hit = SArr(arr.shape, lambda *q: False, bool)
    hit._tick = 10 ** 12
    tmp[key if len(key) != 1 else key[0]] = val
    hit[key if len(key) != 1 else key[0]] = True
    h = hit.f(*ix)
    return h, tmp.f(*ix)


def depends(e, k):
    from seq import occurs
    return occurs(e, k)


# --- dictionaries ---------------------------------------------------------------------------------

class _DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SDict:
            return isinstance(x, dict)
        return type.__instancecheck__(cls, x)


def key_eq(a, b):
    """z3 condition of a == b"""
    q = a == b
    return blift(q) if isinstance(q, (SBool, bool, _np.bool_)) else z3.BoolVal(bool(q))


class SDict(dict, metaclass=_DictMeta):
    """dict with, optionally, a symbolic number of entries: distinct keys key(i), values val(i), 0 <= i < n, in insertion order"""
    seg = None
    inv = None          # (invariant, outer keys), see npseq.DictInvariant
    _tick = 0

    def __init__(self, *a, **kw):
        self._tick = next(TICK)
        if a and isinstance(a[0], SDict) and a[0].seg is not None:
            self.seg = a[0].seg
            a = ()
        elif a and hasattr(a[0], "_is_sseq") and not isinstance(a[0]._slen(), int):
            s = a[0]
            self._fill(s.n, lambda i: s.at(i)[0], lambda i: s.at(i)[1])
            a = ()
        dict.__init__(self, *a, **kw)

    @classmethod
    def symbolic(cls, n, key, val):
        """n entries with keys assumed distinct"""
        d = cls()
        d.seg = (n, key, val)
        d._distinct()
        return d

    def _distinct(self):
        from seq import in_range
        run = cur()
        n, key, _ = self.seg

        def inst(ix):
            i, j = [SInt(ilift(x)) for x in ix]
            run.axiom(z3.Implies(z3.And(in_range(i, n), in_range(j, n), i.e != j.e), z3.Not(key_eq(key(i), key(j)))))
        run.universals.append((2, inst))

    def _fill(self, n, key, val):
        """entries stored one after the other; the keys must be distinct"""
        from seq import in_range
        if dict.__len__(self) or self.seg is not None:
            raise Unsupported("a loop adds to a dictionary that has entries")
        run = cur()
        i, j = SInt(run.fresh_int("ka")), SInt(run.fresh_int("kb"))
        for _ in (0,):
            for u in ((i, j), (j, i)):
                run.instantiate(*u)
        two = z3.And(in_range(i, n), in_range(j, n), i.e != j.e)
        if run._sat(two) != z3.unsat:
            same = run.merged(lambda: SBool(key_eq(key(i), key(j))), assume=[two])
            if run._sat(z3.And(two, blift(same))) != z3.unsat:
                raise Unsupported("keys stored by a loop may coincide")
        self.seg = (n, key, val)

    def _summary(self, L, k, live, done, mine, frames):
        from seq import Filter
        run = cur()
        counts = [len(mine(es)) for _, es in live]
        if set(counts) != {1}:
            raise Unsupported("a loop stores a varying number of dictionary entries")
        at = lambda i, q: join_or_choose(run, [(c, mine(es)[0][q]) for c, es in done(i)])
        return (L.n, lambda i: at(i, 2), lambda i: at(i, 3))

    def _apply(self, s):
        self._fill(*s)

    def _slen(self):
        self._plain()
        return self.seg[0] if self.seg is not None else dict.__len__(self)

    def __len__(self):
        self._plain()
        if self.seg is not None:
            raise Unsupported("length of a symbolic dictionary as a machine number")
        return dict.__len__(self)

    def __bool__(self):
        self._plain()
        if self.seg is not None:
            from seq import scmp
            return bool(scmp(">", self.seg[0], 0))
        return dict.__len__(self) > 0

    def _read(self):
        f = recording(self)
        if f is not None:
            f.reads.append((self, None))

    def __setitem__(self, k, v):
        if self.inv is not None:
            self._no_record()
            return self.inv[0].store(self.inv[1], k, v)
        if record(self, "store", k, v):
            return
        if self.seg is not None:
            raise Unsupported("storing into a symbolic dictionary")
        dict.__setitem__(self, k, v)

    def _plain(self):
        if self.inv is not None:
            raise Unsupported("all entries of a dictionary under an invariant")

    def _no_record(self, reads=False):
        if reads and getattr(self.inv[0], "logged", False):
            return              # its changes are in the journal
        if recording(self) or getattr(cur(), "frames", None):
            raise Unsupported("a dictionary under an invariant in a loop without one")

    def find(self, q):
        """index of key q, or None"""
        from seq import exists
        n, key, _ = self.seg
        run = cur()
        b = exists((n,), lambda i: SBool(key_eq(key(i), q)))
        w = run.memo["wits"][-1]
        # distinct keys: the witness is the index q came from
        origin = getattr(q, "origin", None)
        if origin is not None:
            run.instantiate(origin)
            run.instantiate(w, origin)
            run.instantiate(origin, w)
        return w if bool(b) else None

    def __contains__(self, q):
        self._read()
        if self.inv is not None:
            self._no_record(True)
            return bool(self.inv[0].contains(self.inv[1], q))
        if self.seg is None:
            return dict.__contains__(self, q)
        return self.find(q) is not None

    def __getitem__(self, q):
        self._read()
        if self.inv is not None:
            self._no_record(True)
            return self.inv[0].get(self.inv[1], q)
        if self.seg is None:
            return dict.__getitem__(self, q)
        w = self.find(q)
        if w is None:
            raise KeyError(q)
        return self.seg[2](w)

    def get(self, q, d=None):
        self._read()
        if self.inv is not None:
            self._no_record(True)
            return self.inv[0].get(self.inv[1], q, d, True)
        if self.seg is None:
            return dict.get(self, q, d)
        w = self.find(q)
        return d if w is None else self.seg[2](w)

    def items(self):
        from seq import SSeq
        self._read()
        self._plain()
        if self.seg is None:
            return dict.items(self)
        n, key, val = self.seg
        return SSeq(n, lambda i: (key(i), val(i)))

    def values(self):
        from seq import SSeq
        self._read()
        self._plain()
        if self.seg is None:
            return dict.values(self)
        n, key, val = self.seg
        return SSeq(n, val)

    def keys(self):
        from seq import SSeq
        self._read()
        self._plain()
        if self.seg is None:
            return dict.keys(self)
        n, key, val = self.seg
        return SSeq(n, key)

    def __iter__(self):
        self._plain()
        if self.seg is not None:
            raise Unsupported("iteration over a symbolic dictionary")
        return dict.__iter__(self)

    def update(self, *a, **kw):
        self._plain()
        src = dict(*a, **kw) if kw or not a else a[0]
        if isinstance(src, SDict) and src.seg is not None:
            if recording(self):
                raise Unsupported("update in a loop")
            return self._fill(*src.seg)
        if hasattr(src, "_is_sseq"):
            return self._fill(src.n, lambda i: src.at(i)[0], lambda i: src.at(i)[1])
        for k in src:
            self[k] = src[k]

    def copy(self):
        self._plain()
        d = type(self)()
        d.seg = self.seg
        dict.update(d, self)
        return d

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        self._plain()
        if self.seg is not None:
            n, key, val = self.seg
            d = type(self)()
            d.seg = (n, key, lambda i: copy.deepcopy(val(i)))
            return d
        d = type(self)()
        for k, v in dict.items(self):
            dict.__setitem__(d, k, copy.deepcopy(v, memo))
        return d

    def _unsup(name):
        def f(self, *a, **k):
            if self.seg is not None or self.inv is not None or recording(self):
                raise Unsupported("%s of a symbolic dictionary" % name)
            return getattr(dict, name)(self, *a, **k)
        return f
    pop, popitem, setdefault, clear, __delitem__, __eq__, __ne__ = map(_unsup, ["pop", "popitem", "setdefault", "clear", "__delitem__", "__eq__", "__ne__"])
    __hash__ = None


def dictcomp(kf, vf, conds, it):
    kf, vf, conds = freeze(kf), freeze(vf), [freeze(c) for c in conds]
    from seq import is_symbolic_seq, sseq, comprehension
    it = keys_of(it)
    if not is_symbolic_seq(it):
        return {kf(x): vf(x) for x in it if all(c(x) for c in conds)}
    s = comprehension(lambda x: (kf(x), vf(x)), conds, it)
    d = SDict()
    d._fill(s.n, lambda i: s.at(i)[0], lambda i: s.at(i)[1])
    return d


def aslist(x):
    """list(x)"""
    x = keys_of(x)
    if hasattr(x, "_is_sseq") and not isinstance(x._slen(), int) and not hasattr(x, "_is_sarr"):
        return x.copy()
    return list(x)


def keys_of(it):
    """iterating a symbolic dictionary iterates its keys"""
    if isinstance(it, SDict) and it.seg is not None:
        return it.keys()
    return it._symbolic_keys() if hasattr(type(it), "_symbolic_keys") else it


# --- source rewriting -----------------------------------------------------------------------------

MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "remove", "clear", "setdefault", "push_back", "discard", "sort", "reverse",
            "fill", "resize", "popitem", "emplace_back", "write"}
NEW_SCOPE = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def names(node, ctx):
    """Names read or bound by a statement (comprehension and lambda variables excluded)."""
    out = set()

    def go(n, hidden):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ctx) and n.id not in hidden:
                out.add(n.id)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(hidden)
            for g in n.generators:
                go(g.iter, h)
                h |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    go(c, h)
            for f in ("elt", "key", "value"):
                if hasattr(n, f):
                    go(getattr(n, f), h)
            return
        if isinstance(n, ast.Lambda):
            go(n.body, hidden | {a.arg for a in n.args.args})
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if ctx is ast.Store:
                out.add(n.name)
                return
            for b in n.body:
                go(b, hidden)
            return
        for c in ast.iter_child_nodes(n):
            go(c, hidden)
    go(node, frozenset())
    return out


def loads(n): return names(n, ast.Load)
def stores(n): return names(n, (ast.Store, ast.Del)) if False else names(n, ast.Store)


def first_use(v, stmts):
    """'load' | 'kill' | None: what happens first to v in these statements"""
    for s in stmts:
        if getattr(s, "_was_for", None) is not None:
            if v in s._was_for[0]:                       # a loop in its rewritten form: the target is set first
                continue
            if first_use(v, s._was_for[1]) == "load":
                return "load"
        elif isinstance(s, ast.Assign) and len(s.targets) >= 1:
            if v in loads(s.value):
                return "load"
            sub = [t for t in s.targets if v in loads(t)]
            if sub:
                return "load"
            if any(isinstance(t, ast.Name) and t.id == v or isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Name) and e.id == v for e in t.elts)
                   for t in s.targets):
                return "kill"
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None and v in loads(s.value):
                return "load"
            if s.target.id == v and s.value is not None:
                return "kill"
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id == v or v in loads(s):
                return "load"
        elif isinstance(s, ast.If):
            if v in loads(s.test):
                return "load"
            a, b = first_use(v, s.body), first_use(v, s.orelse)
            if "load" in (a, b):
                return "load"
            if a == b == "kill":
                return "kill"
        elif isinstance(s, (ast.For, ast.While)):
            if v in loads(s.iter if isinstance(s, ast.For) else s.test):
                return "load"
            if isinstance(s, ast.For) and v in stores(s.target):
                continue
            if first_use(v, s.body) == "load" or first_use(v, s.orelse) == "load":
                return "load"
        elif isinstance(s, ast.With):
            for i in s.items:
                if v in loads(i.context_expr):
                    return "load"
                if i.optional_vars is not None and v in stores(i.optional_vars):
                    return "kill"
            r = first_use(v, s.body)
            if r:
                return r
        elif isinstance(s, ast.Try):
            if v in loads(s):
                return "load"
        elif isinstance(s, (ast.Return, ast.Raise)):
            if v in loads(s):
                return "load"
            return "kill"
        elif v in loads(s):
            return "load"
    return None


def own(node, kinds):
    """nodes of these kinds in a loop body, not in nested functions; Break/Continue not in nested loops"""
    out = []

    def go(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, NEW_SCOPE):
                continue
            if isinstance(c, kinds) and (top or not isinstance(c, (ast.Break, ast.Continue))):
                out.append(c)
            go(c, top and not isinstance(c, (ast.For, ast.While)))
    for s in node:
        if isinstance(s, kinds):
            out.append(s)
        if not isinstance(s, NEW_SCOPE):
            go(s, not isinstance(s, (ast.For, ast.While)))
    return out


class Body(ast.NodeTransformer):
    """the loop body as a function body"""

    def __init__(self, accs, local):
        self.accs, self.local, self.depth = accs, local, 0

    def visit_FunctionDef(self, n): return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(ast.Return(None), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Call(ast.Name("Ret_", ast.Load()), [n.value or ast.Constant(None)], [])), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in self.accs:
            return ast.copy_location(ast.Expr(ast.Call(ast.Name("acc_", ast.Load()), [ast.Constant(n.target.id), n.value], [])), n)
        if isinstance(n.target, ast.Subscript):
            n.target.value = self.guard(n.target.value)
        return n

    def guard(self, e):
        return ast.Call(ast.Name("mutable_", ast.Load()), [e], [])

    def visit_Assign(self, n):
        self.generic_visit(n)
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                t.value = self.guard(t.value)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and not (isinstance(f.value, ast.Name) and f.value.id in self.local):
            f.value = self.guard(f.value)
        return n


class HBody(ast.NodeTransformer):
    """the loop body as a function of the variables it carries, for loops with a given invariant"""

    def __init__(self, carried):
        self.carried, self.depth = carried, 0

    def leave(self, kind):
        return ast.Return(ast.Tuple([ast.Constant(kind), ast.Dict([ast.Constant(v) for v in self.carried], [ast.Name(v, ast.Load()) for v in self.carried])], ast.Load()))

    def visit_FunctionDef(self, n): return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(self.leave("next"), n)

    def visit_Break(self, n):
        return n if self.depth else ast.copy_location(self.leave("break"), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Call(ast.Name("Ret_", ast.Load()), [n.value or ast.Constant(None)], [])), n)


def stored(body):
    """names of the containers that the body changes in place (dotted for what attributes lead to, and "." in addition);
    "." alone for what is not reached from a name by subscripts and attributes"""
    out = set()

    def dotted(x):
        if isinstance(x, ast.Attribute):
            d = dotted(x.value)
            return d and d + "." + x.attr
        return x.id if isinstance(x, ast.Name) else None

    def root(x):
        while isinstance(x, ast.Subscript) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("mutable_", "touch_") and x.args:
            x = x.value if isinstance(x, ast.Subscript) else x.args[0]
        if isinstance(x, ast.Attribute) and dotted(x):
            out.add(dotted(x))
        return x.id if isinstance(x, ast.Name) else "."
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(root(x.value) if isinstance(x, ast.Subscript) else ".")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                out.add(root(x.func.value))
    return out


class LoopInfo:
    """what an invariant is chosen by: the sequence, its length, the variables carried over and the containers changed in place"""

    def __init__(self, it, carried, stored, loc):
        self.seq, self.n, self.carried, self.stored, self.loc = it, it.n, carried, stored, loc


def invariant(it, loc, carried, stored):
    """the annotation of this loop, if the check gives one"""
    run = cur()
    if run is None or not getattr(run, "invariants", None) or getattr(run, "frames", None):
        return None
    if "." in stored and not getattr(run, "attribute_stores", False):
        return None
    from seq import sseq
    held = {v: loc[v] for v in stored if v in loc}
    for v in stored:
        if "." in v and v != ".":
            x = loc.get(v.split(".")[0])
            for a in v.split(".")[1:]:
                x = getattr(x, a, None)
            held[v] = x
    info = LoopInfo(sseq(it), {v: loc.get(v, MISSING) for v in carried}, held, loc)
    for a in run.invariants:
        r = a(info)
        if r is not None:
            return r
    return None


def hoare(it, body, inv):
    """A loop by its invariant: inv.check(0, variables) before; an arbitrary iteration from inv.enter(i) re-establishes inv.check(i + 1, ...);
    afterwards the state is inv.enter(n).  Exceptions, returns and breaks of the arbitrary iteration leave the loop as usual."""
    from seq import sseq, in_range
    run = cur()
    s = sseq(it)
    inv.check(SInt(z3.IntVal(0)), inv.info.carried)
    arbitrary = SBool(run.fresh_bool("arbitrary"))
    if bool(arbitrary):
        i = SInt(run.fresh_int("iter"))
        run.axiom(in_range(i, s.n))
        vals = inv.enter(i)
        r = body(s.at(i), **vals)
        if isinstance(r, Ret):
            return r
        kind, out = r
        if kind == "break":
            return out
        inv.check(i + 1, out)
        raise pyvc.EndPath()
    n = s.n if isinstance(s.n, SInt) else SInt(z3.IntVal(s.n))
    return inv.enter(n)


def induction(body, targets):
    """variables whose only store in the loop body is one unconditional "v += constant" that every iteration reaches: {v: constant}"""
    if own(body, (ast.Continue, ast.Break, ast.Return)):
        return {}
    out = {}
    for s in body:
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and type(s.value.value) is int:
            v = s.target.id
            uses = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == v]
            if v not in targets and len(uses) > 1 and sum(not isinstance(x.ctx, ast.Load) for x in uses) == 1:
                out[v] = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
    return out


def indexed(it):
    from seq import sseq, SSeq
    s = sseq(it)
    return SSeq(s.n, lambda i: (i, s.at(i)))


def length(it):
    from seq import sseq
    n = sseq(it).n
    return n if isinstance(n, (int, SInt)) else SInt(n)


def step(v, c, k):
    if isinstance(v, bool) or not isinstance(v, (int, SInt)):
        raise Unsupported("induction variable of %s" % type(v).__name__)
    return v + c * k


class ForRewrite:
    """mixin of seq.Rewrite"""

    def loop(self, node, following):
        """node: a For whose children are rewritten; following: statements that may run afterwards"""
        why = None
        body = node.body
        st = set().union(*[stores(s) for s in body]) if body else set()
        tg = stores(node.target)
        accs = set()
        ind = induction(body, tg)
        if node.orelse:
            why = "for-else"
        elif own(body, (ast.Break,)):
            why = "break"
        elif own(body, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Delete)):
            why = "yield, global or del"
        elif any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for s in body for x in ast.walk(s)):
            why = "super"
        elif any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for s in body for x in ast.walk(s)):
            why = "an attribute is set"
        else:
            for v in sorted(st - tg - set(ind)):
                augs = [x for s in body for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v]
                other = [x for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == v and x not in [a.target for a in augs]]
                if augs and not other and all(isinstance(a.op, ast.Add) for a in augs):
                    accs.add(v)
                elif first_use(v, body) == "load":
                    why = "%s is carried from one iteration to the next" % v
                elif first_use(v, following) == "load":
                    why = "%s is used after the loop" % v
            for v in sorted(tg):
                if first_use(v, following) == "load":
                    why = "%s is used after the loop" % v
        self.k += 1
        k = self.k
        it, res = "_it%d" % k, "_res%d" % k
        N = lambda x: ast.Name(x, ast.Load())
        call = lambda f, *a: ast.Call(N(f), list(a), [])
        out = [ast.Assign([ast.Name(it, ast.Store())], call("keys_of_", node.iter))]
        carried = sorted(v for v in st | tg if v in accs or first_use(v, body) == "load" and v not in tg or first_use(v, following) == "load")
        plain = not node.orelse and not own(body, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) \
            and not any(isinstance(t, ast.Name) for d in own(body, (ast.Delete,)) for t in d.targets)
        hoare = None
        if plain:
            tr = HBody(carried)
            hb = [tr.visit(copy.deepcopy(s)) for s in body]
            fn = ast.FunctionDef("_hbody%d" % k, ast.arguments(posonlyargs=[], args=[ast.arg("_t%d" % k)] + [ast.arg(v) for v in carried], kwonlyargs=[], kw_defaults=[],
                                 defaults=[]), [ast.Assign([copy.deepcopy(node.target)], N("_t%d" % k))] + hb + [tr.leave("next")], [])
            hoare = [fn, ast.Assign([ast.Name(res, ast.Store())], call("hoare_", N(it), N("_hbody%d" % k), N("_inv%d" % k)))]
            if own(body, (ast.Return,)):
                hoare.append(ast.If(call("isinstance", N(res), N("Ret_")), [ast.Return(ast.Attribute(N(res), "v", ast.Load()))], []))
            for v in carried:
                hoare.append(ast.Assign([ast.Name(v, ast.Store())], ast.Subscript(N(res), ast.Constant(v), ast.Load())))
        if why:
            sym = [ast.Expr(call("unsupported_", ast.Constant("loop over a symbolic sequence: " + why)))]
        else:
            b = copy.deepcopy(body)
            tr = Body(accs, st | tg)
            b = [tr.visit(s) for s in b]
            t = copy.deepcopy(node.target)
            head = [ast.Assign([t], N("_t%d" % k))]
            seq = N(it)
            if ind:
                # an induction variable is its value before the loop plus the step times the position
                seq = call("indexed_", N(it))
                head = [ast.Assign([ast.Tuple([ast.Name("_p%d" % k, ast.Store()), t], ast.Store())], N("_t%d" % k))]
                head += [ast.Assign([ast.Name(v, ast.Store())], call("step_", N("_%s%d" % (v, k)), ast.Constant(c), N("_p%d" % k))) for v, c in sorted(ind.items())]
            fn = ast.FunctionDef("_body%d" % k, ast.arguments(posonlyargs=[], args=[ast.arg("_t%d" % k)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 head + b, [])
            sym = [ast.Assign([ast.Name("_%s%d" % (v, k), ast.Store())], N(v)) for v in sorted(ind)]
            sym += [fn, ast.Assign([ast.Name(res, ast.Store())], call("loop_", seq, N("_body%d" % k)))]
            if own(body, (ast.Return,)):
                sym.append(ast.If(ast.Compare(ast.Attribute(N(res), "ret", ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                                  [ast.Return(ast.Subscript(ast.Attribute(N(res), "ret", ast.Load()), ast.Constant(0), ast.Load()))], []))
            for v, c in sorted(ind.items()):
                sym.append(ast.Assign([ast.Name(v, ast.Store())], call("step_", N(v), ast.Constant(c), call("length_", N(it)))))
            for v in sorted(accs):
                sym.append(ast.Assign([ast.Name(v, ast.Store())], ast.BinOp(N(v), ast.Add(),
                                      ast.Call(ast.Attribute(N(res), "acc", ast.Load()), [ast.Constant(v)], []))))
        if hoare:
            tup = lambda vs: ast.Tuple([ast.Constant(v) for v in sorted(vs)], ast.Load())
            sym = [ast.Assign([ast.Name("_inv%d" % k, ast.Store())], call("invariant_", N(it), call("locals"), tup(carried), tup(stored(body)))),
                   ast.If(ast.Compare(N("_inv%d" % k), [ast.IsNot()], [ast.Constant(None)]), hoare, sym)]
        node.iter = N(it)
        out.append(ast.If(call("issym_", N(it)), sym, [node]))
        out[-1]._was_for = (tg, body)
        return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in out]

    def block(self, stmts, after):
        """rewrite a statement list; after: what may run after it"""
        out = []
        for i, s in enumerate(stmts):
            rest = stmts[i + 1:] + after
            if isinstance(s, NEW_SCOPE):
                out.append(self.visit(s))
                continue
            if isinstance(s, (ast.For, ast.While)):
                orig = copy.deepcopy(s)
                inner = [orig] + rest          # the body may run again
                s.body = self.block(s.body, inner)
                s.orelse = self.block(s.orelse, rest)
                if isinstance(s, ast.For):
                    s.iter = self.visit(s.iter)
                    # what follows, with the originals (not the rewritten form)
                    out.extend(self.loop(s, rest))
                else:
                    s.test = self.visit(s.test)
                    out.append(s)
                continue
            for f in ("body", "orelse", "finalbody"):
                if getattr(s, f, None) and isinstance(getattr(s, f), list):
                    setattr(s, f, self.block(getattr(s, f), rest))
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = self.block(h.body, rest)
            # expressions of this statement
            for f, v in ast.iter_fields(s):
                if f in ("body", "orelse", "finalbody", "handlers"):
                    continue
                if isinstance(v, ast.AST):
                    setattr(s, f, self.visit(v))
                elif isinstance(v, list):
                    setattr(s, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            out.append(s)
        return out

    def containers(self, fn):
        """empty lists and dictionaries that a loop of this function fills become tracked containers"""
        hot = set()
        for l in ast.walk(fn):
            if isinstance(l, (ast.For,)):
                for x in ast.walk(l):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                        hot.add(x.func.value.id)
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                        hot.add(x.value.id)
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in hot:
                v = s.value
                if isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and not v.args:
                    s.value = ast.copy_location(ast.Call(ast.Name("newlist_", ast.Load()), [], []), v)
                elif isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and not v.keywords:
                    s.value = ast.copy_location(ast.Call(ast.Name("newdict_", ast.Load()), [], []), v)


def helpers():
    from seq import SSeq, is_symbolic_seq
    return {"list_": aslist, "indexed_": indexed, "length_": length, "step_": step, "loop_": run_loop, "invariant_": invariant, "hoare_": hoare, "issym_": is_symbolic_seq, "unsupported_": unsupported, "Ret_": Ret, "acc_": acc, "mutable_": mutable,
            "keys_of_": keys_of, "newlist_": TList, "touch_": touch, "newdict_": SDict, "dictcomp_": dictcomp}


class TList(list):
    """A list that a loop over a symbolic sequence may extend: a native list until then, afterwards a symbolic sequence (sym)."""
    sym = None

    def __init__(self, *a):
        list.__init__(self, *a)
        self._tick = next(TICK)

    @property
    def _is_sseq(self):
        if self.sym is None:
            raise AttributeError("_is_sseq")
        return True

    def __getattr__(self, name):
        if name.startswith("__") or name == "sym" or self.__dict__.get("sym") is None:
            raise AttributeError(name)
        return getattr(self.sym, name)

    def _lift(self):
        from seq import sseq
        if self.sym is None:
            xs = list.copy(self)
            self.sym = sseq(xs)
        return self.sym

    def _read(self):
        f = recording(self)
        if f is not None:
            f.reads.append((self, None))

    def _state(self):
        return (self.sym, None if self.sym is None else (self.sym.n, self.sym._at), list(list.__iter__(self)))

    def _restore(self, st):
        self.sym = st[0]
        if st[0] is not None:
            self.sym.n, self.sym._at = st[1]
        list.__setitem__(self, slice(None), st[2])

    def _log(self):
        swap_log(self._state, self._restore)

    _summary = seq_summary

    def _apply(self, seg):
        if recording(self):
            record(self, "extend", seg)
            return
        self._log()
        if self.sym is None and list.__len__(self) == 0:
            self.sym = seg
        else:
            self.sym = self._lift() + seg

    def append(self, x):
        if record(self, "append", x):
            return
        self._log()
        if hasattr(self.sym, "plus"):
            self.sym = self.sym.plus(x)
        elif self.sym is not None:
            self.sym.append(x)
        else:
            list.append(self, x)

    def extend(self, xs):
        from seq import is_symbolic_seq
        if not is_symbolic_seq(xs):
            for x in xs:
                self.append(x)
            return
        if recording(self):
            record(self, "extend", xs)
            return
        self._log()
        self._lift()
        self.sym.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __len__(self):
        return list.__len__(self) if self.sym is None else len(self.sym)

    def __bool__(self):
        return list.__len__(self) > 0 if self.sym is None else bool(self.sym)

    def __iter__(self):
        self._read()
        return list.__iter__(self) if self.sym is None else iter(self.sym)

    def __getitem__(self, i):
        self._read()
        if self.sym is None and not isinstance(i, Sym):
            return list.__getitem__(self, i)
        return self._lift()[i]

    def __add__(self, o):
        return list.__add__(self, o) if self.sym is None and isinstance(o, list) and not hasattr(o, "_is_sseq") else self._lift() + o

    def __setitem__(self, i, v):
        if self.sym is not None or recording(self) or isinstance(i, Sym):
            raise Unsupported("assignment to an element of a symbolic sequence")
        list.__setitem__(self, i, v)

    def copy(self):
        t = TList(list.copy(self))
        if self.sym is not None:
            t.sym = self.sym.copy()
        return t

    def _unsup(name):
        def f(self, *a, **k):
            if self.sym is not None or recording(self):
                raise Unsupported("%s of a symbolic sequence" % name)
            return getattr(list, name)(self, *a, **k)
        return f
    insert, pop, remove, clear, sort, reverse, __delitem__, __contains__, index = map(_unsup, ["insert", "pop", "remove", "clear", "sort", "reverse", "__delitem__", "__contains__", "index"])
