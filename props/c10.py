"""C10 voxel grids: the representation invariant (rows of non-negative integers, all different, inside the x and y sizes) and the set of
occupied cells, preserved by every operation; any history follows by induction."""
import types

import pyvc
from load import World
from pyvc import NP, SBool, SInt, SReal, oarr, ilift, lift, z3
from seq import SArr, in_range, bound_and_attained, prove_arr, witnesses
from c05 import snap


class H5:
    """h5py by its contract: a file holds the datasets and attributes last written to it; opening may fail."""

    def __init__(self):
        self.files, self.fail = {}, False

    def File(self, name, mode="r", *a, **k):
        h = self
        if self.fail:
            raise OSError("cannot open")
        if mode == "r" and name not in self.files:
            raise OSError("no such file")
        if mode not in ("r", "w"):
            raise pyvc.Unsupported("h5py mode " + mode)

        class F:
            def __init__(self):
                if mode == "w":
                    h.files[name] = ({}, {})
                self.data, self.attrs = h.files[name]

            def create_dataset(self, key, shape=None, data=None, dtype=None, **kw):
                if mode == "r":
                    raise OSError("read only")
                if dtype is not None and str(dtype) not in ("int32", "<class 'numpy.int32'>", "i4", "int64", "i8"):
                    raise pyvc.Unsupported("dataset type %s" % dtype)
                self.data[key] = data

            def __getitem__(self, key): return self.data[key]
            def __setitem__(self, key, v): self.create_dataset(key, data=v)
            def __contains__(self, key): return key in self.data
            def close(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): return False
        return F()


def prove(V):
    W = World(V)
    h5 = H5()
    W.contracts["h5py"] = h5
    for m, n in (("mesh", "Mesh"), ("textured_mesh", "TexturedMesh")):
        W.contracts["sumo.threedee." + m] = types.SimpleNamespace(**{n: None})
    mod = W.load("sumo.threedee.voxel_grid")
    VG = mod.VoxelGrid
    V.assume("machine floats are treated as real numbers and machine integers as mathematical ones (cell indices below 2^31, linear indices below 2^53)")
    V.trust("numpy: tile, floor, amin, amax, matmul, union1d (every value of both arrays once, increasing), divmod, column_stack; h5py: a file holds what was last written to it")

    def lemma(S):
        s, x, y, q, p = S.int("s", 1), S.int("x", 0), S.int("y", 0), S.int("q"), S.int("p")
        S.assume(SBool(z3.And(x.e < s.e, y.e < s.e, x.e + s.e * q.e == y.e + s.e * p.e)))
        d = S.fresh_int("d")
        S.axiom(d == q.e - p.e)
        S.axiom(x.e - y.e == -(s.e * d))
        k = S.choose(3)
        S.assume(SBool([d == 0, d >= 1, d <= -1][k]))
        if k:
            S.axiom(z3.Implies(d >= 1, s.e * d >= s.e) if k == 1 else z3.Implies(d <= -1, s.e * d <= -s.e))
        S.prove("quotient and remainder are unique", SBool(z3.And(x.e == y.e, q.e == p.e)))
    V.forall("lemma: division", "_vectorize_voxels", lemma)

    # the two index conversions: proved below against these contracts, which callers then use.
    # lin(x, y, z, a, b) is the linear index; cx, cy, cz recover the coordinates of a linear index built from coordinates inside the sizes
    I = z3.IntSort()
    LIN = z3.Function("lin", *[I] * 6)
    COORD = [z3.Function("coord_" + c, I, I, I, I) for c in "xyz"]
    real = {k: getattr(mod, k, None) for k in ("_linearize_voxels", "_vectorize_voxels")}

    def whole(x):
        if pyvc.is_inty(x):
            return ilift(x)
        e = z3.simplify(lift(x))
        if z3.is_rational_value(e) and e.denominator_as_long() == 1:
            return z3.IntVal(e.numerator_as_long())
        raise pyvc.Unsupported("a voxel coordinate that is not an integer")

    def linearize(voxels, size_x, size_y):
        n = voxels.shape[0]
        if len(voxels.shape) != 2 or voxels.shape[1] != 3:
            raise pyvc.Unsupported("voxel rows")
        a, b = ilift(size_x), ilift(size_y)

        def at(i):
            S = pyvc.CUR
            S.instantiate(SInt(ilift(i)))
            x, y, z = [whole(voxels.at(i, k) if hasattr(voxels, "_is_sarr") else voxels[int(i), k]) for k in range(3)]
            t = LIN(x, y, z, a, b)
            ok = z3.And(x >= 0, y >= 0, z >= 0, x < a, y < b)
            S.axiom(z3.Implies(ok, z3.And(t >= 0, *[C(t, a, b) == c for C, c in zip(COORD, (x, y, z))])))
            return SInt(t)
        if isinstance(n, int):
            if n == 0:
                return NP.zeros(0)
            raise pyvc.Unsupported("known number of voxels")
        if pyvc.CUR.fork(ilift(n) == 1):
            return at(0)
        return SArr((n,), at, int)

    def vectorize(linear, size_x, size_y):
        if not hasattr(linear, "_is_sarr"):
            raise pyvc.Unsupported("known number of voxels")
        a, b = ilift(size_x), ilift(size_y)
        return SArr((linear.shape[0], 3), lambda i, k: SInt(COORD[k](ilift(linear.at(i)), a, b)), int)

    def swap(on):
        for k, f in (("_linearize_voxels", linearize), ("_vectorize_voxels", vectorize)):
            if real[k] is None:
                raise pyvc.Unsupported("%s is not there" % k)
            setattr(mod, k, f if on else real[k])

    def lin_body(S):
        swap(False)
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 3))
        C = SArr.input(S, "cells", (n, 3), "int", 0)
        a, b = S.int("size_x", 0), S.int("size_y", 0)
        got = real["_linearize_voxels"](C, a, b)
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n))
        want = C.at(i, 0) + C.at(i, 1) * a + C.at(i, 2) * a * b
        if hasattr(got, "_is_sarr"):
            S.prove("as many indices as rows", len(got.shape) == 1 and SBool(ilift(got.shape[0]) == ilift(n)))
            S.prove_eq("the linear index of a row", got.at(i), want)
        else:
            S.prove("a single index for a single row", SBool(ilift(n) == 1))
            S.axiom(z3.Implies(ilift(n) == 1, i.e == 0))
            S.prove_eq("the linear index of the row", got, C.at(0, 0) + C.at(0, 1) * a + C.at(0, 2) * a * b)
    V.forall("_linearize_voxels meets its contract", "_linearize_voxels", lin_body, lambda v: case(v))

    def vec_body(S):
        swap(False)
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 3))
        C = SArr.input(S, "cells", (n, 3), "int", 0)
        a, b = S.int("size_x", 1), S.int("size_y", 1)

        def inside(ix):
            i = SInt(ilift(ix[0]))
            S.axiom(z3.Implies(in_range(i, n), z3.And(C.at(i, 0).e < a.e, C.at(i, 1).e < b.e)))
        S.universals.append((1, inside))
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n))
        S.instantiate(i)
        L = SArr((n,), lambda j: C.at(j, 0) + C.at(j, 1) * a + C.at(j, 2) * a * b, int)
        got = real["_vectorize_voxels"](L, a, b)
        S.prove("three coordinates per index", len(got.shape) == 2 and got.shape[1] == 3)
        S.prove("one row per index", SBool(ilift(got.shape[0]) == ilift(n)))
        for k in range(3):
            S.prove_eq("coordinate %s is recovered" % "xyz"[k], got.at(i, k), C.at(i, k))
    V.forall("_vectorize_voxels meets its contract", "_vectorize_voxels", vec_body, lambda v: case(v))

    def cast3(row):
        return [ilift(v) if pyvc.is_inty(v) else lift(v) for v in row]

    class Grid:
        """a grid in any reachable state"""

        def __init__(self, S, empty):
            self.S = S
            self.size = S.real("size")
            S.assume(self.size > 0)
            self.mc = S.vec("mc")
            self.mc0 = snap(self.mc)
            self.g = g = VG(self.size, self.mc)
            if empty:
                self.n, self.cell = 0, None
            else:
                self.n = S.int("old", 0, sampler=lambda r: r.randint(0, 3))
                C = SArr.input(S, "cells", (self.n, 3), "int", 0)
                for a in ("_voxels_3d", "_size_x", "_size_y"):
                    if a not in vars(g):
                        raise pyvc.Unsupported("the grid's representation has changed")
                g._voxels_3d = C
                g._size_x, g._size_y = S.int("size_x", 0), S.int("size_y", 0)
                sx, sy = g._size_x.e, g._size_y.e

                def inside(ix):
                    i = SInt(ilift(ix[0]))
                    S.axiom(z3.Implies(in_range(i, self.n), z3.And(C.at(i, 0).e < sx, C.at(i, 1).e < sy)))

                def distinct(ix):
                    i, j = [SInt(ilift(x)) for x in ix]
                    S.axiom(z3.Implies(z3.And(in_range(i, self.n), in_range(j, self.n), i.e != j.e),
                                       z3.Or(*[C.at(i, k).e != C.at(j, k).e for k in range(3)])))
                S.universals += [(1, inside), (2, distinct)]
                self.cell = lambda i: [C.at(i, k).e for k in range(3)]

        def rows(self):
            v = self.g._voxels_3d
            return v, v.shape[0]

    def row(v, i):
        return cast3([v.at(i, k) if hasattr(v, "_is_sarr") else v[i, k] for k in range(3)])

    def case(v):
        n, o = int(v.get("n", 0)), int(v.get("old", 0))
        size = abs(float(v.get("size", 1))) or 1.0
        mc = [float(v.get("mc_%d" % k, 0)) for k in range(3)]
        C, P = v.get("cells", []), v.get("P", [])
        old = [[mc[k] + (float(c[k]) + 0.5) * size for k in range(3)] for c in C[:min(o, len(C))]]
        new = [[float(x) for x in p[:3]] for p in P[:min(n, len(P))]]
        return {"check": "history", "args": {"size": size, "mc": mc, "mctype": "f8", "init": [old, "float64"], "ops": [["add", new, "float64"], ["reload", None, None]]}}

    def floats(c):
        return z3.ToReal(c) if z3.is_int(c) else c

    def hit(G, P, c, i):
        """c is the cell of point i: c*size <= p - mc < (c+1)*size on every axis"""
        out = []
        for k in range(3):
            d = lift(P.at(i, k)) - lift(G.mc0[k])
            out += [floats(c[k]) * G.size.e <= d, d < floats(c[k]) * G.size.e + G.size.e]
        return z3.And(*out)

    def inside(g, r):
        return z3.And(*[x >= 0 for x in r], r[0] < ilift(g._size_x), r[1] < ilift(g._size_y))

    def add(S, empty, how, what):
        swap(True)
        G = Grid(S, empty)
        g = G.g
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 3))
        P = SArr.input(S, "P", (n, 3))
        before = dict(vars(g))
        d = SInt(S.fresh_int("any"))
        S.axiom(in_range(d, n))
        try:
            if how == "add":
                g.add_points(P)
            else:
                g = G.g = VG(G.size, G.mc, P)
            raised = None
        except ValueError as ex:
            raised = ex

        if raised is not None:
            if what:
                return
            cands = witnesses(S) or [d]
            for w in cands:
                S.instantiate(w)
            S.prove("refused only for a point below the minimum corner",
                    SBool(z3.Or(*[z3.And(in_range(w, n), z3.Or(*[lift(P.at(w, k)) < lift(G.mc0[k]) for k in range(3)])) for w in cands])))
            if how == "add":
                S.prove("a refused batch leaves the grid alone", set(vars(g)) == set(before) and all(vars(g)[k] is before[k] for k in before))
            return
        S.instantiate(d)
        if what == 0:
            S.prove("no point below the minimum corner is accepted", SBool(z3.Implies(in_range(d, n), z3.And(*[lift(P.at(d, k)) >= lift(G.mc0[k]) for k in range(3)]))))
        v, m = G.rows()
        if len(v.shape) != 2 or v.shape[1] != 3:
            return S.prove("three coordinates per voxel", False)
        if what == 0:
            S.prove_eq("minimum corner", g.min_corner, oarr(G.mc0))
            S.prove_eq("voxel size", g.voxel_size, G.size)
        if isinstance(m, int):
            if m:
                raise pyvc.Unsupported("a voxel array of known length")
            return S.prove("no voxels only without points", SBool(z3.And(ilift(n) == 0, ilift(G.n) == 0)))
        un = S.memo.get("unions", [])
        if not un:
            if v is not before.get("_voxels_3d"):
                raise pyvc.Unsupported("voxels neither merged nor kept")
            S.prove("only an empty batch leaves the voxels as they were", SBool(ilift(n) == 0))
            S.prove("and the sizes", SBool(z3.And(ilift(g._size_x) == ilift(before["_size_x"]), ilift(g._size_y) == ilift(before["_size_y"]))))
            return
        un = un[-1]
        oldn = ilift(G.n)
        if what in (0, 1):
            j = SInt(S.fresh_int("j"))
            S.axiom(in_range(j, m))
            S.instantiate(j)
            r = row(v, j)
            s = SInt(un["src"](j.e))
            p = SInt(s.e - oldn)
            S.instantiate(s)
            S.instantiate(p)
            if what == 0:
                old = G.cell(s) if G.cell else None
                isold = z3.And(s.e < oldn, *[a == b for a, b in zip(r, old)]) if old else z3.BoolVal(False)
                S.prove("every voxel is an old voxel or the cell of a point", SBool(z3.Or(isold, z3.And(s.e >= oldn, p.e < ilift(n), hit(G, P, r, p)))))
                S.prove("invariant: integers", all(z3.is_int(x) for x in r))
                S.prove("invariant: inside the sizes", SBool(inside(g, r)))
            else:
                q = SInt(S.fresh_int("q"))
                S.axiom(z3.And(in_range(q, m), q.e != j.e))
                S.instantiate(q)
                S.instantiate(j, q)
                t = SInt(un["src"](q.e))
                S.instantiate(t)
                S.instantiate(SInt(t.e - oldn))
                S.prove("invariant: different voxels", SBool(z3.Or(*[a != b for a, b in zip(r, row(v, q))])))
        elif what == 2:
            if G.cell is None:
                return
            i = SInt(S.fresh_int("i"))
            S.axiom(in_range(i, oldn))
            S.instantiate(i)
            j = SInt(un["pa"](i.e))
            S.axiom(z3.Implies(oldn == 1, i.e == 0))
            S.instantiate(j)
            r = row(v, j)
            S.prove("an old voxel stays", SBool(z3.And(in_range(j, m), *[a == b for a, b in zip(r, G.cell(i))])))
        else:
            S.instantiate(d)
            S.axiom(z3.Implies(ilift(n) == 1, d.e == 0))
            j = SInt(un["pb"](d.e))
            S.instantiate(j)
            r = row(v, j)
            S.prove("the cell of every point is occupied", SBool(z3.And(in_range(j, m), hit(G, P, r, d))))

    fns = ["VoxelGrid.add_points", "VoxelGrid.__init__"]
    for name, empty, how in (("a grid made with points", True, "make"), ("adding points to a new grid", True, "add"), ("adding points to any grid", False, "add")):
        for what, part in enumerate(("refusals, sources and invariant", "distinct voxels", "old voxels stay", "every point is covered")):
            if what != 2 or not empty:
                V.forall("%s: %s" % (name, part), fns, lambda S, empty=empty, how=how, what=what: add(S, empty, how, what), case)

    def read(S):
        G = Grid(S, False)
        g = G.g
        S.assume(SBool(ilift(G.n) >= 1))
        j = SInt(S.fresh_int("j"))
        S.axiom(in_range(j, G.n))
        S.instantiate(j)
        before = dict(vars(g))
        centre = lambda i, k: SReal(lift(G.mc0[k]) + z3.ToReal(G.cell(i)[k]) * G.size.e + G.size.e / 2)
        c = g.voxel_centers()
        S.prove("one centre per voxel", len(c.shape) == 2 and c.shape[1] == 3 and SBool(ilift(c.shape[0]) == ilift(G.n)))
        for k in range(3):
            S.prove_eq("centre of a voxel, coordinate %d" % k, c.at(j, k), centre(j, k))
        B = g.bounds()
        for k in range(3):
            bound_and_attained(S, "lower bound %d" % k, "min", B.min_corner[k], G.n, lambda i, k=k: SReal(lift(G.mc0[k]) + z3.ToReal(G.cell(i)[k]) * G.size.e))
            bound_and_attained(S, "upper bound %d" % k, "max", B.max_corner[k], G.n, lambda i, k=k: SReal(lift(G.mc0[k]) + z3.ToReal(G.cell(i)[k]) * G.size.e + G.size.e))
        S.prove("reading changes nothing", set(vars(g)) == set(before) and all(vars(g)[k] is before[k] for k in before))
    V.forall("centres and bounds of any grid", ["VoxelGrid.voxel_centers", "VoxelGrid.bounds"], read, case)

    def saved(S):
        h5.files, h5.fail = {}, False
        empty = S.choose(2)
        G = Grid(S, bool(empty))
        g = G.g
        other = VG(S.real("size2", lo=1), S.vec("mc2"))
        mode = S.choose(4)
        before = dict(vars(other))
        if mode == 1:
            h5.fail = True
        if mode in (0, 2):
            g.save("a.h5")
        if mode == 2:
            other.save("b.h5")
            h5.fail = True
        try:
            if mode == 1:
                g.save("a.h5")
            elif mode == 2 or mode == 3:
                other.load("a.h5")
            else:
                other = VG.from_file("a.h5") if S.choose(2) else (other.load("a.h5"), other)[1]
            err = None
        except IOError as ex:
            err = ex
        if mode:
            S.prove("a file that cannot be opened raises IOError", err is not None)
            S.prove("and leaves the grid alone", all(vars(other).get(k) is before[k] for k in before))
            return
        S.prove("no error", err is None)
        S.prove_eq("voxel size", other.voxel_size, G.size)
        S.prove_eq("minimum corner", other.min_corner, oarr(G.mc0))
        a, b = other._voxels_3d, g._voxels_3d
        if empty:
            S.prove("no voxels", a.shape[0] == 0 and a.shape[1] == 3)
        else:
            prove_arr(S, "the same voxels", a, b)
        S.prove_eq("x size", other._size_x, g._size_x)
        S.prove_eq("y size", other._size_y, g._size_y)
    V.forall("save and load", ["VoxelGrid.save", "VoxelGrid.load", "VoxelGrid.from_file"], saved, case)

    def refused(S):
        s = S.real("size")
        S.assume(s <= 0)
        try:
            VG(s)
            ok = False
        except ValueError:
            ok = True
        S.prove("a size that is not positive is refused", ok)
    V.forall("voxel size", "VoxelGrid.__init__", refused, lambda v: {"check": "sizes", "args": {"size": min(0.0, float(v.get("size", 0)))}})
