"""C27 category colours."""
import types

import pyvc
from load import World
from opaque import Tok
from pyvc import SBool, SInt, z3, ilift, lift, blift
from seq import SArr, SSeq, in_range
from meshlib import zand

Z, B = z3.IntSort(), z3.BoolSort()
COLUMNS = {"category": 0, "is_evaluated": 1, "color": 2, "id": 3}


class File:
    """a category file: any number of rows; whether it has each column, whether a row has a value there, the text of the category, and what
    splitting the text of the colour at semicolons gives"""

    def __init__(self, S, good, three=False):
        self.S, self.good, self.three = S, good, three
        self.n = S.int("rows", 0, sampler=lambda r: r.randint(0, 3))
        self.has = z3.Function("column", Z, B)
        self.value = z3.Function("value", Z, Z, B)
        self.name, self.pieces = z3.Function("name", Z, Z), z3.Function("pieces", Z, Z)
        self.isint, self.part = z3.Function("integer", Z, Z, B), z3.Function("part", Z, Z, Z)
        self.colfn = {}
        if good:
            for c in COLUMNS.values():
                S.axiom(self.has(c))

        def distinct(ix):
            i, j = ilift(ix[0]), ilift(ix[1])
            S.axiom(z3.Implies(z3.And(in_range(SInt(i), self.n), in_range(SInt(j), self.n), self.name(i) == self.name(j)), i == j))
        S.universals.append((2, distinct))

    def row(self, k):
        F, S, k = self, self.S, SInt(ilift(k))

        class Row:
            def __getitem__(self, col):
                if isinstance(col, str) and col not in COLUMNS:
                    raise KeyError(col)
                if not isinstance(col, str):
                    raise pyvc.Unsupported("a column is chosen by a computed name")
                c = COLUMNS[col]
                if not F.good and not S.fork(F.has(c)):
                    raise KeyError(col)
                if not F.good and c and not S.fork(F.value(k.e, c)):
                    return None
                if col == "category":
                    return Tok(SInt(F.name(k.e)))
                if col == "color":
                    return Color(F, k)
                return Tok(SInt(z3.Function("text of " + col, Z, Z)(k.e)))

            def get(self, col, default=None):
                if isinstance(col, str) and (col not in COLUMNS or not F.good and not S.fork(F.has(COLUMNS[col]))):
                    return default
                return self[col]

            def __contains__(self, col):
                return col in COLUMNS and (F.good or S.fork(F.has(COLUMNS[col])))
        return Row()

    def component(self, k, j):
        if self.three:
            self.S.axiom(z3.Implies(in_range(k, self.n), z3.And(self.part(ilift(k), ilift(j)) >= 0, self.part(ilift(k), ilift(j)) <= 255)))
        return SInt(self.part(ilift(k), ilift(j)))

    def count(self, k):
        m = self.pieces(ilift(k))
        self.S.axiom(m >= 1)
        return SInt(m)


class Color:
    """the text of a colour"""
    _opaque_text = True

    def __init__(self, F, k):
        self.F, self.k = F, k

    def split(self, sep=None, maxsplit=-1):
        if sep != ";" or maxsplit != -1:
            raise pyvc.Unsupported("a colour is split otherwise")
        if self.F.three:
            return [Piece(self.F, self.k, j) for j in range(3)]
        return SSeq(self.F.count(self.k), lambda j: Piece(self.F, self.k, j))

    def __getattr__(self, n):
        if hasattr(str, n) and not n.startswith("__"):
            raise pyvc.Unsupported("str.%s of a colour" % n)
        raise AttributeError(n)


class Piece:
    """a part of a colour: the text of an integer or not"""
    _opaque_text = True

    def __init__(self, F, k, j):
        self.F, self.k, self.j = F, k, j

    def _sint(self):
        F = self.F
        if not F.good and not F.S.fork(F.isint(ilift(self.k), ilift(self.j))):
            raise ValueError("invalid literal for int()")
        return F.component(self.k, self.j)

    def strip(self, *a):
        if a:
            raise pyvc.Unsupported("strip")
        return self

    def __getattr__(self, n):
        if hasattr(str, n) and not n.startswith("__"):
            raise pyvc.Unsupported("str.%s of a part of a colour" % n)
        raise AttributeError(n)


def prove(V):
    W = World(V)
    M = W.load("sumo.base.colored_category")
    V.trust("csv.DictReader (the rows of the file in order, each a mapping from the file's columns to texts, None where a row is short)",
            "str.split, int() of a text (an error unless it is the text of an integer), os.path.exists, open")
    V.assume("every row of a file names its category, differently from the others", "for images: every category has three components from 0 to 255 and every index is the id of a category")

    def case(v):
        return {"check": "lookup", "args": {"names": ["a", "b", "chair"], "colors": [[1, 2, 3], [255, 0, 7], [9, 9, 9]], "header": ["id", "category", "is_evaluated", "color"],
                                            "id0": 0, "images": [[[2, 3], [0, 1, 2, 2, 1, 0], "int64"]], "probe": ["c", "A", ""], "first": "ids", "eol": "\n"}}

    def bad(v):
        return {"check": "malformed", "args": {"what": "word", "names": ["a", "b", "chair"], "colors": [[1, 2, 3], [255, 0, 7], [9, 9, 9]]}}

    def build(S, good=True, three=False, exists=True):
        F = File(S, good, three)
        handle = types.SimpleNamespace()

        class Handle:
            def __enter__(self): return handle
            def __exit__(self, *a): return False
        there = SBool(z3.BoolVal(True)) if exists else SBool(z3.Bool("exists"))

        def open_(p, mode="r", **k):
            if p != "file.csv" or mode not in ("r", "rt") or set(k) - {"newline", "encoding"}:
                raise pyvc.Unsupported("open")
            if not S.fork(there.e):
                raise FileNotFoundError(p)
            return Handle()

        def reader(f, *a, **k):
            if f is not handle or a or k:
                raise pyvc.Unsupported("csv.DictReader with options")
            return SSeq(F.n, F.row)
        M.os = types.SimpleNamespace(path=types.SimpleNamespace(exists=lambda p: S.fork(there.e), isfile=lambda p: S.fork(there.e)))
        M.csv = types.SimpleNamespace(DictReader=reader)
        M.open = open_
        F.there = there
        return F

    def same_color(S, F, what, got, k):
        if F.three:
            S.prove("colour of a category (%s)" % what, zand(len(got) == 3, *[pyvc.eq(got[j], F.component(k, j)) for j in range(3)]))
            return
        S.prove("number of components (%s)" % what, pyvc.eq(got._slen(), F.count(k)))
        j = SInt(S.fresh_int("j"))
        S.axiom(in_range(j, F.count(k)))
        S.prove("colour of a category (%s)" % what, pyvc.eq(got.at(j), F.component(k, j)))

    def lookups(three):
        def go(S):
            F = build(S, three=three)
            C = M.ColoredCategory("file.csv")
            if three and S.fork(z3.Bool("table first")):
                C.LUT
            k = S.int("id", -3, sampler=lambda r: r.randint(-2, 4))
            try:
                got = C.category_id_to_rgb(k)
            except KeyError:
                S.prove("only unknown ids are refused", SBool(z3.Not(in_range(k, F.n))))
            else:
                S.prove("unknown ids are refused", SBool(in_range(k, F.n)))
                same_color(S, F, "by id", got, k)
            w = SInt(z3.Int("wanted"))
            q = SInt(z3.Int("place"))
            try:
                got = C.category_name_to_rgb(Tok(w))
            except KeyError:
                S.instantiate(q)
                S.prove("only unknown names are refused", SBool(z3.Not(z3.And(in_range(q, F.n), F.name(q.e) == w.e))))
            else:
                f = S.memo["wits"][-1]
                S.prove("unknown names are refused", SBool(z3.And(in_range(f, F.n), F.name(ilift(f)) == w.e)))
                same_color(S, F, "by name", got, f)
        return go
    V.forall("look-ups", ["ColoredCategory.__init__", "category_id_to_rgb", "category_name_to_rgb"], lookups(False), case)
    V.forall("look-ups (colours of three components)", ["ColoredCategory.__init__", "category_id_to_rgb", "category_name_to_rgb"], lookups(True), case)

    def images(S):
        F = build(S, three=True)
        C = M.ColoredCategory("file.csv")
        h, w = S.int("height", 1, sampler=lambda r: 2), S.int("width", 1, sampler=lambda r: 3)
        im = SArr.input(S, "image", (h, w), "int", 0, 5)
        keep = im.f
        y, x, c = [SInt(S.fresh_int(a)) for a in "yxc"]
        S.axiom(z3.And(in_range(y, h), in_range(x, w), in_range(c, 3)))
        v = im.f(y, x)
        S.axiom(in_range(v, F.n))
        for _ in range(2):
            out = C.convert_to_rgb_im(im)
            S.prove("the image keeps its height and width", zand(out.ndim == 3, pyvc.eq(out.shape[0], h), pyvc.eq(out.shape[1], w), pyvc.eq(out.shape[2], 3)))
            S.prove("every pixel has its category's colour", pyvc.eq(out.f(y, x, c), F.component(v, c)))
        S.prove("the index image is unchanged", im.f is keep)
        L = C.LUT
        k = SInt(S.fresh_int("k"))
        S.axiom(in_range(k, F.n))
        S.prove("one row of the table per category", zand(pyvc.eq(L.shape[0], F.n), pyvc.eq(L.shape[1], 3)))
        S.prove("row of the table", pyvc.eq(L.f(k, c), F.component(k, c)))
        same_color(S, F, "by id, as in the image", C.category_id_to_rgb(k), k)
    V.forall("images", ["ColoredCategory.LUT", "convert_to_rgb_im"], images, case)

    def malformed(defect):
        def go(S):
            F = build(S, good=False)
            k, j = SInt(z3.Int("row")), SInt(z3.Int("part"))
            S.axiom(in_range(k, F.n))
            S.axiom(defect(F, k, j))
            S.instantiate(k)
            S.instantiate(j)
            try:
                M.ColoredCategory("file.csv")
            except pyvc.Unsupported:
                raise
            except (KeyError, ValueError, AttributeError, TypeError, IndexError, OSError):
                S.prove("a malformed file is refused", True)
                return
            S.instantiate(k)
            S.instantiate(j)
            S.prove("a malformed file is refused", False)
        return go
    for c in ("category", "is_evaluated", "color"):
        V.forall("malformed files: no column %s" % c, "ColoredCategory.__init__", malformed(lambda F, k, j, c=c: z3.Not(F.has(COLUMNS[c]))), bad)
    V.forall("malformed files: a row without a colour", "ColoredCategory.__init__", malformed(lambda F, k, j: z3.Not(F.value(k.e, 2))), bad)
    V.forall("malformed files: a component that is not an integer", "ColoredCategory.__init__",
             malformed(lambda F, k, j: z3.And(in_range(j, F.count(k)), z3.Not(F.isint(k.e, j.e)))), bad)

    def missing(S):
        F = build(S, exists=False)
        try:
            M.ColoredCategory("file.csv")
        except IOError:
            S.prove("only a missing file is reported missing", SBool(z3.Not(F.there.e)))
            return
        S.prove("a missing file is refused", F.there)
    V.forall("missing file", "ColoredCategory.__init__", missing, lambda v: {"check": "malformed", "args": {"what": "absent", "names": ["a"], "colors": [[1, 2, 3]]}})
