"""C07 object symmetry.  The domain of per-axis types is finite (five types), so case analysis over it is complete;
texts outside the five names are one opaque value that only compares equal to itself."""
import itertools
import xml.etree.ElementTree as ET

from load import World
from pyvc import Unsupported

NAMES = ["none", "twoFold", "fourFold", "cylindrical", "spherical"]
FAMILIES = {tuple(sorted(f)) for f in (("none",) * 3, ("twoFold", "none", "none"), ("fourFold", "none", "none"), ("twoFold", "twoFold", "fourFold"),
                                       ("fourFold",) * 3, ("twoFold",) * 3, ("cylindrical", "none", "none"), ("cylindrical", "twoFold", "twoFold"),
                                       ("spherical",) * 3)}


class Other:
    """Any text that is none of the five names (or any object that is no SymmetryType)."""
    _opaque_text = True

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return self.what

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation .%s on an unknown text" % n)


class Elem:
    """XML element (tag, text, children): the part of the ElementTree contract the code uses."""

    def __init__(self, tag, text=None, kids=()):
        self.tag, self.text, self.kids = tag, text, list(kids)

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def find(self, t):
        for k in self.kids:
            if k.tag == t:
                return k
        return None

    def findall(self, t):
        return [k for k in self.kids if k.tag == t]

    def findtext(self, t, default=None):
        k = self.find(t)
        return default if k is None else (k.text or "")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("operation .%s on an element" % n)


def prove(V):
    W = World(V)
    m = W.load("sumo.semantic.object_symmetry")
    O, ST = m.ObjectSymmetry, m.SymmetryType
    V.trust("xml.etree.ElementTree (executed as is, or by its tag/text/children contract), enum")
    V.assume("a text is observed only through equality (any other use leaves the verified subset and is reported undecided)")

    def pick(S):
        return tuple(NAMES[S.choose(5)] for _ in range(3))

    def axes(o):
        return (o.x_symmetry, o.y_symmetry, o.z_symmetry)

    def refused(S, name, f):
        try:
            f()
        except Unsupported:
            raise
        except Exception:
            S.prove(name, True)
            return
        S.prove(name, False)

    cc = lambda c: {"check": "combo", "args": {"c": list(c)}}

    for form in ("types", "strings", "XML"):
        def body(S, form=form):
            c = pick(S)
            S.case = lambda v: cc(c)
            t = tuple(ST[n] for n in c)
            f = {"types": lambda: O(*t), "strings": lambda: O.from_strings(list(c)),
                 "XML": lambda: O.from_xml(Elem("symmetry", None, [Elem(a, n) for a, n in zip("xyz", c)]))}[form]
            if tuple(sorted(c)) in FAMILIES:
                o = f()
                S.prove("valid combination gives exactly its types", axes(o) == t)
                x = ET.fromstring(ET.tostring(o.to_xml()))
                S.prove("XML form", x.tag == "symmetry" and [(k.tag, k.text) for k in x] == list(zip("xyz", c)))
                S.prove("XML round trip", axes(O.from_xml(x)) == t)
                S.prove("string form", str(o) == "x_symmetry: %s, y_symmetry: %s, z_symmetry: %s" % c)
            else:
                refused(S, "any other combination is refused", f)
        V.forall("construction from " + form, ["ObjectSymmetry.__init__", "ObjectSymmetry.is_valid", "ObjectSymmetry.from_strings", "ObjectSymmetry.from_xml",
                                               "ObjectSymmetry.to_xml", "ObjectSymmetry.__str__"], body)

    def equality(S):
        # per-axis comparison for any two symmetry objects: each axis value is one of the five types
        a, b = pick(S), None
        k = S.choose(4)
        # b differs from a in the axes of a chosen subset, or is an independent valid choice
        if tuple(sorted(a)) not in FAMILIES:
            return
        valid = [c for c in itertools.product(NAMES, repeat=3) if tuple(sorted(c)) in FAMILIES]
        for b in valid:
            S.case = lambda v: {"check": "pair", "args": {"a": list(a), "b": list(b)}}
            p, q = O(*[ST[n] for n in a]), O(*[ST[n] for n in b])
            S.prove("== is per-axis equality", (p == q) is (a == b))
            S.prove("!= is its complement", (p != q) is (a != b))
    V.forall("equality", ["ObjectSymmetry.__eq__", "ObjectSymmetry.__ne__"], equality)

    def unknown_text(S):
        k = S.choose(3)
        bad = Other("<unknown text>")
        c = [NAMES[S.choose(5)] for _ in range(3)]
        c[k] = bad
        S.case = lambda v: {"check": "badxml", "args": {"root": "symmetry", "kids": [[a, n if isinstance(n, str) else "twofold"] for a, n in zip("xyz", c)]}}
        refused(S, "unknown value is refused (XML)", lambda: O.from_xml(Elem("symmetry", None, [Elem(a, n) for a, n in zip("xyz", c)])))
        S.case = lambda v: {"check": "badstrings", "args": {"s": [n if isinstance(n, str) else "twofold" for n in c]}}
        refused(S, "unknown value is refused (strings)", lambda: O.from_strings(c))
        S.case = lambda v: {"check": "badtypes", "args": {"t": [None, None, None]}}
        refused(S, "a value that is no symmetry type is refused", lambda: O(*[ST[n] if isinstance(n, str) else n for n in c]))
    V.forall("unknown values", ["ObjectSymmetry.from_xml", "ObjectSymmetry.from_strings", "ObjectSymmetry.__init__"], unknown_text)

    def unknown_tag(S):
        k = S.choose(4)
        c = [NAMES[S.choose(5)] for _ in range(3)]
        drop = S.choose(2)
        kids = [("xyz"[i] if i != k else Other("<unknown tag>"), c[i]) for i in range(3) if not (drop and i == k)]
        root = "symmetry" if k < 3 else Other("<unknown tag>")
        S.case = lambda v: {"check": "badxml", "args": {"root": root if isinstance(root, str) else "Symmetry", "kids": [[a if isinstance(a, str) else "q", n] for a, n in kids]}}
        refused(S, "missing or misspelt tag is refused", lambda: O.from_xml(Elem(root, None, [Elem(a, n) for a, n in kids])))
    V.forall("missing or misspelt tags", "ObjectSymmetry.from_xml", unknown_tag)

    def counts(S):
        n = S.choose(6)
        if n == 3:
            return
        s = [NAMES[S.choose(5)] for _ in range(n)]
        S.case = lambda v: {"check": "badstrings", "args": {"s": s}}
        if n > 3:
            # any longer list: unknown length
            pass
        refused(S, "a list of %d strings is refused" % n, lambda: O.from_strings(s))
    V.forall("number of strings (0..5)", "ObjectSymmetry.from_strings", counts, max_paths=20000)
