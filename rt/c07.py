MODULES = []
import itertools
import xml.etree.ElementTree as ET

from common import *

RULE = ("all 125 combinations of per-axis types as objects, strings and XML (complete), all pairs of valid combinations (complete), "
        "documents with missing or misspelt tags and values; distinct by content")
NAMES = ["none", "twoFold", "fourFold", "cylindrical", "spherical"]
FAMILIES = {tuple(sorted(f)) for f in (("none",) * 3, ("twoFold", "none", "none"), ("fourFold", "none", "none"), ("twoFold", "twoFold", "fourFold"),
                                       ("fourFold",) * 3, ("twoFold",) * 3, ("cylindrical", "none", "none"), ("cylindrical", "twoFold", "twoFold"),
                                       ("spherical",) * 3)}


def setup():
    global O, ST
    from sumo.semantic.object_symmetry import ObjectSymmetry as O, SymmetryType as ST


def valid(c):
    return tuple(sorted(c)) in FAMILIES


def el(tag, kids):
    e = ET.Element(tag)
    for k, t in kids:
        ET.SubElement(e, k).text = t
    return ET.fromstring(ET.tostring(e))


def axes(o):
    return (o.x_symmetry, o.y_symmetry, o.z_symmetry)


def combo(c):
    c = tuple(c)
    t = tuple(ST[n] for n in c)
    forms = {"types": lambda: O(*t), "keywords": lambda: O(z_symmetry=t[2], x_symmetry=t[0], y_symmetry=t[1]),
             "strings": lambda: O.from_strings(list(c)),
             "XML": lambda: O.from_xml(el("symmetry", list(zip("xyz", c)))),
             "XML, other order": lambda: O.from_xml(el("symmetry", list(zip("xyz", c))[::-1]))}
    require(bool(O.is_valid(*t)) == valid(c), "is_valid%s is %s", c, O.is_valid(*t))
    for n, f in forms.items():
        if not valid(c):
            refuses(f, Exception, "%s of %s" % (n, c))
            continue
        o = f()
        require(axes(o) == t, "%s of %s: got %s", n, c, axes(o))
        x = ET.fromstring(ET.tostring(o.to_xml()))
        require(x.tag == "symmetry" and {k.tag: k.text for k in x} == dict(zip("xyz", c)) and len(x) == 3, "to_xml of %s: %s", c, ET.tostring(x))
        require(O.from_xml(x) == o and axes(O.from_xml(x)) == t, "XML round trip of %s", c)
        s = str(o)
        require(s == "x_symmetry: %s, y_symmetry: %s, z_symmetry: %s" % c, "string form of %s: %s", c, s)
        back = O.from_strings([p.split(":")[1].strip() for p in s.split(",")])
        require(axes(back) == t and back == o, "string round trip of %s", c)
        for a in ("x_symmetry", "y_symmetry", "z_symmetry"):
            refuses(lambda: setattr(o, a, ST.none), Exception, "assignment to read-only " + a)


def pair(a, b):
    p, q = O(*[ST[n] for n in a]), O(*[ST[n] for n in b])
    e, n = (p == q), (p != q)
    require(e is (list(a) == list(b)), "%s == %s is %s", a, b, e)
    require(n is (list(a) != list(b)), "%s != %s is %s", a, b, n)


def badxml(root, kids):
    refuses(lambda: O.from_xml(el(root, kids)), Exception, "XML %s %s" % (root, kids))


def badstrings(s):
    refuses(lambda: O.from_strings(s), Exception, "strings %s" % (s,))


def badtypes(t):
    refuses(lambda: O(*t), Exception, "types %s" % (t,))


def default():
    require(axes(O()) == (ST.none,) * 3, "default symmetry")
    require(valid([s.name for s in axes(O.example())]), "example symmetry")
    require(sorted(s.name for s in ST) == sorted(NAMES), "symmetry types")


CHECKS = {"combo": combo, "pair": pair, "badxml": badxml, "badstrings": badstrings, "badtypes": badtypes, "default": default}


def cases(rnd, tier):
    yield "default", {}
    allc = list(itertools.product(NAMES, repeat=3))
    for c in allc:
        yield "combo", {"c": list(c)}
    ok = [c for c in allc if valid(c)]
    for a in ok:
        for b in ok:
            yield "pair", {"a": list(a), "b": list(b)}
    misspelt = ["", None, "None", "TwoFold", "twofold", "two_fold", "cylinder", "sphere", "0", "1", "NONE", "fourFold2"]
    for c in ok:
        good = list(zip("xyz", c))
        for r in ("Symmetry", "symmetries", "x", "object"):
            yield "badxml", {"root": r, "kids": good}
        for k in range(3):
            yield "badxml", {"root": "symmetry", "kids": good[:k] + good[k + 1:]}
            yield "badxml", {"root": "symmetry", "kids": good[:k] + [["XYZ"[k], c[k]]] + good[k + 1:]}
            yield "badxml", {"root": "symmetry", "kids": good[:k] + [[good[(k + 1) % 3][0], c[k]]] + good[k + 1:]}
            for m in misspelt:
                yield "badxml", {"root": "symmetry", "kids": good[:k] + [["xyz"[k], m]] + good[k + 1:]}
                if m is not None:
                    yield "badstrings", {"s": list(c[:k]) + [m] + list(c[k + 1:])}
            yield "badstrings", {"s": list(c[:k]) + list(c[k + 1:])}
            for m in (None, 0, 1, "none", "twoFold"):
                yield "badtypes", {"t": [m] * 3}
        for extra in ("none", "twoFold", "bogus"):
            yield "badstrings", {"s": list(c) + [extra]}
        yield "badxml", {"root": "symmetry", "kids": []}
        yield "badstrings", {"s": []}
