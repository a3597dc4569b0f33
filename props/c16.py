"""C16 persistence of scenes, dictionaries and objects."""
import types

import pyvc
import xmlfs
from load import World
from opaque import Tok, Opaque
from pyvc import SBool, SInt, ilift, blift
from seq import SArr, in_range
from xmlfs import SElement, FS, ET

KINDS = ["bounding_box", "voxels", "meshes"]
REFUSAL = (AssertionError, ValueError, TypeError, KeyError, OSError, SyntaxError, AttributeError, RuntimeError, NotImplementedError, IndexError)


class XVal(Opaque):
    """A value with the contract of to_xml/from_xml (Pose3, Box3d: C06; ObjectSymmetry: C07)."""
    TAG = None

    def to_xml(self):
        return SElement(self.TAG, payload=self)

    @classmethod
    def from_xml(cls, e):
        if e.tag != cls.TAG or not isinstance(e.payload, cls):
            raise ValueError("not a " + cls.TAG)
        return e.payload

    def __copy__(self): return type(self)(self._name, *self._args)
    def __deepcopy__(self, memo): return type(self)(self._name, *self._args)

    def __eq__(self, o):
        return False if type(o) is not type(self) else Opaque.__eq__(self, o)
    __hash__ = None


class Pose(XVal):
    TAG = "pose"

    def __init__(self, *a, **k):
        if k or a and not isinstance(a[0], str):
            raise pyvc.Unsupported("a pose is computed")
        XVal.__init__(self, *(a or ("identity",)))


class Symmetry(XVal):
    TAG = "symmetry"

    def __init__(self, *a, **k):
        if k or a and not isinstance(a[0], str):
            raise pyvc.Unsupported("a symmetry is computed")
        XVal.__init__(self, *(a or ("no symmetry",)))


class Box(XVal):
    TAG = "box3d"

    def __init__(self, *a, **k):
        if not a or not isinstance(a[0], str):
            raise pyvc.Unsupported("a box is computed")
        XVal.__init__(self, *a)


class Meshes(Opaque):
    def primitive_meshes(self): return Opaque("primitive meshes", *self._args)
    def save_as_glb(self, f): xmlfs.CTX.fs.write(f, ("glb", self))

    @staticmethod
    def load_from_glb(f):
        w = xmlfs.CTX.fs.read(f)
        if not isinstance(w, tuple) or w[0] != "glb":
            raise IOError("not a glb file")
        return Meshes(w[1]._name, *w[1]._args)


class Grid(Opaque):
    def bounds(self): return Box("bounds of voxels", *self._args)
    def save(self, f): xmlfs.CTX.fs.write(f, ("h5", self))

    @staticmethod
    def from_file(f):
        w = xmlfs.CTX.fs.read(f)
        if not isinstance(w, tuple) or w[0] != "h5":
            raise IOError("not an h5 file")
        return Grid(w[1]._name, *w[1]._args)


class ComputeBbox:
    def from_meshes(self, m):
        if not isinstance(m, Opaque) or m._name != "primitive meshes":
            raise pyvc.Unsupported("bounds of something else")
        return Box("bounds of meshes", *m._args)

    def from_gltf_object(self, m):
        return self.from_meshes(m.primitive_meshes())


def world(V):
    W = World(V)
    ns = lambda **k: types.SimpleNamespace(**k)
    W.contracts.update({
        "os": xmlfs.OS, "xml.etree.ElementTree": ET, "xml.etree.cElementTree": ET, "xml": ns(etree=ns(ElementTree=ET, cElementTree=ET)),
        "sumo.threedee.gltf_model": ns(GltfModel=Meshes), "sumo.threedee.voxel_grid": ns(VoxelGrid=Grid), "sumo.threedee.box_3d": ns(Box3d=Box),
        "sumo.threedee.compute_bbox": ns(ComputeBbox=ComputeBbox), "sumo.geometry.pose3": ns(Pose3=Pose),
        "sumo.semantic.object_symmetry": ns(ObjectSymmetry=Symmetry), "libfb.py": ns(parutil=None)})
    for m in ("project_object", "project_object_dict", "project_scene"):
        W.inject["sumo.semantic." + m] = {"open": xmlfs.fopen}
    return W


class Scene:
    """n objects of a kind with arbitrary attributes, ids all different"""

    def __init__(self, S, W, kind, n=None):
        self.S, self.kind = S, kind
        self.PO = W.load("sumo.semantic.project_object").ProjectObject
        m = n if n is not None else 1
        self.score, self.ev = SArr.input(S, "score", (m,)), SArr.input(S, "evaluated", (m,), "int", 0, 1)
        self.f = {a: pyvc.z3.Function(a, pyvc.z3.IntSort(), pyvc.z3.IntSort()) for a in ("id", "category")}
        self.made = {}

    def text(self, a, i):
        t = Tok(self.f[a](ilift(i)), origin=i)
        return t

    def key(self, i):
        return self.text("id", i)

    def val(self, i):
        S = self.S
        k = pyvc.z3.simplify(ilift(i)).get_id()
        if k not in self.made:
            S.keep.append(pyvc.z3.simplify(ilift(i)))
            S.axiom(pyvc.z3.Not(blift(self.text("category", i) == "")))
            o = self.PO(id=self.text("id", i), project_type=self.kind, bounds=Box("box", i), voxels=Grid("voxels", i), meshes=Meshes("meshes", i),
                        pose=Pose("pose", i), category=self.text("category", i), symmetry=Symmetry("symmetry", i), score=self.score.at(i),
                        evaluated=SBool(ilift(self.ev.at(i)) == 1))
            self.made[k] = (o, dict(vars(o)))
        return self.made[k][0]

    def unchanged(self, what):
        for o, v in list(self.made.values()):
            self.S.prove(what + ": the saved object", set(v) == set(vars(o)) and all(vars(o)[x] is v[x] for x in v))

    def same(self, what, q, i, drop=()):
        S = self.S
        S.prove(what + ": class", type(q) is self.PO)
        S.prove(what + ": type", q.project_type == self.kind)
        S.prove(what + ": id", q.id == self.text("id", i))
        S.prove(what + ": category", q.category == ("unknown" if "category" in drop else self.text("category", i)))
        S.prove(what + ": pose", q.pose == (Pose() if "pose" in drop else Pose("pose", i)))
        S.prove(what + ": symmetry", q.symmetry == (Symmetry() if "symmetry" in drop else Symmetry("symmetry", i)))
        S.prove(what + ": score", SBool(pyvc.lift(q.score) == (pyvc.rv(-1) if "detectionScore" in drop else pyvc.lift(self.score.at(i)))))
        S.prove(what + ": evaluated", SBool(blift(q.evaluated) == (pyvc.z3.BoolVal(True) if "evaluated" in drop else ilift(self.ev.at(i)) == 1)))
        b = {"bounding_box": "box", "voxels": "bounds of voxels", "meshes": "bounds of meshes"}[self.kind]
        S.prove(what + ": bounds", q.bounds is None if "bounds" in drop else q.bounds == Box(b, i))
        S.prove(what + ": voxels", q.voxels == Grid("voxels", i) if self.kind == "voxels" else q.voxels is None)
        S.prove(what + ": meshes", q.meshes == Meshes("meshes", i) if self.kind == "meshes" else q.meshes is None)


TAGS = ["id", "category", "bounds", "pose", "symmetry", "detectionScore", "evaluated"]


def prove(V):
    W = world(V)
    PO = W.load("sumo.semantic.project_object").ProjectObject
    PS = W.load("sumo.semantic.project_scene").ProjectScene
    POD = W.load("sumo.semantic.project_object_dict").ProjectObjectDict
    V.trust("symbolic loop summary: one generic iteration stands for all (loops.py)")
    V.trust("ElementTree: a written document reads back with the same tags, texts, attributes and order of children; the file system returns what was last written (xmlfs.py)")
    V.trust("to_xml/from_xml of Pose3, Box3d, ObjectSymmetry (contracts proved under C06, C07), GltfModel.save_as_glb/load_from_glb (C14, C15), VoxelGrid.save/from_file (C10)")
    V.assume("ids are valid file names, texts are non-empty and representable in XML, float(str(x)) == x")
    V.assume("bounding-box objects that are saved have bounds; the ids of a dictionary are its keys")

    def fresh_fs():
        xmlfs.CTX.fs = FS()
        return xmlfs.CTX.fs

    def refused(S, what, act):
        try:
            act()
            ok = False
        except REFUSAL:
            ok = True
        S.prove(what, ok)

    def orders(k):
        """positions in original order, reversed, and rotated"""
        n = len(k)
        return [list(k), list(reversed(k))] + [k[i:] + k[:i] for i in range(1, n)]

    def dcase(n):
        return lambda v: {"check": "dictionary", "args": {"seed": 1, "kind": "meshes", "n": max(1, min(5, int(v.get("n", n))))}}

    def one(S, kind):
        fresh_fs()
        X = Scene(S, W, kind)
        o = X.val(0)
        e = o.save("/dir") if kind != "bounding_box" or S.choose(2) else o.save()
        S.prove("tag of the element", e.tag == "element")
        X.unchanged("save")
        st = xmlfs.CTX.fs.state()
        X.same("loaded", PO.load(kind, ET.fromstring(ET.tostring(e)), "/dir"), 0)
        kids = list(e)
        for j, ks in enumerate(orders(kids)):
            f = SElement("element")
            for k in ks:
                f.append(k.clone())
                ET.SubElement(f, "comment").text = "x"
            before = [k.tag for k in f]
            X.same("loaded in another order", PO.load(kind, f, "/dir"), 0)
            S.prove("loading leaves the document alone", [k.tag for k in f] == before)
        S.prove("loading leaves the files alone", xmlfs.CTX.fs.unchanged(st))
    for kind in KINDS:
        V.forall("one %s object" % kind, ["ProjectObject.save", "ProjectObject.load", "ProjectObject._to_xml", "ProjectObject._parse_xml"],
                 lambda S, kind=kind: one(S, kind), dcase(1))

    def partial(S):
        fresh_fs()
        X = Scene(S, W, "bounding_box")
        e = X.val(0).save()
        drop = [t for t in TAGS[1:] if S.choose(2)]
        f = SElement("element")
        for k in e:
            if k.tag not in drop:
                f.append(k)
        X.same("object without " + ", ".join(drop), PO.load("bounding_box", f), 0, drop)
    V.forall("documents without optional elements", ["ProjectObject.load", "ProjectObject._parse_xml"], partial,
             lambda v: {"check": "partial", "args": {"seed": 1, "drop": TAGS[1:]}})

    def bad_object(S):
        fresh_fs()
        kind = KINDS[S.choose(3)]
        X = Scene(S, W, kind)
        e = X.val(0).save("/dir")
        k = S.choose(7)
        rest = [t for t in TAGS if S.choose(2)] if k == 0 else []
        load = lambda: PO.load(kind, e, "/dir")
        if k == 0:
            for t in list(e):
                if t.tag == "id" or t.tag in rest:
                    e.remove(t)
        elif k == 1:
            e.find("id").text = None
        elif k == 2:
            t = Tok(S.fresh_int("tag"))
            S.assume(t != "element")
            e.tag = t
        elif k == 3:
            t = Tok(S.fresh_int("kind"))
            for w in KINDS:
                S.assume(t != w)
            load = lambda: PO.load(t, e, "/dir")
        elif k == 4:
            if kind == "bounding_box":
                return
            fresh_fs()
        elif k == 5:
            b = ["bounds", "pose", "symmetry"][S.choose(3)]
            e.find(b).payload = None
        else:
            e.find("detectionScore").text = "high"
        refused(S, "document fault %d is refused" % k, load)
    V.forall("malformed object documents", ["ProjectObject.load", "ProjectObject._parse_xml"], bad_object,
             lambda v: {"check": "bad_object", "args": {"seed": 1, "fault": "id"}})

    def constructors(S):
        t = Tok(S.fresh_int("kind"))
        for w in KINDS:
            S.assume(t != w)
        refused(S, "unknown scene type", lambda: PS(t))
        refused(S, "unknown object type", lambda: PO("1", t))
        d = POD()
        for what, v in (("None", None), ("number", 1), ("text", Tok(S.fresh_int("v"))), ("class", PO), ("other", Opaque("other")), ("scene", PS("meshes"))):
            def put(v=v):
                d["k"] = v
            refused(S, "a dictionary refuses a " + what, put)
            S.prove("the refused %s is not stored" % what, dict.__len__(d) == 0)
    V.forall("unknown types and foreign values", ["ProjectScene.__init__", "ProjectObject.__init__", "ProjectObjectDict.__setitem__"], constructors,
             lambda v: {"check": "constructor", "args": {"kind": "mesh"}})

    def entries(S, X, what, d, n):
        S.prove(what + ": container", type(d) is POD)
        if d.seg is None:
            S.prove(what + ": number of objects", SBool(ilift(n) == dict.__len__(d)))
            return
        m, key, val = d.seg
        S.prove(what + ": number of objects", SBool(ilift(m) == ilift(n)))
        i = SInt(S.fresh_int("i"))
        S.axiom(in_range(i, n))
        S.instantiate(i)
        S.prove(what + ": key", key(i) == X.key(i))
        X.same(what, val(i), i)

    def dictionary(S, kind):
        fresh_fs()
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        X = Scene(S, W, kind, n)
        d = POD.symbolic(n, X.key, X.val)
        seg = d.seg
        e = d.save("/dir")
        S.prove("tag", e.tag == "elements")
        entries(S, X, "loaded dictionary", POD.load(kind, ET.fromstring(ET.tostring(e)), "/dir"), n)
        X.unchanged("save")
        S.prove("the saved dictionary", d.seg is seg)
    for kind in KINDS:
        V.forall("dictionary of %s objects" % kind, ["ProjectObjectDict.save", "ProjectObjectDict.load", "ProjectObjectDict.__setitem__"],
                 lambda S, kind=kind: dictionary(S, kind), dcase(3))

    def scase(v):
        return {"check": "scene", "args": {"seed": 1, "kind": "meshes", "n": max(1, min(5, int(v.get("n", 2)))), "custom": True}}

    def texts(S, *names):
        out = []
        for nm in names:
            t = Tok(S.fresh_int(nm))
            S.assume(t != "")
            out.append(t)
        return out

    def scene(S, kind, custom):
        fs = fresh_fs()
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        X = Scene(S, W, kind, n)
        d = POD.symbolic(n, X.key, X.val)
        base, name, ver, cid, url = texts(S, "base", "name", "version", "cid", "url")
        settings = {"version": ver, "categories_id": cid, "categories_url": url}
        s = PS(kind, d, settings) if custom else PS(kind, d)
        had = dict(s.settings)
        seg = d.seg
        s.save(base, name)
        st = fs.state()
        g = PS.load(base, name)
        S.prove("class", type(g) is PS)
        S.prove("type", g.project_type == kind)
        S.prove("keys of the settings", sorted(g.settings) == sorted(had))
        for k in had:
            S.prove("setting " + k, g.settings[k] == had[k])
        entries(S, X, "loaded scene", g.elements, n)
        refused(S, "saving over an existing project is refused", lambda: PS(kind).save(base, name))
        S.prove("the refused save changes nothing", fs.unchanged(st))
        S.prove("the saved scene", s.elements is d and d.seg is seg and s.project_type == kind and dict(s.settings).keys() == had.keys()
                and all(s.settings[k] is had[k] for k in had))
        X.unchanged("save")
    for kind in KINDS:
        for custom in (True, False):
            V.forall("scene of %s objects, %s settings" % (kind, "own" if custom else "default"),
                     ["ProjectScene.save", "ProjectScene.load", "ProjectObjectDict.save", "ProjectObjectDict.load"],
                     lambda S, kind=kind, custom=custom: scene(S, kind, custom), scase)

    def documents(S):
        """a scene document with its sections in any rotation or reversed, with or without a fault"""
        fs = fresh_fs()
        kind = "bounding_box"
        n = S.int("n", 0, sampler=lambda r: r.randint(0, 4))
        X = Scene(S, W, kind, n)
        d = POD.symbolic(n, X.key, X.val)
        ver, cid, url = texts(S, "version", "cid", "url")
        s = PS(kind, d, {"version": ver, "categories_id": cid, "categories_url": url})
        s.save("/base", "p")
        path = "/base/p/p.xml"
        root = fs.read(path).root
        fault = ["none", "root", "no type", "no elements", "type", "empty type", "missing file", "broken"][S.choose(8)]
        kids = list(root)
        new = SElement(root.tag, root.attrib)
        order = orders(kids)
        order = order[S.choose(len(order))] if fault == "none" else kids
        for k in order:
            if fault == "no type" and k.tag == "project_type" or fault == "no elements" and k.tag == "elements":
                continue
            new.append(k)
            ET.SubElement(new, "comment").text = "x"
        if fault == "root":
            new.tag = Tok(S.fresh_int("root"))
            S.assume(new.tag != "scene")
        if fault == "type":
            t = Tok(S.fresh_int("kind"))
            for w in KINDS:
                S.assume(t != w)
            new.find("project_type").text = t
        if fault == "empty type":
            new.find("project_type").text = None
        fs.write(path, xmlfs.Doc(new) if fault != "broken" else Opaque("half a document"))
        if fault == "missing file":
            fs.entries.clear()
        if fault == "none":
            g = PS.load("/base", "p")
            S.prove("type", g.project_type == kind)
            S.prove("settings", sorted(g.settings) == ["categories_id", "categories_url", "version"])
            for k, v in (("version", ver), ("categories_id", cid), ("categories_url", url)):
                S.prove("setting " + k, g.settings[k] == v)
            return entries(S, X, "loaded scene", g.elements, n)
        refused(S, "fault %s is refused" % fault, lambda: PS.load("/base", "p"))
    V.forall("scene documents", ["ProjectScene.load", "ProjectObjectDict.load"], documents,
             lambda v: {"check": "bad_scene", "args": {"seed": 1, "n": 2, "fault": "no:elements"}})

    def bad_elements(S):
        """one object (at any place among any number) has no id"""
        fresh_fs()
        n = S.int("n", 1, sampler=lambda r: r.randint(1, 4))
        bad = S.int("bad", 0, sampler=lambda r: 0)
        S.assume(SBool(in_range(bad, n)))
        X = Scene(S, W, "bounding_box", n)
        e = POD.symbolic(n, X.key, X.val).save("/dir")
        kids = e.kids.sym
        old = kids.at
        from seq import SSeq

        def at(i):
            k = old(i).clone()
            if bool(SBool(ilift(i) == ilift(bad))):
                k.remove(k.find("id"))
            return k
        e.kids.sym = SSeq(n, at)
        try:
            POD.load("bounding_box", e, "/dir")
            ok = False
        except REFUSAL:
            ok = True
        S.instantiate(bad)
        S.prove("an object without id among others is refused", ok)
    V.forall("dictionary with a bad object", "ProjectObjectDict.load", bad_elements,
             lambda v: {"check": "bad_scene", "args": {"seed": 1, "n": 2, "fault": "id"}})
