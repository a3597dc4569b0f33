MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3"]
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np

import scenes
from scenes import FAMILIES, WORDS
from common import *

BUDGET = 14
RULE = ("objects, dictionaries and scenes of the three types with 0 to 9 objects, ids and texts with markup and non-ASCII characters, all symmetries, with and "
        "without stale bounds, and documents with every element missing, misplaced, repeated or unknown; distinct by content")
IDS = ["1", "obj 2", "\u00fc\u4e2d", "a.b", "A", "a", "007", "x&y", "<id>", "1.glb", "-"]


def setup():
    scenes.load()


def descriptions(seed, kind, n):
    r = np.random.RandomState(seed)
    ids = list(IDS)
    r.shuffle(ids)
    ds = [scenes.description(r, kind, ids[i]) for i in range(n)]
    for d in ds:
        d["with_bounds"] = bool(r.randint(2))
    return ds, r


def kind_dict(seed, kind, n):
    ds, r = descriptions(seed, kind, n)
    o = scenes.POD()
    for i, d in enumerate(ds):
        o[d["id"]] = scenes.make(d, "init" if i % 2 else "factory")
    return ds, o, r


def stale(o, kind, r):
    """Bounds stored in memory may be out of date: what is saved must be those of the geometry."""
    if kind != "bounding_box" and r.rand() < 0.5:
        for x in o.values():
            x.bounds = scenes.Box3d(np.array([-9.0, -9, -9]), np.array([9.0, 9, 9]))


def check_dict(got, ds, what):
    require(isinstance(got, scenes.POD), "%s: class %s", what, type(got))
    require(sorted(got.keys()) == sorted(d["id"] for d in ds), "%s: ids %s, expected %s", what, sorted(got.keys()), sorted(d["id"] for d in ds))
    for d in ds:
        w = "%s, object %r" % (what, d["id"])
        scenes.check(got[d["id"]], d, w)
        scenes.check_bounds(got[d["id"]].bounds, scenes.true_bounds(d), w)


def scene(seed, kind, n, custom):
    ds, o, r = kind_dict(seed, kind, n)
    stale(o, kind, r)
    settings = {"version": "9." + WORDS[r.randint(9)], "categories_id": WORDS[r.randint(9)], "categories_url": "http://x?a=1&b=" + WORDS[r.randint(9)]}
    default = {"version": "2.0", "categories_id": "fb_categories_v1_0", "categories_url": "https://sumochallenge.org/en/categories-1_0.json"}
    s = scenes.PS(kind, o, dict(settings)) if custom else scenes.PS(kind, o)
    want = settings if custom else default
    tmp = tempfile.mkdtemp()
    try:
        name = ["proj", "a b", "p.xml"][r.randint(3)]
        s.save(tmp, name)
        before = {f: open(os.path.join(tmp, name, f), "rb").read() for f in os.listdir(os.path.join(tmp, name))}
        require(len(before) == 1 + (0 if kind == "bounding_box" else n), "project has files %s", sorted(before))
        for _ in range(2):
            g = scenes.PS.load(tmp, name)
            require(isinstance(g, scenes.PS), "load gave %s", type(g))
            require(g.project_type == kind, "project type %r, expected %r", g.project_type, kind)
            require(g.settings == want, "settings %s, expected %s", g.settings, want)
            check_dict(g.elements, ds, "loaded scene")
            # saving over an existing project is refused and leaves it alone
            refuses(lambda: scenes.PS(kind).save(tmp, name), Exception, "saving over an existing project")
            after = {f: open(os.path.join(tmp, name, f), "rb").read() for f in os.listdir(os.path.join(tmp, name))}
            require(after == before, "the refused save changed the project")
            # what was loaded saves and loads again
            g.save(tmp, name + "_2")
            check_dict(scenes.PS.load(tmp, name + "_2").elements, ds, "scene loaded twice")
            shutil.rmtree(os.path.join(tmp, name + "_2"))
        # a moved project is still complete
        os.mkdir(os.path.join(tmp, "moved"))
        os.rename(os.path.join(tmp, name), os.path.join(tmp, "moved", name))
        check_dict(scenes.PS.load(os.path.join(tmp, "moved"), name).elements, ds, "moved scene")
    finally:
        shutil.rmtree(tmp)
    require(s.project_type == kind and s.settings == want, "saving changed the scene")
    require(sorted(s.elements) == sorted(d["id"] for d in ds), "saving changed the objects")
    for d in ds:
        scenes.check(s.elements[d["id"]], d, "saved scene", tol=1e-12)


def dictionary(seed, kind, n):
    ds, o, r = kind_dict(seed, kind, n)
    stale(o, kind, r)
    tmp = tempfile.mkdtemp()
    try:
        e = o.save() if kind == "bounding_box" and seed % 2 else o.save(tmp)
        require(e.tag == "elements", "tag %s", e.tag)
        e = ET.fromstring(ET.tostring(e))
        check_dict(scenes.POD.load(kind, e, tmp), ds, "loaded dictionary")
        # objects in the document in another order, among other elements
        kids = list(e)
        e2 = ET.Element("elements")
        ET.SubElement(e2, "comment").text = "x"
        for k in reversed(kids):
            e2.append(k)
            ET.SubElement(e2, "object")
        check_dict(scenes.POD.load(kind, e2, tmp), ds, "reordered dictionary")
        for d in ds:
            x = o[d["id"]].save(tmp)
            require(x.tag == "element", "tag %s", x.tag)
            x = ET.fromstring(ET.tostring(x))
            k = list(x)
            r.shuffle(k)
            y = ET.Element("element")
            y.extend(k)
            for z in (x, y):
                g = scenes.PO.load(kind, z, tmp)
                scenes.check(g, d, "loaded object")
                scenes.check_bounds(g.bounds, scenes.true_bounds(d), "loaded object")
    finally:
        shutil.rmtree(tmp)
    for v in (None, 1, "x", {}, scenes.PS(kind), object(), ds[0] if ds else [], scenes.PO):
        refuses(lambda: o.__setitem__("new", v), Exception, "storing %r" % type(v))
        require("new" not in o and len(o) == len(ds), "a refused value was stored")


def partial(seed, drop):
    """An object document without some optional elements loads with the documented defaults."""
    ds, r = descriptions(seed, "bounding_box", 1)
    d = ds[0]
    e = ET.fromstring(ET.tostring(scenes.make(d).save()))
    for t in drop:
        for k in [k for k in e if k.tag == t]:
            e.remove(k)
    g = scenes.PO.load("bounding_box", e)
    w = dict(d)
    if "category" in drop:
        w["category"] = "unknown"
    if "symmetry" in drop:
        w["symmetry"] = ["none"] * 3
    if "detectionScore" in drop:
        w["score"] = -1
    if "evaluated" in drop:
        w["evaluated"] = True
    if "pose" in drop:
        w["R"], w["t"] = np.eye(3), np.zeros(3)
    scenes.check(g, w, "object without " + ", ".join(drop))
    if "bounds" in drop:
        require(g.bounds is None, "object without bounds has bounds %s", g.bounds)
    else:
        scenes.check_bounds(g.bounds, scenes.true_bounds(d), "object without " + ", ".join(drop))
    s = ET.Element("scene")
    ET.SubElement(s, "project_type").text = "bounding_box"
    ET.SubElement(s, "elements").append(e)
    g2 = loaded(s)
    scenes.check(g2.elements[d["id"]], w, "scene of an object without " + ", ".join(drop))


def loaded(root, kind=None, files=()):
    tmp = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(tmp, "p"))
        with open(os.path.join(tmp, "p", "p.xml"), "wb") as f:
            f.write(root if isinstance(root, bytes) else ET.tostring(root))
        return scenes.PS.load(tmp, "p")
    finally:
        shutil.rmtree(tmp)


def document(n, kind="bounding_box", seed=0):
    ds, o, r = kind_dict(seed, "bounding_box", n)
    s = ET.Element("scene")
    ET.SubElement(s, "version").text = "2.0"
    c = ET.SubElement(s, "categories")
    ET.SubElement(c, "id").text = "cid"
    ET.SubElement(c, "url").text = "curl"
    ET.SubElement(s, "project_type").text = kind
    s.append(ET.fromstring(ET.tostring(o.save())))
    return ds, s


def bad_scene(seed, n, fault):
    ds, s = document(n, seed=seed)
    g = loaded(s)
    check_dict(g.elements, ds, "document")
    require(g.settings == {"version": "2.0", "categories_id": "cid", "categories_url": "curl"}, "settings %s", g.settings)
    if fault == "order":
        kids = list(s)
        s2 = ET.Element("scene")
        for k in reversed(kids):
            s2.append(k)
        g = loaded(s2)
        require(g.settings == {"version": "2.0", "categories_id": "cid", "categories_url": "curl"}, "settings %s of a reordered document", g.settings)
        check_dict(g.elements, ds, "reordered document")
        return
    if fault.startswith("root:"):
        s.tag = fault[5:]
    elif fault.startswith("no:"):
        s.remove(s.find(fault[3:]))
    elif fault.startswith("rename:"):
        s.find(fault[7:]).tag = fault[7:] + "x"
    elif fault.startswith("type:"):
        s.find("project_type").text = fault[5:] or None
    elif fault == "id":
        e = list(s.find("elements"))[seed % n]
        e.remove(e.find("id"))
    elif fault == "emptyid":
        list(s.find("elements"))[seed % n].find("id").text = None
    elif fault == "truncated":
        t = ET.tostring(s)
        s = t[:len(t) // 2]
    elif fault == "nested":
        e = ET.Element("scene")
        e.append(s)
        s = e
    refuses(lambda: loaded(s), Exception, "document with fault " + fault)


def bad_object(seed, fault):
    ds, r = descriptions(seed, "bounding_box", 1)
    e = ET.fromstring(ET.tostring(scenes.make(ds[0]).save()))
    kind = "bounding_box"
    if fault == "tag":
        e.tag = "object"
    elif fault == "id":
        e.remove(e.find("id"))
    elif fault == "score":
        e.find("detectionScore").text = "high"
    elif fault == "symmetry":
        e.find("symmetry").find("x").text = "threeFold"
    elif fault == "pose":
        p = e.find("pose")
        p.remove(list(p)[seed % len(list(p))])
    elif fault == "bounds":
        p = e.find("bounds")
        p.remove(list(p)[seed % len(list(p))])
    elif fault.startswith("kind:"):
        kind = fault[5:]
    elif fault.startswith("file:"):
        kind = fault[5:]      # the geometry file is missing
    tmp = tempfile.mkdtemp()
    try:
        refuses(lambda: scenes.PO.load(kind, e, tmp), Exception, "object with fault " + fault)
        d = ET.Element("elements")
        if fault != "tag":
            d.append(e)
            refuses(lambda: scenes.POD.load(kind, d, tmp), Exception, "dictionary of an object with fault " + fault)
    finally:
        shutil.rmtree(tmp)


def constructor(kind):
    refuses(lambda: scenes.PS(kind), Exception, "scene of type %r" % kind)
    refuses(lambda: scenes.PO("1", kind), Exception, "object of type %r" % kind)


CHECKS = {"scene": scene, "dictionary": dictionary, "partial": partial, "bad_scene": bad_scene, "bad_object": bad_object, "constructor": constructor}
KINDS = ["bounding_box", "voxels", "meshes"]
OPTIONAL = ["category", "symmetry", "detectionScore", "evaluated", "pose", "bounds"]


def cases(rnd, tier):
    for k in ("", "mesh", "Meshes", "bounding box", "voxel", "scene"):
        yield "constructor", {"kind": k}
    for k in range(64):
        yield "partial", {"seed": rnd.randrange(1 << 30), "drop": [t for i, t in enumerate(OPTIONAL) if k >> i & 1]}
    for f in ["root:scenes", "root:Scene", "root:elements", "no:project_type", "no:elements", "rename:project_type", "rename:elements", "type:", "type:mesh",
              "type:Voxels", "type:unknown", "id", "emptyid", "truncated", "nested", "order"]:
        for n in (1, 3) if f in ("id", "emptyid") else (0, 1, 4):
            yield "bad_scene", {"seed": rnd.randrange(1 << 30), "n": n, "fault": f}
    for f in ["tag", "id", "score", "symmetry", "pose", "bounds", "kind:mesh", "kind:", "kind:x", "file:voxels", "file:meshes"]:
        for k in range(2):
            yield "bad_object", {"seed": rnd.randrange(1 << 30), "fault": f}
    for i in range(3000):
        k = KINDS[i % 3]
        n = (i // 3) % 10 if i < 30 else rnd.randrange(10)
        yield "scene", {"seed": rnd.randrange(1 << 30), "kind": k, "n": n, "custom": rnd.random() < 0.7}
        yield "dictionary", {"seed": rnd.randrange(1 << 30), "kind": k, "n": rnd.randrange(5)}
