MODULES = ["sumo.base.vector", "sumo.geometry.rot3", "sumo.geometry.pose3", "sumo.geometry.quaternion", "sumo.threedee.mesh", "sumo.threedee.textured_mesh", "sumo.threedee.box_3d", "sumo.opencv.wrap"]
import itertools
import json
import xml.etree.ElementTree as ET

import numpy as np

from common import *

RULE = ("rotations from random/special quaternions (also arbitrary 3x3 matrices for the exact formats), translations and box corners of "
        "several scales, documents in every order of child elements, hand-written documents, and documents with one wrong tag, missing, "
        "or wrong-length vector; distinct by content")


def setup():
    global Rot3, Pose3, Quaternion, Box3d
    from sumo.geometry.rot3 import Rot3
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.quaternion import Quaternion
    from sumo.threedee.box_3d import Box3d


def tol(x):
    s = float(np.max(np.abs(x))) if np.size(x) else 1.0
    return dict(rtol=2e-8, atol=2e-8 * max(1.0, s))


def through(e):
    """What a file round trip gives."""
    return ET.fromstring(ET.tostring(e))


def el(tag, *children, text=None):
    e = ET.Element(tag)
    e.text = text
    e.extend(children)
    return e


def num(v):
    return ", ".join(repr(float(x)) for x in v)


def xml(q, t, c1, c2):
    A = rot(q)
    t, c1, c2 = np.array(t, float), np.array(c1, float), np.array(c2, float)
    keep = frozen(A, t, c1, c2)
    # written form read back
    r = Rot3(A)
    x = through(r.to_xml())
    require(x.tag == "rotation", "rotation tag")
    require(sorted(c.tag for c in x) == ["c1", "c2", "c3"], "rotation children")
    for k in range(3):
        close([float(v) for v in x.find("c%d" % (k + 1)).text.split(",")], A[:, k], "written column c%d" % (k + 1), **tol(A))
    close(Rot3.from_xml(x).matrix(), A, "rotation XML round trip", **tol(A))
    p = Pose3(Rot3(A), t)
    x = through(p.to_xml())
    require(x.tag == "pose" and sorted(c.tag for c in x) == ["rotation", "translation"], "pose document layout")
    close([float(v) for v in x.find("translation").text.split(",")], t, "written translation", **tol(t))
    y = Pose3.from_xml(x)
    close(y.rotation().matrix(), A, "pose XML round trip: rotation", **tol(A))
    close(y.translation(), t, "pose XML round trip: translation", **tol(t))
    b = Box3d(c1, c2)
    lo, hi = np.minimum(c1, c2), np.maximum(c1, c2)
    x = through(b.to_xml())
    require(x.tag == "box3d" and sorted(c.tag for c in x) == ["corner1", "corner2"], "box document layout")
    z = Box3d.from_xml(x)
    close(z.min_corner, lo, "box XML round trip: min", **tol([lo, hi]))
    close(z.max_corner, hi, "box XML round trip: max", **tol([lo, hi]))
    # hand-written documents, every child order
    for perm in itertools.permutations(range(3)):
        e = el("rotation", *[el("c%d" % (k + 1), text=" " + num(A[:, k]) + " ") for k in perm])
        close(Rot3.from_xml(through(e)).matrix(), A, "rotation document in order %s" % (perm,), rtol=1e-13, atol=1e-13)
        kids = [el("translation", text=num(t)), e]
        for k2 in (kids, kids[::-1]):
            y = Pose3.from_xml(through(el("pose", *k2)))
            close(y.rotation().matrix(), A, "pose document: rotation", rtol=1e-13, atol=1e-13)
            close(y.translation(), t, "pose document: translation", rtol=1e-13, atol=1e-13)
    kids = [el("corner1", text=num(c1)), el("corner2", text=num(c2))]
    for k2 in (kids, kids[::-1]):
        y = Box3d.from_xml(through(el("box3d", *k2)))
        close(y.min_corner, lo, "box document: min", rtol=1e-13, atol=1e-13)
        close(y.max_corner, hi, "box document: max", rtol=1e-13, atol=1e-13)
    unchanged([A, t, c1, c2], keep)


def exact(M, t):
    """formats which keep every matrix exactly"""
    M = np.array(M, float).reshape(3, 3)
    t = np.array(t, float)
    keep = frozen(M, t)
    j = json.loads(json.dumps(Rot3(M).to_json()))
    same(sorted(j), ["X", "Y", "Z"], "rotation JSON keys")
    for k, n in enumerate("XYZ"):
        same(j[n], M[:, k], "rotation JSON %s" % n)
    same(Rot3.from_json(j).matrix(), M, "rotation JSON round trip")
    p = Pose3(Rot3(M), t)
    j = json.loads(json.dumps(p.to_json()))
    same(sorted(j), ["Rotation", "Translation"], "pose JSON keys")
    same(j["Translation"], t, "pose JSON translation")
    for k, n in enumerate("XYZ"):
        same(j["Rotation"][n], M[:, k], "pose JSON rotation %s" % n)
    y = Pose3.from_json(j)
    same(y.rotation().matrix(), M, "pose JSON round trip: rotation")
    same(y.translation(), t, "pose JSON round trip: translation")
    y = Pose3.from_json({"Translation": [1, 2, 3], "Rotation": {"Z": [7, 8, 9], "Y": [4, 5, 6], "X": [1, 2, 3]}})
    same(y.rotation().matrix(), np.array([[1, 4, 7], [2, 5, 8], [3, 6, 9]]), "JSON columns")
    y = Pose3.FromMatrix34(p.matrix34())
    same(y.rotation().matrix(), M, "3x4 matrix round trip: rotation")
    same(y.translation(), t, "3x4 matrix round trip: translation")
    same(p.matrix34(), np.hstack([M, t.reshape(3, 1)]), "3x4 matrix")
    unchanged([M, t], keep)


def quaternion(q, t, s):
    A = rot(q)
    t = np.array(t, float)
    w, x, y, z = [float(v) for v in np.asarray(q, float) / np.linalg.norm(q)]
    for k in (1.0, -1.0, s, -s):
        qq = np.array([k * w, k * x, k * y, k * z])
        kept = qq.copy()
        m = Quaternion(qq).to_rotation_matrix()
        close(m, A, "quaternion scaled by %r to matrix" % k, rtol=1e-9, atol=1e-9)
        same(qq, kept, "quaternion operand")
        close(Quaternion(qq).as_vector(), qq, "as_vector")
        p = Pose3.from_surreal({"QuaternionXYZW": [k * x, k * y, k * z, k * w], "Translation": list(t)})
        close(p.rotation().matrix(), A, "from_surreal scaled by %r" % k, rtol=1e-9, atol=1e-9)
        same(p.translation(), t, "from_surreal translation")
        R = p.rotation().matrix()
        close(R @ R.T, np.eye(3), "from_surreal orthonormal")
        close(np.linalg.det(R), 1.0, "from_surreal determinant")
    v = Quaternion(A).as_vector()
    close(np.linalg.norm(v), 1.0, "quaternion of a matrix is unit", rtol=1e-8, atol=1e-8)
    close(rot(v), A, "quaternion of a matrix", rtol=1e-8, atol=1e-8)
    close(Quaternion(np.asfortranarray(A)).as_vector(), v, "memory order")
    close(Quaternion().to_rotation_matrix(), np.eye(3), "default quaternion")
    j = json.loads(json.dumps(Pose3(Rot3(A), t).to_surreal()))
    same(sorted(j), ["QuaternionXYZW", "Translation"], "surreal JSON keys")
    X = j["QuaternionXYZW"]
    close(rot([X[3], X[0], X[1], X[2]]), A, "written XYZW quaternion", rtol=1e-8, atol=1e-8)
    same(j["Translation"], t, "written translation")
    y = Pose3.from_surreal(j)
    close(y.rotation().matrix(), A, "surreal round trip: rotation", rtol=1e-8, atol=1e-8)
    same(y.translation(), t, "surreal round trip: translation")


def bad(kind, v, n, tag, drop):
    """One defect in an otherwise correct document."""
    txt = ", ".join(repr(float(x)) for x in (v * 4)[:n]) if n >= 0 else None
    good = num(v)
    rotd = [("c1", good), ("c2", good), ("c3", good)]
    def rotel(items=rotd, root="rotation"):
        return el(root, *[el(k, text=s) for k, s in items])
    what = "%s document with %s" % (kind, (("a vector of %d numbers in %s" % (n, tag)) if n is not None and n != 3 else ("%s %s" % ("missing" if drop else "misspelt", tag))))
    if kind == "rotation":
        read = Rot3.from_xml
        items = [(k, txt if k == tag and n != 3 else s) for k, s in rotd]
        if n == 3:
            items = [(k, s) for k, s in items if not (k == tag and drop)]
            items = [(k + "x" if k == tag and not drop else k, s) for k, s in items]
        doc = rotel(items, "rotatio" if tag == "root" else "rotation")
    elif kind == "pose":
        read = Pose3.from_xml
        if tag in ("c1", "c2", "c3"):
            items = [(k, txt if k == tag and n != 3 else s) for k, s in rotd]
            if n == 3:
                items = [(k if k != tag else k.upper(), s) for k, s in items if not (k == tag and drop)]
            doc = el("pose", el("translation", text=good), rotel(items))
        elif tag == "translation":
            if n != 3:
                doc = el("pose", el("translation", text=txt), rotel())
            else:
                doc = el("pose", rotel()) if drop else el("pose", el("Translation", text=good), rotel())
        elif tag == "rotation":
            doc = el("pose", el("translation", text=good)) if drop else el("pose", el("translation", text=good), rotel(root="Rotation"))
        elif tag == "extra":
            doc = el("pose", el("translation", text=good), rotel(), el("scale", text=good))
        else:
            doc = el("Pose", el("translation", text=good), rotel())
    else:
        read = Box3d.from_xml
        items = [("corner1", good), ("corner2", good)]
        if tag == "root":
            doc = el("box", *[el(k, text=s) for k, s in items])
        elif tag == "extra":
            doc = el("box3d", *[el(k, text=s) for k, s in items + [("corner3", good)]])
        elif n != 3:
            doc = el("box3d", *[el(k, text=txt if k == tag else s) for k, s in items])
        else:
            items = [(k, s) for k, s in items if not (k == tag and drop)]
            doc = el("box3d", *[el("corner" if k == tag else k, text=s) for k, s in items])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        refuses(lambda: read(through(doc)), Exception, what)


def shapes(r, c):
    if (r, c) != (3, 4):
        refuses(lambda: Pose3.FromMatrix34(np.arange(float(r * c)).reshape(r, c)), Exception, "FromMatrix34 of a %dx%d matrix" % (r, c))


CHECKS = {"xml": xml, "exact": exact, "quaternion": quaternion, "bad": bad, "shapes": shapes}


def cases(rnd, tier):
    for kind, tags in (("rotation", ["c1", "c2", "c3"]), ("pose", ["c1", "c2", "c3", "translation"]), ("box", ["corner1", "corner2"])):
        for tag in tags:
            for n in (0, 1, 2, 4, 5, 6):
                yield "bad", {"kind": kind, "v": rvec(rnd), "n": n, "tag": tag, "drop": False}
            for d in (True, False):
                yield "bad", {"kind": kind, "v": rvec(rnd), "n": 3, "tag": tag, "drop": d}
        yield "bad", {"kind": kind, "v": rvec(rnd), "n": 3, "tag": "root", "drop": False}
        if kind == "pose":
            for d in (True, False):
                yield "bad", {"kind": kind, "v": rvec(rnd), "n": 3, "tag": "rotation", "drop": d}
        if kind != "rotation":
            yield "bad", {"kind": kind, "v": rvec(rnd), "n": 3, "tag": "extra", "drop": False}
    for r in range(1, 6):
        for c in range(1, 6):
            yield "shapes", {"r": r, "c": c}
    for i in range(120 if tier == "quick" else 20000):
        yield "xml", {"q": rquat(rnd), "t": rvec(rnd), "c1": rvec(rnd), "c2": rvec(rnd)}
        yield "exact", {"M": rvec(rnd, 9), "t": rvec(rnd)}
        yield "quaternion", {"q": rquat(rnd), "t": rvec(rnd), "s": rnd.choice([0.01, 0.5, 2.0, 37.5, 1e3])}
