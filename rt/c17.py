MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3"]
import copy
import shutil
import tempfile

import numpy as np

import scenes
from scenes import WORDS
from common import *

BUDGET = 10
RULE = ("objects and scenes of the three types with 0 to 6 objects, every attribute varied, with and without bounds, one to three transforms; "
        "results compared, saved, reloaded and transformed again; distinct by content")
IDS = ["1", "b", "x y", "7", "\u00fc", "0"]


def setup():
    scenes.load()


def rigid(r):
    R = rot(r.normal(size=4)) if r.rand() < 0.8 else np.eye(3)
    return R, r.uniform(-5, 5, 3) * r.randint(2)


def compose(ab, d):
    e = dict(d)
    e["R"], e["t"] = ab[0] @ d["R"], ab[0] @ d["t"] + ab[1]
    return e


def pose(ab):
    return scenes.Pose3(scenes.Rot3(ab[0].copy()), ab[1].copy())


def make(r, kind, n):
    ds = [scenes.description(r, kind, IDS[i]) for i in range(n)]
    o = []
    for i, d in enumerate(ds):
        x = scenes.make(d, "init" if r.rand() < 0.5 else "factory")
        k = r.randint(3)
        if k == 1 and kind != "bounding_box":
            x.bounds = scenes.Box3d(np.array([-1.0, -2, -3]), np.array([1.0, 2, 3.5]))
        if k == 2 and kind == "bounding_box":
            x.bounds = None
        o.append(x)
    return ds, o


def snapshot(o):
    return {"id": o.id, "type": o.project_type, "pose": (np.array(o.pose.R.matrix()), np.array(o.pose.t)), "bounds": None if o.bounds is None else
            (np.array(o.bounds.min_corner), np.array(o.bounds.max_corner)), "objs": (o.symmetry, o.voxels, o.meshes, o.pose, o.bounds),
            "plain": (o.category, o.score, o.evaluated), "keys": sorted(vars(o))}


def untouched(o, s, what):
    t = snapshot(o)
    for k in ("id", "type", "plain", "keys"):
        require(t[k] == s[k], "%s: the original's %s changed from %s to %s", what, k, s[k], t[k])
    for a, b in zip(t["objs"], s["objs"]):
        require(a is b, "%s: an attribute of the original was replaced", what)
    same(t["pose"][0], s["pose"][0], what + ": rotation of the original")
    same(t["pose"][1], s["pose"][1], what + ": translation of the original")
    require((t["bounds"] is None) == (s["bounds"] is None), "%s: bounds of the original", what)
    if t["bounds"]:
        same(t["bounds"], s["bounds"], what + ": bounds of the original")


def carried(o, s, d, what):
    """Everything but the pose is that of the original (snapshot s)."""
    scenes.check(o, d, what, tol=1e-9)
    t = snapshot(o)
    require(t["plain"] == s["plain"] and t["id"] == s["id"] and t["type"] == s["type"], "%s: attributes %s, expected %s", what, t["plain"], s["plain"])
    require((t["bounds"] is None) == (s["bounds"] is None), "%s: bounds are %s", what, o.bounds)
    if t["bounds"]:
        same(t["bounds"], s["bounds"], what + ": bounds")
    require(o.symmetry == s["objs"][0], "%s: symmetry", what)


def obj(seed, kind):
    r = np.random.RandomState(seed)
    (d,), (o,) = make(r, kind, 1)
    s = snapshot(o)
    a, b = rigid(r), rigid(r)
    pa, pb = pose(a), pose(b)
    n = o.transform_pose(pa)
    require(n is not o, "transform_pose returned the object itself")
    carried(n, s, compose(a, d), "transformed object")
    untouched(o, s, "transform")
    sn = snapshot(n)
    n2 = n.transform_pose(pb)
    carried(n2, s, compose(b, compose(a, d)), "object transformed twice")
    untouched(n, sn, "second transform")
    n3 = o.transform_pose(pb.compose(pa))
    carried(n3, s, compose(b, compose(a, d)), "object transformed by the composition")
    require(n2.almost_equal(n3), "two transforms and their composition are not almost equal")
    require(o.transform_pose(scenes.Pose3()).almost_equal(o), "transform by the identity")
    carried(n.transform_pose(pa.inverse()), s, d, "object transformed forth and back")
    same(pa.R.matrix(), a[0], "transform rotation")
    same(pa.t, a[1], "transform translation")
    # assigning attributes of the result does not reach the original
    n.pose = pb
    n.category = "changed"
    n.score = 99
    n.evaluated = not n.evaluated
    n.bounds = None
    n.symmetry = None
    untouched(o, s, "changing the result")


def scene(seed, kind, n):
    r = np.random.RandomState(seed)
    ds, os_ = make(r, kind, n)
    if n and r.rand() < 0.5:
        for i, x in enumerate(os_):
            if kind == "bounding_box" and x.bounds is None:
                x.bounds = scenes.Box3d(*ds[i]["corners"])
    e = scenes.POD()
    # the key need not be the id
    keys = [d["id"] if i % 2 or seed % 2 else "key%d" % i for i, d in enumerate(ds)]
    for k, x in zip(keys, os_):
        e[k] = x
    settings = {"version": WORDS[r.randint(9)], "categories_id": WORDS[r.randint(9)], "categories_url": WORDS[r.randint(9)]}
    custom = r.rand() < 0.7
    p = scenes.PS(kind, e, dict(settings)) if custom else scenes.PS(kind, e)
    want = copy.deepcopy(p.settings)
    snaps = [snapshot(x) for x in os_]
    a, b = rigid(r), rigid(r)
    q = p.transform_pose(pose(a))

    def check(q, ds, what):
        require(type(q) is scenes.PS, "%s: class %s", what, type(q))
        require(type(q.elements) is scenes.POD, "%s: elements are %s", what, type(q.elements))
        require(q.project_type == kind, "%s: type %s", what, q.project_type)
        require(q.settings == want, "%s: settings %s, expected %s", what, q.settings, want)
        require(list(q.elements.keys()) == keys, "%s: keys %s, expected %s", what, list(q.elements), keys)
        for k, d, s in zip(keys, ds, snaps):
            carried(q.elements[k], s, d, "%s, object %r" % (what, k))
    one = [compose(a, d) for d in ds]
    two = [compose(b, d) for d in one]
    check(q, one, "transformed scene")
    q2 = q.transform_pose(pose(b))
    check(q2, two, "scene transformed twice")
    q3 = p.transform_pose(pose(b).compose(pose(a)))
    check(q3, two, "scene transformed by the composition")
    require(q2.elements.almost_equal(q3.elements), "scenes are not almost equal")
    check(q, one, "transformed scene afterwards")
    # original
    require(p.elements is e and list(e.keys()) == keys and p.project_type == kind and p.settings == want, "the original scene was modified")
    for x, s, k in zip(os_, snaps, keys):
        require(e[k] is x, "an object of the original scene was replaced")
        untouched(x, s, "scene transform")
    require(q.elements is not e, "the result shares the original's dictionary")
    q.elements["another"] = scenes.PO("another", kind)
    require("another" not in e, "adding to the result changed the original")
    del q.elements["another"]
    if all(x.bounds is not None or kind != "bounding_box" for x in os_):
        tmp = tempfile.mkdtemp()
        try:
            q2.save(tmp, "p")
            g = scenes.PS.load(tmp, "p")
        finally:
            shutil.rmtree(tmp)
        require(g.settings == want and g.project_type == kind, "saved transformed scene has settings %s", g.settings)
        require(sorted(g.elements) == sorted(d["id"] for d in ds), "saved transformed scene has objects %s", sorted(g.elements))
        for d in two:
            scenes.check(g.elements[d["id"]], d, "saved transformed scene")


CHECKS = {"obj": obj, "scene": scene}
KINDS = ["bounding_box", "voxels", "meshes"]


def cases(rnd, tier):
    for i in range(5000):
        k = KINDS[i % 3]
        yield "scene", {"seed": rnd.randrange(1 << 30), "kind": k, "n": (i // 3) % 7}
        yield "obj", {"seed": rnd.randrange(1 << 30), "kind": k}
