MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3"]
import copy
import math
import warnings

import numpy as np

import metricstub
from common import *

BUDGET = 15
RULE = ("pairs of scenes of the three tracks with 0 to 6 detections and ground-truth elements (moved, scaled, mislabelled, missing, extra, not evaluated, floors), "
        "identical scenes, settings complete, partial or absent; distinct by content")


def setup():
    metricstub.install_pymesh()
    warnings.simplefilter("ignore")
    global EV, PO, PS, Pose3, Rot3, Sym, Box3d, VoxelGrid, Mesh, GltfModel, CLS
    from sumo.metrics import evaluator as EV
    from sumo.metrics.bb_evaluator import BBEvaluator
    from sumo.metrics.voxel_evaluator import VoxelEvaluator
    from sumo.metrics.mesh_evaluator import MeshEvaluator
    from sumo.semantic.project_object import ProjectObject as PO
    from sumo.semantic.project_scene import ProjectScene as PS
    from sumo.semantic.object_symmetry import ObjectSymmetry as Sym
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3
    from sumo.threedee.box_3d import Box3d
    from sumo.threedee.voxel_grid import VoxelGrid
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.gltf_model import GltfModel
    CLS = {"bounding_box": BBEvaluator, "voxels": VoxelEvaluator, "meshes": MeshEvaluator}


CATS = ["floor", "chair", "bed", "zzz"]        # zzz is in no category list


def element(kind, d):
    """An object of the track whose geometry is the box of half sizes d["half"]."""
    h = np.array(d["half"])
    b = Box3d(-h, h)
    kw = dict(id=d["id"], bounds=b, pose=Pose3(Rot3(np.array(d["R"])), np.array(d["t"])), category=d["category"], score=d["score"], evaluated=d["evaluated"])
    if kind == "bounding_box":
        return PO.gen_bounding_box_object(**kw)
    if kind == "voxels":
        n = [max(2, int(x / 0.1)) for x in 2 * h]
        g = np.stack(np.meshgrid(*[(np.arange(k) + 0.5) / k for k in n], indexing="ij"), -1).reshape(-1, 3) * 2 * h - h
        return PO.gen_voxels_object(voxels=VoxelGrid(0.25, -h, g), **kw)
    V = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]).T * h[:, None]
    F = [0, 1, 3, 0, 3, 2, 4, 6, 7, 4, 7, 5, 0, 4, 5, 0, 5, 1, 2, 3, 7, 2, 7, 6, 0, 2, 6, 0, 6, 4, 1, 5, 7, 1, 7, 3]
    m = GltfModel()
    m.add_mesh(Mesh(np.array(F, np.uint32), V.astype(np.float32), np.zeros((3, 8), np.float32)))
    return PO.gen_meshes_object(meshes=m, **kw)


def description(r, id, k, scores):
    q = r.normal(size=4) if r.rand() < 0.7 else np.array([1.0, 0, 0, 0])
    return {"id": id, "half": r.uniform(0.2, 0.6, 3).tolist(), "R": rot(q).tolist(), "t": [4.0 * (k % 3) + r.uniform(-0.2, 0.2), r.uniform(-0.2, 0.2), 4.0 * (k // 3)],
            "category": CATS[r.randint(4)], "score": scores, "evaluated": bool(r.rand() < 0.75)}


def scene(kind, ds):
    p = PS(kind)
    for d in ds:
        p.elements[d["id"]] = element(kind, d)
    return p


def data(p):
    out = {}
    for k, e in p.elements.items():
        g = None
        if e.voxels is not None:
            g = (e.voxels.voxel_centers().tolist(), e.voxels.voxel_size)
        if e.meshes is not None:
            g = [(m.indices().tolist(), m.vertices().tolist()) for m in e.meshes.primitive_meshes()]
        out[k] = (e.id, e.project_type, e.category, e.score, e.evaluated, np.array(e.pose.R.matrix()).tolist(), list(e.pose.t), list(e.bounds.min_corner),
                  list(e.bounds.max_corner), g)
    return (p.project_type, list(p.elements), out, copy.deepcopy(p.settings))


def greedy(D, G, S, t):
    free, m = set(G), {}
    for d in sorted(D, key=lambda d: -D[d]["score"]):
        c = [g for g in free if S[d, g] >= t]
        if c:
            m[d] = max(c, key=lambda g: S[d, g])
            free.remove(m[d])
    return m


def ap(D, m, G, n_gt):
    hits = []
    for d in sorted(D, key=lambda d: -D[d]["score"]):
        if d in m:
            if G[m[d]]["evaluated"]:
                hits.append(1)
        else:
            hits.append(0)
    tp = np.cumsum(hits)
    P = [tp[i] / (i + 1) for i in range(len(hits))]
    for i in range(len(P) - 2, -1, -1):
        P[i] = max(P[i], P[i + 1])
    a, last = 0.0, 0.0
    for p, x in zip(P, tp):
        a += p * (x / n_gt - last)
        last = x / n_gt
    return a


def volume(d):
    return float(np.prod(2 * np.array(d["half"])))


def gauss(p, x):
    return p["weight"] * math.exp(-0.5 * (x - p["mean"]) ** 2 / p["std_dev"] ** 2)


def perceptual(D, G, m, st):
    area = lambda d: 4 * d["half"][0] * d["half"][2]
    gf = sum(area(g) for g in G.values() if g["category"] == "floor" and g["evaluated"])
    sf = sum(area(d) for d in D.values() if d["category"] == "floor")
    scale = sf / gf if gf > 0 else 0
    P = st["perceptual"]
    s, top = gauss(P["room_scale"], scale), P["room_scale"]["weight"]
    for d, g in m.items():
        d, g = D[d], G[g]
        if not g["evaluated"]:
            continue
        s += gauss(P["true_obj_scale"], volume(d) / volume(g))
        top += P["true_obj_scale"]["weight"]
        if scale > 0:
            s += gauss(P["relative_obj_scale"], volume(d) / (volume(g) * scale))
            top += P["relative_obj_scale"]["weight"]
        s += gauss(P["translation"], math.hypot(d["t"][0] - g["t"][0], d["t"][2] - g["t"][2])) + gauss(P["elevation"], d["t"][1] - g["t"][1])
        top += P["translation"]["weight"] + P["elevation"]["weight"]
    s -= P["missed_weight"] * sum(volume(g) for k, g in G.items() if k not in m.values() and g["evaluated"])
    s -= P["extra_weight"] * sum(volume(d) for k, d in D.items() if k not in m)
    return max(0.0, s) / top


def evaluate(kind, sub, gt, settings):
    """(evaluator, similarities by id)."""
    S = {}
    cls = CLS[kind]
    internal(cls, "_shape_similarity")

    class C(cls):
        def _shape_similarity(self, a, b):
            require(sub.elements.get(a.id) is a, "similarity of %r, which is not a detection", a.id)
            require(gt.elements.get(b.id) is b, "similarity with %r, which is not ground truth", b.id)
            S[a.id, b.id] = v = cls._shape_similarity(self, a, b)
            return v
    e = C(sub, gt) if settings is None else C(sub, gt, settings)
    return e, S


def settings_for(r, which):
    st = EV.Evaluator.default_settings()
    full = copy.deepcopy(st)
    if which == "none":
        return None, full
    th = sorted(float(x) for x in r.choice([0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9], r.randint(1, 4), replace=False))
    given = {"thresholds": np.array(th[::-1]), "categories": [c for c in CATS[:3] if r.rand() < 0.8] or ["chair"], "density": 60.0, "mesh_overlap_thresh": 0.25,
             "voxel_overlap_thresh": 0.2}
    if r.rand() < 0.5:
        p = copy.deepcopy(full["perceptual"])
        p["missed_weight"], p["extra_weight"], p["room_scale"]["weight"] = 3, 2, 50
        given["perceptual"] = p
    if which == "full":
        g = dict(full)
        g.update(given)
        return g, copy.deepcopy(g)
    for k in list(given):
        if r.rand() < 0.5:
            del given[k]
    g = dict(full)
    g.update(given)
    return given, copy.deepcopy(g)


def compare(kind, e, S, D, G, st, exact):
    th = sorted(float(t) for t in st["thresholds"])
    require({k for k in S} == {(d, g) for d in D for g in G}, "similarities of %d pairs, expected %d", len(S), len(D) * len(G))
    for k, v in S.items():
        require(-1e-9 <= v <= 1 + 1e-9, "similarity %s of %s", v, k)
    got = e.evaluate_all()
    n_gt = sum(g["evaluated"] for g in G.values())
    M = {t: greedy(D, G, S, t) for t in th}
    # shape
    if n_gt:
        w = np.mean([ap(D, M[t], G, n_gt) for t in th])
        require(abs(got["shape_score"] - w) < 1e-9, "shape score %s, expected %s", got["shape_score"], w)
        require(0 <= got["shape_score"] <= 1, "shape score %s", got["shape_score"])
    # pose
    re, te = [], []
    for t in th:
        a, b = [], []
        for d, g in M[t].items():
            if G[g]["evaluated"]:
                R = np.array(D[d]["R"]).T @ np.array(G[g]["R"])
                s = math.sqrt((R[2, 1] - R[1, 2]) ** 2 + (R[0, 2] - R[2, 0]) ** 2 + (R[1, 0] - R[0, 1]) ** 2)
                a.append(math.atan2(s, np.trace(R) - 1))
                b.append(np.linalg.norm(np.array(D[d]["t"]) - np.array(G[g]["t"])))
        if a:
            re.append(np.mean(a))
            te.append(np.mean(b))
    if re:
        require(abs(got["rotation_error"] - np.mean(re)) < 1e-6, "rotation error %s, expected %s", got["rotation_error"], np.mean(re))
        require(abs(got["translation_error"] - np.mean(te)) < 1e-9, "translation error %s, expected %s", got["translation_error"], np.mean(te))
        require(got["rotation_error"] >= 0 and got["translation_error"] >= 0, "pose errors %s, %s", got["rotation_error"], got["translation_error"])
    else:
        require(got["rotation_error"] == math.inf and got["translation_error"] == math.inf, "pose errors without matches: %s, %s", got["rotation_error"], got["translation_error"])
    # semantics
    aps = []
    for t in th:
        for c in st["categories"]:
            Dc = {k: d for k, d in D.items() if d["category"] == c}
            Gc = {k: g for k, g in G.items() if g["category"] == c}
            n = sum(g["evaluated"] for g in Gc.values())
            if n:
                aps.append(ap(Dc, greedy(Dc, Gc, S, t), Gc, n))
    if aps:
        require(abs(got["semantics_score"] - np.mean(aps)) < 1e-9, "semantics score %s, expected %s", got["semantics_score"], np.mean(aps))
        require(0 <= got["semantics_score"] <= 1, "semantics score %s", got["semantics_score"])
    # perceptual
    w = np.mean([perceptual(D, G, M[t], st) for t in th])
    require(abs(got["perceptual_score"] - w) < 1e-9, "perceptual score %s, expected %s", got["perceptual_score"], w)
    require(0 <= got["perceptual_score"] <= 1, "perceptual score %s", got["perceptual_score"])
    # surface distances
    if kind != "bounding_box":
        v, c = got["rms_points_error"], got["rms_color_error"]
        if any(G[g]["evaluated"] for t in th for g in M[t].values()):
            require(0 <= v < 10 and c == c, "surface distance %s", v) if kind == "voxels" else require(0 <= v < 10 and 0 <= c < 500, "surface distances %s, %s", v, c)
        else:
            require(v == math.inf and c == math.inf, "surface distances without matches: %s, %s", v, c)
    else:
        require("rms_points_error" not in got, "surface distance in the bounding box track")
    for k, f in (("shape_score", e.shape_score), ("semantics_score", e.semantics_score), ("perceptual_score", e.perceptual_score)):
        x = f()
        require(x == got[k] or (x != x and got[k] != got[k]), "%s is %s alone and %s together", k, x, got[k])
    return got


def general(seed, kind, nd, ng, which):
    r = np.random.RandomState(seed)
    np.random.seed(seed % (1 << 31))
    st, full = settings_for(r, which)
    gds = [description(r, "o%d" % i, i, -1) for i in range(ng)]
    scores = list(r.permutation(nd) / 10.0)
    dds = []
    for i in range(nd):
        if i < ng and r.rand() < 0.85:
            d = copy.deepcopy(gds[i])
            d["t"] = (np.array(d["t"]) + r.choice([0, 0.01, 0.2]) * r.normal(size=3)).tolist()
            d["half"] = (np.array(d["half"]) * r.choice([1, 1, 0.9, 1.3])).tolist()
            if r.rand() < 0.4:
                d["R"] = (np.array(d["R"]) @ rot([1, 0.05, 0.1, 0])).tolist()
            if r.rand() < 0.2:
                d["category"] = CATS[r.randint(4)]
        else:
            d = description(r, "", r.randint(6), 0)
        d["id"], d["score"], d["evaluated"] = "o%d" % ((i * 5 + 1) % 7), float(scores[i]), bool(r.randint(2))
        dds.append(d)
    sub, gt = scene(kind, dds), scene(kind, gds)
    before = data(sub), data(gt)
    e, S = evaluate(kind, sub, gt, st)
    D, G = {d["id"]: d for d in dds}, {d["id"]: d for d in gds}
    compare(kind, e, S, D, G, full, False)
    require((data(sub), data(gt)) == before, "an input scene was modified")
    if kind == "bounding_box":
        for (a, b), v in S.items():
            w = iou(D[a], G[b])
            if w is not None:
                require(abs(v - w) < 1e-6, "similarity of %s-%s is %s, expected %s", a, b, v, w)


def iou(a, b):
    """Overlap of two parallel boxes."""
    if not np.allclose(a["R"], b["R"]):
        return None
    R = np.array(a["R"])
    x, y = R.T @ np.array(a["t"]), R.T @ np.array(b["t"])
    lo, hi = np.maximum(x - a["half"], y - np.array(b["half"])), np.minimum(x + a["half"], y + np.array(b["half"]))
    i = float(np.prod(np.maximum(0, hi - lo)))
    return i / (volume(a) + volume(b) - i)


def identical(seed, kind, n, which, floor, evaluated, same_object):
    r = np.random.RandomState(seed)
    np.random.seed(seed % (1 << 31))
    st, full = settings_for(r, which)
    ds = [description(r, "o%d" % i, i, float(i) if r.rand() < 0.7 else 0.5) for i in range(n)]
    for d in ds:
        d["evaluated"] = evaluated or d["evaluated"]
        d["half"] = r.uniform(0.4, 0.7, 3).tolist()
        if d["category"] == "floor":
            d["category"] = "chair"
    ds[0]["evaluated"] = True
    if floor:
        ds[0]["category"] = "floor"
    if st is not None and "categories" in st:
        st["categories"] = ["floor", "chair", "bed"]
    full["categories"] = list(st["categories"]) if st is not None and "categories" in st else full["categories"]
    gt = scene(kind, ds)
    sub = gt if same_object else scene(kind, ds)
    e, S = evaluate(kind, sub, gt, st)
    got = e.evaluate_all()
    require(abs(got["shape_score"] - 1) < 1e-9, "shape score %s of identical scenes", got["shape_score"])
    if any(d["evaluated"] and d["category"] in full["categories"] for d in ds):
        require(abs(got["semantics_score"] - 1) < 1e-9, "semantics score %s of identical scenes", got["semantics_score"])
    require(got["rotation_error"] < 1e-6 and got["translation_error"] == 0, "pose errors %s, %s of identical scenes", got["rotation_error"], got["translation_error"])
    if floor:
        require(abs(got["perceptual_score"] - 1) < 1e-9, "perceptual score %s of identical scenes", got["perceptual_score"])
    if kind == "voxels":
        require(got["rms_points_error"] == 0, "surface distance %s of identical scenes", got["rms_points_error"])


CHECKS = {"general": general, "identical": identical}
KINDS = ["bounding_box", "voxels", "meshes"]


def cases(rnd, tier):
    for i in range(5000):
        k = KINDS[i % 3]
        w = ["none", "full", "part"][(i // 3) % 3]
        yield "general", {"seed": rnd.randrange(1 << 30), "kind": k, "nd": rnd.randrange(7) if i > 9 else i % 3 * 2, "ng": rnd.randrange(7) if i > 9 else i % 4, "which": w}
        yield "identical", {"seed": rnd.randrange(1 << 30), "kind": k, "n": rnd.randint(1, 6), "which": w, "floor": rnd.random() < 0.6, "evaluated": rnd.random() < 0.5,
                            "same_object": rnd.random() < 0.3}
        yield "general", {"seed": rnd.randrange(1 << 30), "kind": "bounding_box", "nd": rnd.randrange(7), "ng": rnd.randrange(7), "which": w}
