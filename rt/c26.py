MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3"]
import math
import types

import numpy as np

import metricstub
from common import *

BUDGET = 8
RULE = ("point sets of 0 to 60 points (lattices with distances exactly on the threshold, clusters, far apart, identical, shifted, with and without colours), "
        "associations of several pairs, thresholds and evaluated flags; distinct by content")


def setup():
    metricstub.install()
    global U, Box3d
    import sumo.metrics.utils as U
    from sumo.threedee.box_3d import Box3d


def points(r, n, kind, cols=6):
    if kind == "lattice":
        P = r.randint(0, 5, (n, 3)) * 0.25
    elif kind == "cluster":
        P = r.normal(size=(n, 3)) * 0.1 + r.randint(0, 3, (n, 1))
    else:
        P = r.uniform(-2, 2, (n, 3))
    return np.concatenate([P, r.randint(0, 256, (n, 3)).astype(float)], axis=1)[:, :cols]


def box(P):
    return Box3d(P[:, :3].min(0), P[:, :3].max(0)) if len(P) else Box3d(np.zeros(3), np.zeros(3))


def dmat(A, B):
    return np.sqrt(((A[:, None, :3] - B[None, :, :3]) ** 2).sum(2))


def overlap(seed, n1, n2, kind, shift, thresh, cols):
    r = np.random.RandomState(seed)
    A = points(r, n1, kind, cols)
    B = A.copy() if shift == "same" else points(r, n2, kind, cols)
    if shift == "far":
        B[:, r.randint(3)] += r.choice([-1, 1]) * (20 + thresh)
    elif shift == "near":
        B[:, :3] += r.choice([0.0, 0.25, thresh], 3)
    keep = frozen(A, B)
    v = U.points_iou(A, box(A), B, box(B), thresh)
    w = U.points_iou(B, box(B), A, box(A), thresh)
    unchanged([A, B], keep, "points")
    require(0 <= v <= 1, "overlap %s", v)
    require(v == w, "overlap %s, with swapped arguments %s", v, w)
    if len(A) and len(B):
        D = dmat(A, B)
        e = 1e-9
        lo = (np.sum(D.min(1) <= thresh - e) + np.sum(D.min(0) <= thresh - e)) / (len(A) + len(B))
        hi = (np.sum(D.min(1) <= thresh + e) + np.sum(D.min(0) <= thresh + e)) / (len(A) + len(B))
        if kind == "lattice" and shift in ("same", "other") and thresh in (0.0, 0.25, 0.5, 0.75, 1.0):
            lo = hi          # exact arithmetic: a distance equal to the threshold counts
        require(lo <= v <= hi, "overlap %s, expected %s", v, hi)
        if shift == "same":
            require(v == 1, "overlap of identical sets is %s", v)
        if shift == "far":
            require(v == 0, "overlap of sets far apart is %s", v)
    else:
        require(v == 0, "overlap with an empty set is %s", v)
    i12, i21, d12, d21 = U.nearest_neighbors(A[:, :3], B[:, :3])
    if not len(A) or not len(B):
        require(len(i12) == len(i21) == len(d12) == len(d21) == 0, "neighbours in an empty set")
        return
    D = dmat(A, B)
    d12, d21 = np.asarray(d12).reshape(-1), np.asarray(d21).reshape(-1)
    require(np.asarray(i12).shape == (len(A),) and np.asarray(i21).shape == (len(B),), "index shapes")
    close(d12, D.min(1), "distances from the first set")
    close(d21, D.min(0), "distances from the second set")
    close(D[np.arange(len(A)), i12], D.min(1), "neighbours of the first set")
    close(D[i21, np.arange(len(B))], D.min(0), "neighbours of the second set")
    unchanged([A, B], keep, "points")


def scene(els):
    return types.SimpleNamespace(elements=els)


def rms(seed, nt, nd, ng, same_geo, same_col):
    r = np.random.RandomState(seed)
    kind = ["lattice", "cluster", "uniform"][r.randint(3)]
    G = {"g%d" % j: points(r, r.randint(1, 20), "uniform" if same_geo else kind) for j in range(ng)}
    Dt = {}
    for i in range(nd):
        P = points(r, r.randint(1, 20), kind)
        Dt["d%d" % i] = P
    E = {g: bool(r.randint(4)) for g in G}
    ths = sorted(r.choice([0.1, 0.3, 0.5, 0.7, 0.9], nt, replace=False))
    assoc = {}
    fixed = {}
    for t in ths:
        a = {}
        gs = list(G)
        r.shuffle(gs)
        for d in Dt:
            if gs and r.rand() < 0.7:
                g = gs.pop()
                if same_geo:
                    # a pair agrees in geometry (and colours) whatever the threshold
                    if d in fixed:
                        g = fixed[d]
                    elif g in fixed.values():
                        continue
                    fixed[d] = g
                    Q = G[g][r.permutation(len(G[g]))].copy()
                    if not same_col:
                        Q[:, 3:] = 255 - Q[:, 3:]
                    if t == ths[0] or d not in [x for b in assoc.values() for x in b]:
                        Dt[d] = Q
                a[d] = types.SimpleNamespace(det_id=d, gt_id=g, evaluated=E[g], similarity=0.9, det_score=0.5)
        assoc[t] = a
    sub = scene({d: types.SimpleNamespace(id=d, posed_points=P.copy(), evaluated=bool(r.randint(2))) for d, P in Dt.items()})
    gt = scene({g: types.SimpleNamespace(id=g, posed_points=P.copy(), evaluated=E[g]) for g, P in G.items()})
    ev = types.SimpleNamespace(_settings={"thresholds": np.array(ths)}, _agnostic_data_assoc=assoc, _submission=sub, _ground_truth=gt)
    want, cwant = [], []
    for t in ths:
        for d, c in assoc[t].items():
            if not E[c.gt_id]:
                continue
            A, B = Dt[d], G[c.gt_id]
            D = dmat(A, B)
            want.append(math.sqrt((np.sum(D.min(1) ** 2) + np.sum(D.min(0) ** 2)) / (len(A) + len(B))))
            # ties between equally near points may be resolved either way
            ca = [[np.sum((A[i, 3:] - B[j, 3:]) ** 2) for j in range(len(B)) if D[i, j] <= D[i].min() + 1e-12] for i in range(len(A))]
            cb = [[np.sum((A[i, 3:] - B[j, 3:]) ** 2) for i in range(len(A)) if D[i, j] <= D[:, j].min() + 1e-12] for j in range(len(B))]
            n = len(A) + len(B)
            cwant.append((math.sqrt(sum(map(min, ca + cb)) / n), math.sqrt(sum(map(max, ca + cb)) / n)))
    for kw in ({}, {"voxels": True}):
        v, c = U.points_rmsssd(ev, sub, gt, **kw), U.color_rmsssd(ev, sub, gt, **kw)
        if not want:
            require(v == math.inf and c == math.inf, "distances without matches: %s, %s", v, c)
            continue
        require(v >= 0 and c >= 0, "distances %s, %s", v, c)
        require(abs(v - np.mean(want)) < 1e-9 * (1 + v), "surface distance %s, expected %s", v, np.mean(want))
        lo, hi = np.mean([x[0] for x in cwant]), np.mean([x[1] for x in cwant])
        require(lo - 1e-9 * (1 + lo) <= c <= hi + 1e-9 * (1 + hi), "colour distance %s, expected %s to %s", c, lo, hi)
        if same_geo:
            require(v < 1e-9, "surface distance %s of equal geometry", v)
            if same_col:
                require(c < 1e-9, "colour distance %s of equal colours", c)
    for d, P in Dt.items():
        same(sub.elements[d].posed_points, P, "points of a detection")


CHECKS = {"overlap": overlap, "rms": rms}


def cases(rnd, tier):
    for n1, n2 in ((0, 0), (0, 3), (3, 0), (1, 1)):
        for s in ("other", "far"):
            yield "overlap", {"seed": rnd.randrange(1 << 30), "n1": n1, "n2": n2, "kind": "uniform", "shift": s, "thresh": 0.15, "cols": 6}
    for i in range(20000):
        yield "overlap", {"seed": rnd.randrange(1 << 30), "n1": rnd.randint(1, 60), "n2": rnd.randint(1, 60), "kind": rnd.choice(["lattice", "cluster", "uniform"]),
                          "shift": rnd.choice(["same", "other", "far", "near"]), "thresh": rnd.choice([0.0, 0.15, 0.25, 0.5, 1.0]), "cols": rnd.choice([3, 6])}
        yield "rms", {"seed": rnd.randrange(1 << 30), "nt": rnd.randint(1, 4), "nd": rnd.randrange(5), "ng": rnd.randrange(5), "same_geo": rnd.random() < 0.3,
                      "same_col": rnd.random() < 0.5}
