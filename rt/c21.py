MODULES = ["sumo.threedee.gltf_model", "sumo.threedee.compute_bbox", "sumo.threedee.box_3d", "sumo.geometry.pose3"]
import numpy as np

import metricstub
from common import *

BUDGET = 10
RULE = ("all similarity matrices up to 3x3 over {0, 1/4, 1/2, 1} with tied and distinct scores (sampled where too many), random scenes up to 9x9 elements with ties "
        "and similarities exactly on a threshold, unsorted and repeated thresholds, several categories, listed or not; distinct by content")


def setup():
    metricstub.install()
    global EV, PO, PS, POD, Box3d
    from sumo.metrics import evaluator as EV
    from sumo.semantic.project_object import ProjectObject as PO
    from sumo.semantic.project_scene import ProjectScene as PS
    from sumo.semantic.project_object_dict import ProjectObjectDict as POD
    from sumo.threedee.box_3d import Box3d


def scene(ids, cats, scores=None, evaluated=None):
    p = PS("bounding_box")
    b = Box3d(np.zeros(3), np.ones(3))
    for i, d in enumerate(ids):
        p.elements[d] = PO.gen_bounding_box_object(d, b, category=cats[i], score=-1 if scores is None else scores[i],
                                                   evaluated=True if evaluated is None else evaluated[i])
    return p


def check_assoc(A, dets, gts, sim, score, evaluated, thresholds, what):
    require(sorted(set(A)) == sorted(set(thresholds)), "%s: thresholds %s, expected %s", what, sorted(A), sorted(set(thresholds)))
    for t in thresholds:
        a = A[t]
        w = "%s at threshold %s" % (what, t)
        require(set(a) <= set(dets), "%s: matched detections %s of %s", w, sorted(a), sorted(dets))
        used = {}
        for d, c in a.items():
            require(c.det_id == d, "%s: entry %r is for %r", w, d, c.det_id)
            require(c.gt_id in gts, "%s: detection %r has ground truth %r", w, d, c.gt_id)
            require(c.gt_id not in used, "%s: ground truth %r is matched twice", w, c.gt_id)
            used[c.gt_id] = d
            require(c.similarity == sim[d, c.gt_id], "%s: pair %r-%r has similarity %s, expected %s", w, d, c.gt_id, c.similarity, sim[d, c.gt_id])
            require(c.similarity >= t, "%s: pair %r-%r of similarity %s is matched", w, d, c.gt_id, c.similarity)
            require(c.det_score == score[d], "%s: detection %r has score %s, expected %s", w, d, c.det_score, score[d])
            require(c.evaluated == evaluated[c.gt_id], "%s: pair %r-%r has evaluated %s", w, d, c.gt_id, c.evaluated)
        for d in dets:
            for g in gts:
                if sim[d, g] >= t:
                    require(d in a or g in used, "%s: pair %r-%r of similarity %s is left over", w, d, g, sim[d, g])
                    # a detection that could have had the more similar g instead lost it to a detection that is not worse
                    if d in a and sim[d, g] > a[d].similarity:
                        require(g in used and score[used[g]] >= score[d], "%s: detection %r has %r although %r is more similar and %s", w, d, a[d].gt_id, g,
                                "free" if g not in used else "taken by the worse detection %r" % used[g])
                    if d not in a:
                        require(score[used[g]] >= score[d], "%s: detection %r lost %r to the worse detection %r", w, d, g, used[g])


def run(sim, scores, evaluated, dcats, gcats, thresholds, categories, default):
    nd, ng = len(scores), len(evaluated)
    D = ["d%d" % i if i % 3 else "same%d" % i for i in range(nd)]
    G = ["g%d" % i if i % 3 else "same%d" % i for i in range(ng)]        # ids may coincide between the scenes
    S = {(d, g): sim[i][j] for i, d in enumerate(D) for j, g in enumerate(G)}
    sub, gt = scene(D, dcats, scores=scores), scene(G, gcats, evaluated=evaluated)
    calls = []

    class E(EV.Evaluator):
        def _shape_similarity(self, e1, e2):
            require(sub.elements.get(e1.id) is e1 and gt.elements.get(e2.id) is e2, "similarity of something else than a detection and a ground truth")
            calls.append(1)
            return S[e1.id, e2.id]
    st = EV.Evaluator.default_settings() if default else {}
    st["thresholds"] = np.array(thresholds)
    st["categories"] = list(categories)
    internal(EV.Evaluator, "_shape_similarity")
    e = E(sub, gt, st)
    score = dict(zip(D, scores))
    ev = dict(zip(G, evaluated))
    cache = getattr(e, "_similarity_cache", None)
    if cache is not None:
        require(set(cache) == set(D), "similarity cache has %s", sorted(cache))
    for d in D if cache is not None else ():
        require(set(cache[d]) == set(G), "similarities of detection %s: %s", d, sorted(cache[d]))
        for g in G:
            c = cache[d][g]
            require((c.det_id, c.gt_id, c.similarity, c.det_score, c.evaluated) == (d, g, S[d, g], score[d], ev[g]), "similarity cache entry %s-%s", d, g)
    th = sorted(thresholds)
    check_assoc(internal(e, "_agnostic_data_assoc"), D, G, S, score, ev, th, "association")
    by = internal(e, "_category_data_assoc")
    for c in categories:
        ds = [d for d, k in zip(D, dcats) if k == c]
        gs = [g for g, k in zip(G, gcats) if k == c]
        if not ds and not gs:
            continue
        require(c in by, "category %r has no association", c)
        check_assoc(by[c], ds, gs, S, score, ev, th, "association of category %r" % c)
    require(set(by) <= set(categories), "association of categories %s", sorted(by))
    require(list(sub.elements) == D and list(gt.elements) == G, "the scenes were modified")
    # matching by distinct scores and similarities is determined completely
    if len(set(scores)) == nd and len(set(S.values())) == len(S):
        for t in th:
            free, want = set(G), {}
            for d in sorted(D, key=lambda d: -score[d]):
                c = [g for g in free if S[d, g] >= t]
                if c:
                    want[d] = max(c, key=lambda g: S[d, g])
                    free.remove(want[d])
            got = {d: c.gt_id for d, c in internal(e, "_agnostic_data_assoc")[t].items()}
            require(got == want, "association at threshold %s: %s, expected %s", t, got, want)


CHECKS = {"run": run}


def cases(rnd, tier):
    base = dict(thresholds=[0.25, 0.5, 0.75], categories=["a", "b"], default=True)
    for nd, ng in ((0, 0), (0, 2), (2, 0)):
        yield "run", dict(base, sim=[[0.5] * ng for _ in range(nd)], scores=[0.1] * nd, evaluated=[True] * ng, dcats=["a"] * nd, gcats=["b"] * ng)
    import itertools
    for v in itertools.product([0.0, 0.25, 0.5, 1.0], repeat=4):
        for s in ([0.5, 0.5], [0.2, 0.7]):
            yield "run", dict(base, sim=[list(v[:2]), list(v[2:])], scores=s, evaluated=[True, False], dcats=["a", "a"], gcats=["a", "a"])
    for i in range(20000):
        nd, ng = rnd.randrange(10), rnd.randrange(10)
        lv = rnd.choice([[0.0, 0.25, 0.5, 1.0], [0.3, 0.6, 0.9], None])
        th = [rnd.choice([0.0, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 1.0, rnd.random()]) for _ in range(rnd.randint(1, 5))]
        cats = ["a", "b", "c"]
        yield "run", dict(sim=[[rnd.choice(lv) if lv else rnd.random() for _ in range(ng)] for _ in range(nd)],
                          scores=[rnd.choice([-1, 0, 0.5, 1]) if i % 2 else rnd.uniform(-1, 2) for _ in range(nd)],
                          evaluated=[rnd.random() < 0.7 for _ in range(ng)], dcats=[rnd.choice(cats) for _ in range(nd)],
                          gcats=[rnd.choice(cats) for _ in range(ng)], thresholds=th, categories=rnd.sample(["a", "b", "c", "d"], rnd.randrange(5)),
                          default=rnd.random() < 0.5)
